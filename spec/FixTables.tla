------------------------------ MODULE FixTables -------------------------------
(* Generated by tools/mktables.py; all values times 10^6.                         *)
(* LnTab[n] = ln n; ExpTab[i+1] = exp(-i/200); PhiTab[i+1] = Phi(i/100).            *)
LnTab == <<
  0, 693147, 1098612, 1386294, 1609438, 1791759, 1945910, 2079442, 2197225, 2302585, 2397895, 2484907, 2564949, 2639057, 2708050, 2772589,
  2833213, 2890372, 2944439, 2995732, 3044522, 3091042, 3135494, 3178054, 3218876, 3258097, 3295837, 3332205, 3367296, 3401197, 3433987, 3465736,
  3496508, 3526361, 3555348, 3583519, 3610918, 3637586, 3663562, 3688879, 3713572, 3737670, 3761200, 3784190, 3806662, 3828641, 3850148, 3871201,
  3891820, 3912023, 3931826, 3951244, 3970292, 3988984, 4007333, 4025352, 4043051, 4060443, 4077537, 4094345, 4110874, 4127134, 4143135, 4158883,
  4174387, 4189655, 4204693, 4219508, 4234107, 4248495, 4262680, 4276666, 4290459, 4304065, 4317488, 4330733, 4343805, 4356709, 4369448, 4382027,
  4394449, 4406719, 4418841, 4430817, 4442651, 4454347, 4465908, 4477337, 4488636, 4499810, 4510860, 4521789, 4532599, 4543295, 4553877, 4564348,
  4574711, 4584967, 4595120, 4605170, 4615121, 4624973, 4634729, 4644391, 4653960, 4663439, 4672829, 4682131, 4691348, 4700480, 4709530, 4718499,
  4727388, 4736198, 4744932, 4753590, 4762174, 4770685, 4779123, 4787492, 4795791, 4804021, 4812184, 4820282, 4828314, 4836282, 4844187, 4852030,
  4859812, 4867534, 4875197, 4882802, 4890349, 4897840, 4905275, 4912655, 4919981, 4927254, 4934474, 4941642, 4948760, 4955827, 4962845, 4969813,
  4976734, 4983607, 4990433, 4997212, 5003946, 5010635, 5017280, 5023881, 5030438, 5036953, 5043425, 5049856, 5056246, 5062595, 5068904, 5075174,
  5081404, 5087596, 5093750, 5099866, 5105945, 5111988, 5117994, 5123964, 5129899, 5135798, 5141664, 5147494, 5153292, 5159055, 5164786, 5170484,
  5176150, 5181784, 5187386, 5192957, 5198497, 5204007, 5209486, 5214936, 5220356, 5225747, 5231109, 5236442, 5241747, 5247024, 5252273, 5257495,
  5262690, 5267858, 5273000, 5278115, 5283204, 5288267, 5293305, 5298317, 5303305, 5308268, 5313206, 5318120, 5323010, 5327876, 5332719, 5337538,
  5342334, 5347108, 5351858, 5356586, 5361292, 5365976, 5370638, 5375278, 5379897, 5384495, 5389072, 5393628, 5398163, 5402677, 5407172, 5411646,
  5416100, 5420535, 5424950, 5429346, 5433722, 5438079, 5442418, 5446737, 5451038, 5455321, 5459586, 5463832, 5468060, 5472271, 5476464, 5480639,
  5484797, 5488938, 5493061, 5497168, 5501258, 5505332, 5509388, 5513429, 5517453, 5521461, 5525453, 5529429, 5533389, 5537334, 5541264, 5545177,
  5549076, 5552960, 5556828, 5560682, 5564520, 5568345, 5572154, 5575949, 5579730, 5583496, 5587249, 5590987, 5594711, 5598422, 5602119, 5605802,
  5609472, 5613128, 5616771, 5620401, 5624018, 5627621, 5631212, 5634790, 5638355, 5641907, 5645447, 5648974, 5652489, 5655992, 5659482, 5662960,
  5666427, 5669881, 5673323, 5676754, 5680173, 5683580, 5686975, 5690359, 5693732, 5697093, 5700444, 5703782, 5707110, 5710427, 5713733, 5717028,
  5720312, 5723585, 5726848, 5730100, 5733341, 5736572, 5739793, 5743003, 5746203, 5749393, 5752573, 5755742, 5758902, 5762051, 5765191, 5768321,
  5771441, 5774552, 5777652, 5780744, 5783825, 5786897, 5789960, 5793014, 5796058, 5799093, 5802118, 5805135, 5808142, 5811141, 5814131, 5817111,
  5820083, 5823046, 5826000, 5828946, 5831882, 5834811, 5837730, 5840642, 5843544, 5846439, 5849325, 5852202, 5855072, 5857933, 5860786, 5863631,
  5866468, 5869297, 5872118, 5874931, 5877736, 5880533, 5883322, 5886104, 5888878, 5891644, 5894403, 5897154, 5899897, 5902633, 5905362, 5908083,
  5910797, 5913503, 5916202, 5918894, 5921578, 5924256, 5926926, 5929589, 5932245, 5934894, 5937536, 5940171, 5942799, 5945421, 5948035, 5950643,
  5953243, 5955837, 5958425, 5961005, 5963579, 5966147, 5968708, 5971262, 5973810, 5976351, 5978886, 5981414, 5983936, 5986452, 5988961, 5991465,
  5993961, 5996452, 5998937, 6001415, 6003887, 6006353, 6008813, 6011267, 6013715, 6016157, 6018593, 6021023, 6023448, 6025866, 6028279, 6030685,
  6033086, 6035481, 6037871, 6040255, 6042633, 6045005, 6047372, 6049733, 6052089, 6054439, 6056784, 6059123, 6061457, 6063785, 6066108, 6068426,
  6070738, 6073045, 6075346, 6077642, 6079933, 6082219, 6084499, 6086775, 6089045, 6091310, 6093570, 6095825, 6098074, 6100319, 6102559, 6104793,
  6107023, 6109248, 6111467, 6113682, 6115892, 6118097, 6120297, 6122493, 6124683, 6126869, 6129050, 6131226, 6133398, 6135565, 6137727, 6139885,
  6142037, 6144186, 6146329, 6148468, 6150603, 6152733, 6154858, 6156979, 6159095, 6161207, 6163315, 6165418, 6167516, 6169611, 6171701, 6173786,
  6175867, 6177944, 6180017, 6182085, 6184149, 6186209, 6188264, 6190315, 6192362, 6194405, 6196444, 6198479, 6200509, 6202536, 6204558, 6206576,
  6208590, 6210600, 6212606, 6214608, 6216606, 6218600, 6220590, 6222576, 6224558, 6226537, 6228511, 6230481, 6232448, 6234411, 6236370, 6238325,
  6240276, 6242223, 6244167, 6246107, 6248043, 6249975, 6251904, 6253829, 6255750, 6257668, 6259581, 6261492, 6263398, 6265301, 6267201, 6269096,
  6270988, 6272877, 6274762, 6276643, 6278521, 6280396, 6282267, 6284134, 6285998, 6287859, 6289716, 6291569, 6293419, 6295266, 6297109, 6298949,
  6300786, 6302619, 6304449, 6306275, 6308098, 6309918, 6311735, 6313548, 6315358, 6317165, 6318968, 6320768, 6322565, 6324359, 6326149, 6327937,
  6329721, 6331502, 6333280, 6335054, 6336826, 6338594, 6340359, 6342121, 6343880, 6345636, 6347389, 6349139, 6350886, 6352629, 6354370, 6356108,
  6357842, 6359574, 6361302, 6363028, 6364751, 6366470, 6368187, 6369901, 6371612, 6373320, 6375025, 6376727, 6378426, 6380123, 6381816, 6383507,
  6385194, 6386879, 6388561, 6390241, 6391917, 6393591, 6395262, 6396930, 6398595, 6400257, 6401917, 6403574, 6405228, 6406880, 6408529, 6410175,
  6411818, 6413459, 6415097, 6416732, 6418365, 6419995, 6421622, 6423247, 6424869, 6426488, 6428105, 6429719, 6431331, 6432940, 6434547, 6436150,
  6437752, 6439350, 6440947, 6442540, 6444131, 6445720, 6447306, 6448889, 6450470, 6452049, 6453625, 6455199, 6456770, 6458338, 6459904, 6461468,
  6463029, 6464588, 6466145, 6467699, 6469250, 6470800, 6472346, 6473891, 6475433, 6476972, 6478510, 6480045, 6481577, 6483107, 6484635, 6486161,
  6487684, 6489205, 6490724, 6492240, 6493754, 6495266, 6496775, 6498282, 6499787, 6501290, 6502790, 6504288, 6505784, 6507278, 6508769, 6510258,
  6511745, 6513230, 6514713, 6516193, 6517671, 6519147, 6520621, 6522093, 6523562, 6525030, 6526495, 6527958, 6529419, 6530878, 6532334, 6533789,
  6535241, 6536692, 6538140, 6539586, 6541030, 6542472, 6543912, 6545350, 6546785, 6548219, 6549651, 6551080, 6552508, 6553933, 6555357, 6556778,
  6558198, 6559615, 6561031, 6562444, 6563856, 6565265, 6566672, 6568078, 6569481, 6570883, 6572283, 6573680, 6575076, 6576470, 6577861, 6579251,
  6580639, 6582025, 6583409, 6584791, 6586172, 6587550, 6588926, 6590301, 6591674, 6593045, 6594413, 6595781, 6597146, 6598509, 6599870, 6601230,
  6602588, 6603944, 6605298, 6606650, 6608001, 6609349, 6610696, 6612041, 6613384, 6614726, 6616065, 6617403, 6618739, 6620073, 6621406, 6622736,
  6624065, 6625392, 6626718, 6628041, 6629363, 6630683, 6632002, 6633318, 6634633, 6635947, 6637258, 6638568, 6639876, 6641182, 6642487, 6643790,
  6645091, 6646391, 6647688, 6648985, 6650279, 6651572, 6652863, 6654153, 6655440, 6656727, 6658011, 6659294, 6660575, 6661855, 6663133, 6664409,
  6665684, 6666957, 6668228, 6669498, 6670766, 6672033, 6673298, 6674561, 6675823, 6677083, 6678342, 6679599, 6680855, 6682109, 6683361, 6684612,
  6685861, 6687109, 6688355, 6689599, 6690842, 6692084, 6693324, 6694562, 6695799, 6697034, 6698268, 6699500, 6700731, 6701960, 6703188, 6704414,
  6705639, 6706862, 6708084, 6709304, 6710523, 6711740, 6712956, 6714171, 6715383, 6716595, 6717805, 6719013, 6720220, 6721426, 6722630, 6723832,
  6725034, 6726233, 6727432, 6728629, 6729824, 6731018, 6732211, 6733402, 6734592, 6735780, 6736967, 6738152, 6739337, 6740519, 6741701, 6742881,
  6744059, 6745236, 6746412, 6747587, 6748760, 6749931, 6751101, 6752270, 6753438, 6754604, 6755769, 6756932, 6758095, 6759255, 6760415, 6761573,
  6762730, 6763885, 6765039, 6766192, 6767343, 6768493, 6769642, 6770789, 6771936, 6773080, 6774224, 6775366, 6776507, 6777647, 6778785, 6779922,
  6781058, 6782192, 6783325, 6784457, 6785588, 6786717, 6787845, 6788972, 6790097, 6791221, 6792344, 6793466, 6794587, 6795706, 6796824, 6797940,
  6799056, 6800170, 6801283, 6802395, 6803505, 6804615, 6805723, 6806829, 6807935, 6809039, 6810142, 6811244, 6812345, 6813445, 6814543, 6815640,
  6816736, 6817831, 6818924, 6820016, 6821107, 6822197, 6823286, 6824374, 6825460, 6826545, 6827629, 6828712, 6829794, 6830874, 6831954, 6833032,
  6834109, 6835185, 6836259, 6837333, 6838405, 6839476, 6840547, 6841615, 6842683, 6843750, 6844815, 6845880, 6846943, 6848005, 6849066, 6850126,
  6851185, 6852243, 6853299, 6854355, 6855409, 6856462, 6857514, 6858565, 6859615, 6860664, 6861711, 6862758, 6863803, 6864848, 6865891, 6866933,
  6867974, 6869014, 6870053, 6871091, 6872128, 6873164, 6874198, 6875232, 6876265, 6877296, 6878326, 6879356, 6880384, 6881411, 6882437, 6883463,
  6884487, 6885510, 6886532, 6887553, 6888572, 6889591, 6890609, 6891626, 6892642, 6893656, 6894670, 6895683, 6896694, 6897705, 6898715, 6899723,
  6900731, 6901737, 6902743, 6903747, 6904751, 6905753, 6906755, 6907755, 6908755, 6909753, 6910751, 6911747, 6912743, 6913737, 6914731, 6915723,
  6916715, 6917706, 6918695, 6919684, 6920672, 6921658, 6922644, 6923629, 6924612, 6925595, 6926577, 6927558, 6928538, 6929517, 6930495, 6931472,
  6932448, 6933423, 6934397, 6935370, 6936343, 6937314, 6938284, 6939254, 6940222, 6941190, 6942157, 6943122, 6944087, 6945051, 6946014, 6946976,
  6947937, 6948897, 6949856, 6950815, 6951772, 6952729, 6953684, 6954639, 6955593, 6956545, 6957497, 6958448, 6959399, 6960348, 6961296, 6962243,
  6963190, 6964136, 6965080, 6966024, 6966967, 6967909, 6968850, 6969791, 6970730, 6971669, 6972606, 6973543, 6974479, 6975414, 6976348, 6977281,
  6978214, 6979145, 6980076, 6981006, 6981935, 6982863, 6983790, 6984716, 6985642, 6986566, 6987490, 6988413, 6989335, 6990257, 6991177, 6992096,
  6993015, 6993933, 6994850, 6995766, 6996681, 6997596, 6998510, 6999422, 7000334, 7001246, 7002156, 7003065, 7003974, 7004882, 7005789, 7006695,
  7007601, 7008505, 7009409, 7010312, 7011214, 7012115, 7013016, 7013915, 7014814, 7015712, 7016610, 7017506, 7018402, 7019297, 7020191, 7021084,
  7021976, 7022868, 7023759, 7024649, 7025538, 7026427, 7027315, 7028201, 7029088, 7029973, 7030857, 7031741, 7032624, 7033506, 7034388, 7035269,
  7036148, 7037028, 7037906, 7038784, 7039660, 7040536, 7041412, 7042286, 7043160, 7044033, 7044905, 7045777, 7046647, 7047517, 7048386, 7049255,
  7050123, 7050989, 7051856, 7052721, 7053586, 7054450, 7055313, 7056175, 7057037, 7057898, 7058758, 7059618, 7060476, 7061334, 7062192, 7063048,
  7063904, 7064759, 7065613, 7066467, 7067320, 7068172, 7069023, 7069874, 7070724, 7071573, 7072422, 7073270, 7074117, 7074963, 7075809, 7076654,
  7077498, 7078342, 7079184, 7080026, 7080868, 7081709, 7082549, 7083388, 7084226, 7085064, 7085901, 7086738, 7087574, 7088409, 7089243, 7090077,
  7090910, 7091742, 7092574, 7093405, 7094235, 7095064, 7095893, 7096721, 7097549, 7098376, 7099202, 7100027, 7100852, 7101676, 7102499, 7103322,
  7104144, 7104965, 7105786, 7106606, 7107425, 7108244, 7109062, 7109879, 7110696, 7111512, 7112327, 7113142, 7113956, 7114769, 7115582, 7116394,
  7117206, 7118016, 7118826, 7119636, 7120444, 7121252, 7122060, 7122867, 7123673, 7124478, 7125283, 7126087, 7126891, 7127694, 7128496, 7129298,
  7130099, 7130899, 7131699, 7132498, 7133296, 7134094, 7134891, 7135687, 7136483, 7137278, 7138073, 7138867, 7139660, 7140453, 7141245, 7142037,
  7142827, 7143618, 7144407, 7145196, 7145984, 7146772, 7147559, 7148346, 7149132, 7149917, 7150701, 7151485, 7152269, 7153052, 7153834, 7154615,
  7155396, 7156177, 7156956, 7157735, 7158514, 7159292, 7160069, 7160846, 7161622, 7162397, 7163172, 7163947, 7164720, 7165493, 7166266, 7167038,
  7167809, 7168580, 7169350, 7170120, 7170888, 7171657, 7172425, 7173192, 7173958, 7174724, 7175490, 7176255, 7177019, 7177782, 7178545, 7179308,
  7180070, 7180831, 7181592, 7182352, 7183112, 7183871, 7184629, 7185387, 7186144, 7186901, 7187657, 7188413, 7189168, 7189922, 7190676, 7191429,
  7192182, 7192934, 7193686, 7194437, 7195187, 7195937, 7196687, 7197435, 7198184, 7198931, 7199678, 7200425, 7201171, 7201916, 7202661, 7203406,
  7204149, 7204893, 7205635, 7206377, 7207119, 7207860, 7208600, 7209340, 7210080, 7210818, 7211557, 7212294, 7213032, 7213768, 7214504, 7215240,
  7215975, 7216709, 7217443, 7218177, 7218910, 7219642, 7220374, 7221105, 7221836, 7222566, 7223296, 7224025, 7224753, 7225481, 7226209, 7226936,
  7227662, 7228388, 7229114, 7229839, 7230563, 7231287, 7232010, 7232733, 7233455, 7234177, 7234898, 7235619, 7236339, 7237059, 7237778, 7238497,
  7239215, 7239933, 7240650, 7241366, 7242082, 7242798, 7243513, 7244228, 7244942, 7245655, 7246368, 7247081, 7247793, 7248504, 7249215, 7249926,
  7250636, 7251345, 7252054, 7252762, 7253470, 7254178, 7254885, 7255591, 7256297, 7257003, 7257708, 7258412, 7259116, 7259820, 7260523, 7261225,
  7261927, 7262629, 7263330, 7264030, 7264730, 7265430, 7266129, 7266827, 7267525, 7268223, 7268920, 7269617, 7270313, 7271009, 7271704, 7272398,
  7273093, 7273786, 7274480, 7275172, 7275865, 7276556, 7277248, 7277939, 7278629, 7279319, 7280008, 7280697, 7281386, 7282074, 7282761, 7283448,
  7284135, 7284821, 7285507, 7286192, 7286876, 7287561, 7288244, 7288928, 7289611, 7290293, 7290975, 7291656, 7292337, 7293018, 7293698, 7294377,
  7295056, 7295735, 7296413, 7297091, 7297768, 7298445, 7299121, 7299797, 7300473, 7301148, 7301822, 7302496, 7303170, 7303843, 7304516, 7305188,
  7305860, 7306531, 7307202, 7307873, 7308543, 7309212, 7309881, 7310550, 7311218, 7311886, 7312553, 7313220, 7313887, 7314553, 7315218, 7315884,
  7316548, 7317212, 7317876, 7318540, 7319202, 7319865, 7320527, 7321189, 7321850, 7322510, 7323171, 7323831, 7324490, 7325149, 7325808, 7326466,
  7327123, 7327781, 7328437, 7329094, 7329750, 7330405, 7331060, 7331715, 7332369, 7333023, 7333676, 7334329, 7334982, 7335634, 7336286, 7336937,
  7337588, 7338238, 7338888, 7339538, 7340187, 7340836, 7341484, 7342132, 7342779, 7343426, 7344073, 7344719, 7345365, 7346010, 7346655, 7347300,
  7347944, 7348588, 7349231, 7349874, 7350516, 7351158, 7351800, 7352441, 7353082, 7353722, 7354362, 7355002, 7355641, 7356280, 7356918, 7357556,
  7358194, 7358831, 7359468, 7360104, 7360740, 7361375, 7362011, 7362645, 7363280, 7363914, 7364547, 7365180, 7365813, 7366445, 7367077, 7367709,
  7368340, 7368970, 7369601, 7370231, 7370860, 7371489, 7372118, 7372746, 7373374, 7374002, 7374629, 7375256, 7375882, 7376508, 7377134, 7377759,
  7378384, 7379008, 7379632, 7380256, 7380879, 7381502, 7382124, 7382746, 7383368, 7383989, 7384610, 7385231, 7385851, 7386471, 7387090, 7387709,
  7388328, 7388946, 7389564, 7390181, 7390799, 7391415, 7392032, 7392648, 7393263, 7393878, 7394493, 7395108, 7395722, 7396335, 7396949, 7397562,
  7398174, 7398786, 7399398, 7400010, 7400621, 7401231, 7401842, 7402452, 7403061, 7403670, 7404279, 7404888, 7405496, 7406103, 7406711, 7407318,
  7407924, 7408531, 7409136, 7409742, 7410347, 7410952, 7411556, 7412160, 7412764, 7413367, 7413970, 7414573, 7415175, 7415777, 7416378, 7416980,
  7417580, 7418181, 7418781, 7419381, 7419980, 7420579, 7421178, 7421776, 7422374, 7422971, 7423568, 7424165, 7424762, 7425358, 7425954, 7426549,
  7427144, 7427739, 7428333, 7428927, 7429521, 7430114, 7430707, 7431300, 7431892, 7432484, 7433075, 7433667, 7434257, 7434848, 7435438, 7436028,
  7436617, 7437206, 7437795, 7438384, 7438972, 7439559, 7440147, 7440734, 7441320, 7441907, 7442493, 7443078, 7443664, 7444249, 7444833, 7445418,
  7446001, 7446585, 7447168, 7447751, 7448334, 7448916, 7449498, 7450080, 7450661, 7451242, 7451822, 7452402, 7452982, 7453562, 7454141, 7454720,
  7455298, 7455877, 7456455, 7457032, 7457609, 7458186, 7458763, 7459339, 7459915, 7460490, 7461066, 7461640, 7462215, 7462789, 7463363, 7463937,
  7464510, 7465083, 7465655, 7466228, 7466799, 7467371, 7467942, 7468513, 7469084, 7469654, 7470224, 7470794, 7471363, 7471932, 7472501, 7473069,
  7473637, 7474205, 7474772, 7475339, 7475906, 7476472, 7477038, 7477604, 7478170, 7478735, 7479300, 7479864, 7480428, 7480992, 7481556, 7482119,
  7482682, 7483244, 7483807, 7484369, 7484930, 7485492, 7486053, 7486613, 7487174, 7487734, 7488294, 7488853, 7489412, 7489971, 7490529, 7491088,
  7491645, 7492203, 7492760, 7493317, 7493874, 7494430, 7494986, 7495542, 7496097, 7496652, 7497207, 7497762, 7498316, 7498870, 7499423, 7499977,
  7500529, 7501082, 7501634, 7502186, 7502738, 7503290, 7503841, 7504392, 7504942, 7505492, 7506042, 7506592, 7507141, 7507690, 7508239, 7508787,
  7509335, 7509883, 7510431, 7510978, 7511525, 7512071, 7512618, 7513164, 7513709, 7514255, 7514800, 7515345, 7515889, 7516433, 7516977, 7517521,
  7518064, 7518607, 7519150, 7519692, 7520235, 7520776, 7521318, 7521859, 7522400, 7522941, 7523481, 7524021, 7524561, 7525101, 7525640, 7526179,
  7526718, 7527256, 7527794, 7528332, 7528869, 7529406, 7529943, 7530480, 7531016, 7531552, 7532088, 7532624, 7533159, 7533694, 7534228, 7534763,
  7535297, 7535830, 7536364, 7536897, 7537430, 7537963, 7538495, 7539027, 7539559, 7540090, 7540622, 7541152, 7541683, 7542213, 7542744, 7543273,
  7543803, 7544332, 7544861, 7545390, 7545918, 7546446, 7546974, 7547502, 7548029, 7548556, 7549083, 7549609, 7550135, 7550661, 7551187, 7551712,
  7552237, 7552762, 7553287, 7553811, 7554335, 7554859, 7555382, 7555905, 7556428, 7556951, 7557473, 7557995, 7558517, 7559038, 7559559, 7560080,
  7560601, 7561122, 7561642, 7562162, 7562681, 7563201, 7563720, 7564238, 7564757, 7565275, 7565793, 7566311, 7566828, 7567346, 7567863, 7568379,
  7568896, 7569412, 7569928, 7570443, 7570959, 7571474, 7571988, 7572503, 7573017, 7573531, 7574045, 7574558, 7575072, 7575585, 7576097, 7576610,
  7577122, 7577634, 7578145, 7578657, 7579168, 7579679, 7580189, 7580700, 7581210, 7581720, 7582229, 7582738, 7583248, 7583756, 7584265, 7584773,
  7585281, 7585789, 7586296, 7586804, 7587311, 7587817, 7588324, 7588830, 7589336, 7589842, 7590347, 7590852, 7591357, 7591862, 7592366, 7592870,
  7593374, 7593878, 7594381, 7594884, 7595387, 7595890, 7596392, 7596894, 7597396, 7597898, 7598399, 7598900, 7599401, 7599902, 7600402, 7600902,
  7601402, 7601902, 7602401, 7602900, 7603399, 7603898, 7604396, 7604894, 7605392, 7605890, 7606387, 7606885, 7607381, 7607878, 7608374, 7608871,
  7609367, 7609862, 7610358, 7610853, 7611348, 7611842, 7612337, 7612831, 7613325, 7613819, 7614312, 7614805, 7615298, 7615791, 7616284, 7616776,
  7617268, 7617760, 7618251, 7618742, 7619233, 7619724, 7620215, 7620705, 7621195, 7621685, 7622175, 7622664, 7623153, 7623642, 7624131, 7624619,
  7625107
>>
ExpTab == <<
  1000000, 995012, 990050, 985112, 980199, 975310, 970446, 965605, 960789, 955997, 951229, 946485, 941765, 937067, 932394, 927743,
  923116, 918512, 913931, 909373, 904837, 900325, 895834, 891366, 886920, 882497, 878095, 873716, 869358, 865022, 860708, 856415,
  852144, 847894, 843665, 839457, 835270, 831104, 826959, 822835, 818731, 814647, 810584, 806541, 802519, 798516, 794534, 790571,
  786628, 782705, 778801, 774916, 771052, 767206, 763379, 759572, 755784, 752014, 748264, 744532, 740818, 737123, 733447, 729789,
  726149, 722527, 718924, 715338, 711770, 708220, 704688, 701173, 697676, 694197, 690734, 687289, 683861, 680451, 677057, 673680,
  670320, 666977, 663650, 660340, 657047, 653770, 650509, 647265, 644036, 640824, 637628, 634448, 631284, 628135, 625002, 621885,
  618783, 615697, 612626, 609571, 606531, 603506, 600496, 597501, 594521, 591555, 588605, 585669, 582748, 579842, 576950, 574072,
  571209, 568360, 565525, 562705, 559898, 557106, 554327, 551563, 548812, 546074, 543351, 540641, 537944, 535261, 532592, 529935,
  527292, 524663, 522046, 519442, 516851, 514274, 511709, 509156, 506617, 504090, 501576, 499074, 496585, 494109, 491644, 489192,
  486752, 484325, 481909, 479505, 477114, 474734, 472367, 470011, 467666, 465334, 463013, 460704, 458406, 456120, 453845, 451581,
  449329, 447088, 444858, 442639, 440432, 438235, 436049, 433874, 431711, 429557, 427415, 425283, 423162, 421052, 418952, 416862,
  414783, 412714, 410656, 408608, 406570, 404542, 402524, 400517, 398519, 396531, 394554, 392586, 390628, 388680, 386741, 384812,
  382893, 380983, 379083, 377192, 375311, 373439, 371577, 369723, 367879, 366045, 364219, 362402, 360595, 358796, 357007, 355226,
  353455, 351692, 349938, 348192, 346456, 344728, 343009, 341298, 339596, 337902, 336216, 334540, 332871, 331211, 329559, 327915,
  326280, 324652, 323033, 321422, 319819, 318224, 316637, 315058, 313486, 311923, 310367, 308819, 307279, 305746, 304221, 302704,
  301194, 299692, 298197, 296710, 295230, 293758, 292293, 290835, 289384, 287941, 286505, 285076, 283654, 282239, 280832, 279431,
  278037, 276651, 275271, 273898, 272532, 271173, 269820, 268474, 267135, 265803, 264477, 263158, 261846, 260540, 259240, 257947,
  256661, 255381, 254107, 252840, 251579, 250324, 249075, 247833, 246597, 245367, 244143, 242926, 241714, 240508, 239309, 238115,
  236928, 235746, 234570, 233400, 232236, 231078, 229925, 228779, 227638, 226502, 225373, 224249, 223130, 222017, 220910, 219808,
  218712, 217621, 216536, 215456, 214381, 213312, 212248, 211189, 210136, 209088, 208045, 207008, 205975, 204948, 203926, 202909,
  201897, 200890, 199888, 198891, 197899, 196912, 195930, 194952, 193980, 193013, 192050, 191092, 190139, 189191, 188247, 187308,
  186374, 185444, 184520, 183599, 182684, 181772, 180866, 179964, 179066, 178173, 177284, 176400, 175520, 174645, 173774, 172907,
  172045, 171187, 170333, 169483, 168638, 167797, 166960, 166127, 165299, 164474, 163654, 162838, 162026, 161218, 160414, 159614,
  158817, 158025, 157237, 156453, 155673, 154896, 154124, 153355, 152590, 151829, 151072, 150318, 149569, 148823, 148080, 147342,
  146607, 145876, 145148, 144424, 143704, 142987, 142274, 141564, 140858, 140156, 139457, 138761, 138069, 137381, 136695, 136014,
  135335, 134660, 133989, 133320, 132655, 131994, 131336, 130680, 130029, 129380, 128735, 128093, 127454, 126818, 126186, 125556,
  124930, 124307, 123687, 123070, 122456, 121846, 121238, 120633, 120032, 119433, 118837, 118245, 117655, 117068, 116484, 115903,
  115325, 114750, 114178, 113608, 113042, 112478, 111917, 111359, 110803, 110251, 109701, 109154, 108609, 108067, 107528, 106992,
  106459, 105928, 105399, 104874, 104350, 103830, 103312, 102797, 102284, 101774, 101266, 100761, 100259, 99759, 99261, 98766,
  98274, 97783, 97296, 96810, 96328, 95847, 95369, 94894, 94420, 93949, 93481, 93014, 92551, 92089, 91630, 91173,
  90718, 90265, 89815, 89367, 88922, 88478, 88037, 87598, 87161, 86726, 86294, 85863, 85435, 85009, 84585, 84163,
  83743, 83326, 82910, 82496, 82085, 81676, 81268, 80863, 80460, 80058, 79659, 79262, 78866, 78473, 78082, 77692,
  77305, 76919, 76536, 76154, 75774, 75396, 75020, 74646, 74274, 73903, 73535, 73168, 72803, 72440, 72078, 71719,
  71361, 71005, 70651, 70299, 69948, 69599, 69252, 68907, 68563, 68221, 67881, 67542, 67206, 66870, 66537, 66205,
  65875, 65546, 65219, 64894, 64570, 64248, 63928, 63609, 63292, 62976, 62662, 62349, 62039, 61729, 61421, 61115,
  60810, 60507, 60205, 59905, 59606, 59309, 59013, 58719, 58426, 58134, 57844, 57556, 57269, 56983, 56699, 56416,
  56135, 55855, 55576, 55299, 55023, 54749, 54476, 54204, 53934, 53665, 53397, 53131, 52866, 52602, 52340, 52079,
  51819, 51560, 51303, 51047, 50793, 50540, 50287, 50037, 49787, 49539, 49292, 49046, 48801, 48558, 48316, 48075,
  47835, 47596, 47359, 47123, 46888, 46654, 46421, 46190, 45959, 45730, 45502, 45275, 45049, 44825, 44601, 44379,
  44157, 43937, 43718, 43500, 43283, 43067, 42852, 42638, 42426, 42214, 42004, 41794, 41586, 41378, 41172, 40967,
  40762, 40559, 40357, 40155, 39955, 39756, 39557, 39360, 39164, 38969, 38774, 38581, 38388, 38197, 38006, 37817,
  37628, 37441, 37254, 37068, 36883, 36699, 36516, 36334, 36153, 35973, 35793, 35615, 35437, 35260, 35084, 34909,
  34735, 34562, 34390, 34218, 34047, 33878, 33709, 33541, 33373, 33207, 33041, 32876, 32712, 32549, 32387, 32225,
  32065, 31905, 31746, 31587, 31430, 31273, 31117, 30962, 30807, 30654, 30501, 30349, 30197, 30047, 29897, 29748,
  29599, 29452, 29305, 29159, 29013, 28869, 28725, 28581, 28439, 28297, 28156, 28015, 27876, 27737, 27598, 27461,
  27324, 27187, 27052, 26917, 26783, 26649, 26516, 26384, 26252, 26121, 25991, 25861, 25733, 25604, 25476, 25349,
  25223, 25097, 24972, 24847, 24724, 24600, 24478, 24355, 24234, 24113, 23993, 23873, 23754, 23636, 23518, 23400,
  23284, 23168, 23052, 22937, 22823, 22709, 22596, 22483, 22371, 22259, 22148, 22038, 21928, 21818, 21710, 21601,
  21494, 21386, 21280, 21174, 21068, 20963, 20858, 20754, 20651, 20548, 20445, 20343, 20242, 20141, 20041, 19941,
  19841, 19742, 19644, 19546, 19448, 19351, 19255, 19159, 19063, 18968, 18873, 18779, 18686, 18592, 18500, 18407,
  18316, 18224, 18133, 18043, 17953, 17863, 17774, 17686, 17597, 17510, 17422, 17335, 17249, 17163, 17077, 16992,
  16907, 16823, 16739, 16656, 16573, 16490, 16408, 16326, 16245, 16163, 16083, 16003, 15923, 15843, 15764, 15686,
  15608, 15530, 15452, 15375, 15299, 15222, 15146, 15071, 14996, 14921, 14846, 14772, 14699, 14625, 14552, 14480,
  14408, 14336, 14264, 14193, 14122, 14052, 13982, 13912, 13843, 13774, 13705, 13637, 13569, 13501, 13434, 13367,
  13300, 13234, 13168, 13102, 13037, 12972, 12907, 12842, 12778, 12715, 12651, 12588, 12525, 12463, 12401, 12339,
  12277, 12216, 12155, 12095, 12034, 11974, 11914, 11855, 11796, 11737, 11679, 11620, 11562, 11505, 11447, 11390,
  11333, 11277, 11221, 11165, 11109, 11054, 10998, 10944, 10889, 10835, 10781, 10727, 10673, 10620, 10567, 10515,
  10462, 10410, 10358, 10306, 10255, 10204, 10153, 10102, 10052, 10002, 9952, 9902, 9853, 9804, 9755, 9706,
  9658, 9610, 9562, 9514, 9466, 9419, 9372, 9326, 9279, 9233, 9187, 9141, 9095, 9050, 9005, 8960,
  8915, 8871, 8826, 8782, 8739, 8695, 8652, 8609, 8566, 8523, 8480, 8438, 8396, 8354, 8312, 8271,
  8230, 8189, 8148, 8107, 8067, 8027, 7987, 7947, 7907, 7868, 7828, 7789, 7750, 7712, 7673, 7635,
  7597, 7559, 7521, 7484, 7447, 7409, 7372, 7336, 7299, 7263, 7227, 7190, 7155, 7119, 7083, 7048,
  7013, 6978, 6943, 6909, 6874, 6840, 6806, 6772, 6738, 6704, 6671, 6638, 6605, 6572, 6539, 6506,
  6474, 6441, 6409, 6377, 6346, 6314, 6282, 6251, 6220, 6189, 6158, 6127, 6097, 6066, 6036, 6006,
  5976, 5946, 5917, 5887, 5858, 5828, 5799, 5770, 5742, 5713, 5685, 5656, 5628, 5600, 5572, 5544,
  5517, 5489, 5462, 5434, 5407, 5380, 5354, 5327, 5300, 5274, 5248, 5221, 5195, 5169, 5144, 5118,
  5092, 5067, 5042, 5017, 4992, 4967, 4942, 4917, 4893, 4868, 4844, 4820, 4796, 4772, 4748, 4724,
  4701, 4677, 4654, 4631, 4608, 4585, 4562, 4539, 4517, 4494, 4472, 4449, 4427, 4405, 4383, 4361,
  4339, 4318, 4296, 4275, 4254, 4232, 4211, 4190, 4169, 4149, 4128, 4107, 4087, 4066, 4046, 4026,
  4006, 3986, 3966, 3946, 3927, 3907, 3887, 3868, 3849, 3830, 3810, 3791, 3773, 3754, 3735, 3716,
  3698, 3679, 3661, 3643, 3625, 3607, 3589, 3571, 3553, 3535, 3518, 3500, 3483, 3465, 3448, 3431,
  3414, 3397, 3380, 3363, 3346, 3329, 3313, 3296, 3280, 3263, 3247, 3231, 3215, 3199, 3183, 3167,
  3151, 3135, 3120, 3104, 3089, 3073, 3058, 3043, 3028, 3012, 2997, 2982, 2968, 2953, 2938, 2923,
  2909, 2894, 2880, 2866, 2851, 2837, 2823, 2809, 2795, 2781, 2767, 2753, 2739, 2726, 2712, 2699,
  2685, 2672, 2658, 2645, 2632, 2619, 2606, 2593, 2580, 2567, 2554, 2542, 2529, 2516, 2504, 2491,
  2479, 2466, 2454, 2442, 2430, 2418, 2405, 2393, 2382, 2370, 2358, 2346, 2334, 2323, 2311, 2300,
  2288, 2277, 2265, 2254, 2243, 2232, 2221, 2209, 2198, 2187, 2177, 2166, 2155, 2144, 2133, 2123,
  2112, 2102, 2091, 2081, 2070, 2060, 2050, 2040, 2029, 2019, 2009, 1999, 1989, 1979, 1969, 1960,
  1950, 1940, 1930, 1921, 1911, 1902, 1892, 1883, 1873, 1864, 1855, 1846, 1836, 1827, 1818, 1809,
  1800, 1791, 1782, 1773, 1764, 1756, 1747, 1738, 1729, 1721, 1712, 1704, 1695, 1687, 1678, 1670,
  1662, 1653, 1645, 1637, 1629, 1621, 1612, 1604, 1596, 1588, 1581, 1573, 1565, 1557, 1549, 1541,
  1534, 1526, 1519, 1511, 1503, 1496, 1488, 1481, 1474, 1466, 1459, 1452, 1444, 1437, 1430, 1423,
  1416, 1409, 1402, 1395, 1388, 1381, 1374, 1367, 1360, 1354, 1347, 1340, 1333, 1327, 1320, 1314,
  1307, 1301, 1294, 1288, 1281, 1275, 1268, 1262, 1256, 1250, 1243, 1237, 1231, 1225, 1219, 1213,
  1207, 1201, 1195, 1189, 1183, 1177, 1171, 1165, 1159, 1153, 1148, 1142, 1136, 1131, 1125, 1119,
  1114, 1108, 1103, 1097, 1092, 1086, 1081, 1075, 1070, 1065, 1059, 1054, 1049, 1044, 1038, 1033,
  1028, 1023, 1018, 1013, 1008, 1003, 998, 993, 988, 983, 978, 973, 968, 963, 959, 954,
  949, 944, 940, 935, 930, 926, 921, 916, 912, 907, 903, 898, 894, 889, 885, 881,
  876, 872, 867, 863, 859, 854, 850, 846, 842, 838, 833, 829, 825, 821, 817, 813,
  809, 805, 801, 797, 793, 789, 785, 781, 777, 773, 769, 765, 762, 758, 754, 750,
  747, 743, 739, 735, 732, 728, 725, 721, 717, 714, 710, 707, 703, 700, 696, 693,
  689, 686, 682, 679, 676, 672, 669, 665, 662, 659, 656, 652, 649, 646, 643, 639,
  636, 633, 630, 627, 624, 620, 617, 614, 611, 608, 605, 602, 599, 596, 593, 590,
  587, 584, 581, 579, 576, 573, 570, 567, 564, 561, 559, 556, 553, 550, 548, 545,
  542, 539, 537, 534, 531, 529, 526, 523, 521, 518, 516, 513, 511, 508, 505, 503,
  500, 498, 495, 493, 491, 488, 486, 483, 481, 478, 476, 474, 471, 469, 467, 464,
  462, 460, 457, 455, 453, 451, 448, 446, 444, 442, 439, 437, 435, 433, 431, 429,
  426, 424, 422, 420, 418, 416, 414, 412, 410, 408, 406, 404, 402, 400, 398, 396,
  394, 392, 390, 388, 386, 384, 382, 380, 378, 376, 374, 373, 371, 369, 367, 365,
  363, 362, 360, 358, 356, 354, 353, 351, 349, 347, 346, 344, 342, 341, 339, 337,
  335, 334, 332, 330, 329, 327, 326, 324, 322, 321, 319, 318, 316, 314, 313, 311,
  310, 308, 307, 305, 304, 302, 301, 299, 298, 296, 295, 293, 292, 290, 289, 287,
  286, 284, 283, 282, 280, 279, 277, 276, 275, 273, 272, 271, 269, 268, 267, 265,
  264, 263, 261, 260, 259, 257, 256, 255, 254, 252, 251, 250, 249, 247, 246, 245,
  244, 242, 241, 240, 239, 238, 236, 235, 234, 233, 232, 231, 229, 228, 227, 226,
  225, 224, 223, 222, 220, 219, 218, 217, 216, 215, 214, 213, 212, 211, 210, 209,
  208, 207, 206, 204, 203, 202, 201, 200, 199, 198, 197, 196, 195, 195, 194, 193,
  192, 191, 190, 189, 188, 187, 186, 185, 184, 183, 182, 181, 180, 180, 179, 178,
  177, 176, 175, 174, 173, 173, 172, 171, 170, 169, 168, 167, 167, 166, 165, 164,
  163, 162, 162, 161, 160, 159, 158, 158, 157, 156, 155, 155, 154, 153, 152, 151,
  151, 150, 149, 148, 148, 147, 146, 146, 145, 144, 143, 143, 142, 141, 141, 140,
  139, 138, 138, 137, 136, 136, 135, 134, 134, 133, 132, 132, 131, 130, 130, 129,
  128, 128, 127, 127, 126, 125, 125, 124, 123, 123, 122, 122, 121, 120, 120, 119,
  119, 118, 117, 117, 116, 116, 115, 114, 114, 113, 113, 112, 112, 111, 111, 110,
  109, 109, 108, 108, 107, 107, 106, 106, 105, 105, 104, 104, 103, 103, 102, 102,
  101, 101, 100, 100, 99, 99, 98, 98, 97, 97, 96, 96, 95, 95, 94, 94,
  93, 93, 92, 92, 91, 91, 91, 90, 90, 89, 89, 88, 88, 87, 87, 87,
  86, 86, 85, 85, 84, 84, 84, 83, 83, 82, 82, 81, 81, 81, 80, 80,
  79, 79, 79, 78, 78, 78, 77, 77, 76, 76, 76, 75, 75, 74, 74, 74,
  73, 73, 73, 72, 72, 72, 71, 71, 70, 70, 70, 69, 69, 69, 68, 68,
  68, 67, 67, 67, 66, 66, 66, 65, 65, 65, 64, 64, 64, 63, 63, 63,
  63, 62, 62, 62, 61, 61, 61, 60, 60, 60, 59, 59, 59, 59, 58, 58,
  58, 57, 57, 57, 57, 56, 56, 56, 55, 55, 55, 55, 54, 54, 54, 54,
  53, 53, 53, 52, 52, 52, 52, 51, 51, 51, 51, 50, 50, 50, 50, 49,
  49, 49, 49, 48, 48, 48, 48, 47, 47, 47, 47, 47, 46, 46, 46, 46,
  45, 45, 45, 45, 45, 44, 44, 44, 44, 43, 43, 43, 43, 43, 42, 42,
  42, 42, 41, 41, 41, 41, 41, 40, 40, 40, 40, 40, 39, 39, 39, 39,
  39, 38, 38, 38, 38, 38, 38, 37, 37, 37, 37, 37, 36, 36, 36, 36,
  36, 36, 35, 35, 35, 35, 35, 34, 34, 34, 34, 34, 34, 33, 33, 33,
  33, 33, 33, 32, 32, 32, 32, 32, 32, 32, 31, 31, 31, 31, 31, 31,
  30, 30, 30, 30, 30, 30, 30, 29, 29, 29, 29, 29, 29, 29, 28, 28,
  28, 28, 28, 28, 28, 27, 27, 27, 27, 27, 27, 27, 26, 26, 26, 26,
  26, 26, 26, 26, 25, 25, 25, 25, 25, 25, 25, 25, 24, 24, 24, 24,
  24, 24, 24, 24, 23, 23, 23, 23, 23, 23, 23, 23, 23, 22, 22, 22,
  22, 22, 22, 22, 22, 22, 21, 21, 21, 21, 21, 21, 21, 21, 21, 21,
  20, 20, 20, 20, 20, 20, 20, 20, 20, 20, 19, 19, 19, 19, 19, 19,
  19, 19, 19, 19, 18, 18, 18, 18, 18, 18, 18, 18, 18, 18, 18, 17,
  17, 17, 17, 17, 17, 17, 17, 17, 17, 17, 17, 16, 16, 16, 16, 16,
  16, 16, 16, 16, 16, 16, 16, 15, 15, 15, 15, 15, 15, 15, 15, 15,
  15, 15, 15, 15, 15, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14, 14,
  14, 14, 14, 13, 13, 13, 13, 13, 13, 13, 13, 13, 13, 13, 13, 13,
  13, 13, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12, 12,
  12, 12, 12, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11,
  11, 11, 11, 11, 11, 10, 10, 10, 10, 10, 10, 10, 10, 10, 10, 10,
  10, 10, 10, 10, 10, 10, 10, 10, 10, 9, 9, 9, 9, 9, 9, 9,
  9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9, 9,
  8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8,
  8, 8, 8, 8, 8, 8, 8, 8, 8, 7, 7, 7, 7, 7, 7, 7,
  7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7,
  7, 7, 7, 7, 7, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6,
  6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6, 6,
  6, 6, 6, 6, 6, 6, 6, 5, 5, 5, 5, 5, 5, 5, 5, 5,
  5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5,
  5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 4,
  4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4,
  4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4,
  4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4,
  4, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
  3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
  3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
  3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
  3, 3, 3, 3, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2,
  2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2,
  2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2,
  2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2,
  2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2,
  2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2,
  2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
  1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0
>>
PhiTab == <<
  500000, 503989, 507978, 511966, 515953, 519939, 523922, 527903, 531881, 535856, 539828, 543795, 547758, 551717, 555670, 559618,
  563559, 567495, 571424, 575345, 579260, 583166, 587064, 590954, 594835, 598706, 602568, 606420, 610261, 614092, 617911, 621720,
  625516, 629300, 633072, 636831, 640576, 644309, 648027, 651732, 655422, 659097, 662757, 666402, 670031, 673645, 677242, 680822,
  684386, 687933, 691462, 694974, 698468, 701944, 705401, 708840, 712260, 715661, 719043, 722405, 725747, 729069, 732371, 735653,
  738914, 742154, 745373, 748571, 751748, 754903, 758036, 761148, 764238, 767305, 770350, 773373, 776373, 779350, 782305, 785236,
  788145, 791030, 793892, 796731, 799546, 802337, 805105, 807850, 810570, 813267, 815940, 818589, 821214, 823814, 826391, 828944,
  831472, 833977, 836457, 838913, 841345, 843752, 846136, 848495, 850830, 853141, 855428, 857690, 859929, 862143, 864334, 866500,
  868643, 870762, 872857, 874928, 876976, 879000, 881000, 882977, 884930, 886861, 888768, 890651, 892512, 894350, 896165, 897958,
  899727, 901475, 903200, 904902, 906582, 908241, 909877, 911492, 913085, 914657, 916207, 917736, 919243, 920730, 922196, 923641,
  925066, 926471, 927855, 929219, 930563, 931888, 933193, 934478, 935745, 936992, 938220, 939429, 940620, 941792, 942947, 944083,
  945201, 946301, 947384, 948449, 949497, 950529, 951543, 952540, 953521, 954486, 955435, 956367, 957284, 958185, 959070, 959941,
  960796, 961636, 962462, 963273, 964070, 964852, 965620, 966375, 967116, 967843, 968557, 969258, 969946, 970621, 971283, 971933,
  972571, 973197, 973810, 974412, 975002, 975581, 976148, 976705, 977250, 977784, 978308, 978822, 979325, 979818, 980301, 980774,
  981237, 981691, 982136, 982571, 982997, 983414, 983823, 984222, 984614, 984997, 985371, 985738, 986097, 986447, 986791, 987126,
  987455, 987776, 988089, 988396, 988696, 988989, 989276, 989556, 989830, 990097, 990358, 990613, 990863, 991106, 991344, 991576,
  991802, 992024, 992240, 992451, 992656, 992857, 993053, 993244, 993431, 993613, 993790, 993963, 994132, 994297, 994457, 994614,
  994766, 994915, 995060, 995201, 995339, 995473, 995604, 995731, 995855, 995975, 996093, 996207, 996319, 996427, 996533, 996636,
  996736, 996833, 996928, 997020, 997110, 997197, 997282, 997365, 997445, 997523, 997599, 997673, 997744, 997814, 997882, 997948,
  998012, 998074, 998134, 998193, 998250, 998305, 998359, 998411, 998462, 998511, 998559, 998605, 998650, 998694, 998736, 998777,
  998817, 998856, 998893, 998930, 998965, 998999, 999032, 999065, 999096, 999126, 999155, 999184, 999211, 999238, 999264, 999289,
  999313, 999336, 999359, 999381, 999402, 999423, 999443, 999462, 999481, 999499, 999517, 999534, 999550, 999566, 999581, 999596,
  999610, 999624, 999638, 999651, 999663, 999675, 999687, 999698, 999709, 999720, 999730, 999740, 999749, 999758, 999767, 999776,
  999784, 999792, 999800, 999807, 999815, 999822, 999828, 999835, 999841, 999847, 999853, 999858, 999864, 999869, 999874, 999879,
  999883, 999888, 999892, 999896, 999900, 999904, 999908, 999912, 999915, 999918, 999922, 999925, 999928, 999931, 999933, 999936,
  999938, 999941, 999943, 999946, 999948, 999950, 999952, 999954, 999956, 999958, 999959, 999961, 999963, 999964, 999966, 999967,
  999968, 999970, 999971, 999972, 999973, 999974, 999975, 999976, 999977, 999978, 999979, 999980, 999981, 999982, 999983, 999983,
  999984, 999985, 999985, 999986, 999987, 999987, 999988, 999988, 999989, 999989, 999990, 999990, 999991, 999991, 999991, 999992,
  999992, 999993, 999993, 999993, 999993, 999994, 999994, 999994, 999995, 999995, 999995, 999995, 999996, 999996, 999996, 999996,
  999996, 999996, 999997, 999997, 999997, 999997, 999997, 999997, 999997, 999998, 999998, 999998, 999998, 999998, 999998, 999998,
  999998, 999998, 999998, 999998, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999,
  999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000,
  1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000,
  1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000,
  1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000,
  1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000,
  1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000,
  1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000,
  1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000
>>
===============================================================================
