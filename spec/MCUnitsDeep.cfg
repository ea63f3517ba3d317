SPECIFICATION MSpec
CONSTANTS N = 4
 Lo = 5
 Hi = 5
 Shifts = {0, 1, 7, 30}
 Factors = {1, 2, 3, 8}
INVARIANTS Affine Inverse Constant SameNormal Equivariant
CHECK_DEADLOCK FALSE
