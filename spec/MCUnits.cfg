SPECIFICATION MSpec
CONSTANTS N = 3
 Lo = 2
 Hi = 3
 Shifts = {0, 1, 7, 30}
 Factors = {1, 2, 3, 8}
INVARIANTS Affine Inverse Constant SameNormal Equivariant
CHECK_DEADLOCK FALSE
