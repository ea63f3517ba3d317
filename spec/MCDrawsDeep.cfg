SPECIFICATION MSpec
CONSTANTS MaxRows = 8
 Ys = {0, 1, 2, 3, 4, 6}
 Vs = {1, 2, 3, 5, 16, 20}
 Ms = {1, 2, 5, 7, 16}
INVARIANTS MeanAgrees VarAgrees ShapeAgrees Shrinks TailLaws FixAgrees
CHECK_DEADLOCK FALSE
