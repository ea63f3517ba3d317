SPECIFICATION MSpec
CONSTANTS MaxRows = 4
 Ys = {0, 1, 2, 3, 4, 6}
 Vs = {1, 2, 3, 16}
 Ms = {1, 2, 5}
INVARIANTS MeanAgrees VarAgrees ShapeAgrees Shrinks TailLaws FixAgrees
CHECK_DEADLOCK FALSE
