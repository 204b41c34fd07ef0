--------------------------------- MODULE Q ---------------------------------
(* Exact rational arithmetic for TLC (java/vf/QImpl.java).  A binary64       *)
(* operand stands for exactly the number it represents.                      *)
Q(x) == x
QIs(x) == FALSE
QAdd(x, y) == 0
QSub(x, y) == 0
QMul(x, y) == 0
QDiv(x, y) == 0
QNeg(x) == 0
QAbs(x) == 0
QLt(x, y) == FALSE
QLe(x, y) == FALSE
QEq(x, y) == FALSE
QPow(x, n) == 0
QSum(s) == 0
QHorner(s, x) == 0
ToR(x) == 0
QClose(x, y, rt, at) == FALSE
QSqrt(x) == 0     \* 80 digits, as are the following
QCbrt(x) == 0
QExp(x) == 0
QLn(x) == 0
=============================================================================
