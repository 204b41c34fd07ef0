---------------------------- MODULE LinalgModel ----------------------------
(* Elementary row operations turn the identity into other matrices, while the *)
(* determinant, rank and inverse are tracked by the rules of each operation.  *)
EXTENDS Linalg, TraceIO
CONSTANT Tier
VARIABLES A, d, inv, left
vars == <<A, d, inv, left>>
Depth(n) == LET k == CASE n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 3 [] OTHER -> 2 IN IF Tier = "thorough" /\ n < 5 THEN k + 1 ELSE k
\* the inverse over the rationals, as columns operations on the inverse
Init == \E n \in 1 .. 5 : A = QMat(Id(n)) /\ d = Q(1) /\ inv = QMat(Id(n)) /\ left = Depth(n)
N == Len(A)
Swap == \E i, j \in 1 .. N : i < j /\ A' = [A EXCEPT ![i] = A[j], ![j] = A[i]] /\ d' = QNeg(d)
          /\ inv' = IF Z0(d) THEN inv ELSE [r \in 1 .. N |-> [inv[r] EXCEPT ![i] = inv[r][j], ![j] = inv[r][i]]]
AddRow == \E i, j \in 1 .. N, f \in (IF N < 4 THEN {2, -1} ELSE {2}) : i # j /\ A' = [A EXCEPT ![i] = [c \in 1 .. N |-> QAdd(A[i][c], QMul(Q(f), A[j][c]))]] /\ d' = d
          /\ inv' = IF Z0(d) THEN inv ELSE [r \in 1 .. N |-> [inv[r] EXCEPT ![j] = QSub(inv[r][j], QMul(Q(f), inv[r][i]))]]
Scale == \E i \in 1 .. N, f \in {-3, 0} : A' = [A EXCEPT ![i] = [c \in 1 .. N |-> QMul(Q(f), A[i][c])]] /\ d' = QMul(Q(f), d)
          /\ inv' = IF f = 0 \/ Z0(d) THEN inv ELSE [r \in 1 .. N |-> [inv[r] EXCEPT ![i] = QDiv(inv[r][i], Q(f))]]
Next == left > 0 /\ left' = left - 1 /\ (Swap \/ AddRow \/ Scale)
Spec == Init /\ [][Next]_vars
DetRule == QEq(DetX(A), d)
RankRule == (RankX(A) = N) <=> ~Z0(d)
InverseRule == ~Z0(d) => \A i, j \in 1 .. N : QEq(MM(A, inv)[i][j], Q(Id(N)[i][j]))
SolveRule == ~Z0(d) => LET b == [i \in 1 .. N |-> i] X == SolveX(A, b) IN \A i \in 1 .. N : QEq(MV(A, X)[i], Q(b[i]))
TransposeRule == QEq(DetX(T(A)), d)
Emit == /\ EmitPlan([cell |-> <<"reached", [i \in 1 .. N |-> [j \in 1 .. N |-> ToR(A[i][j])]]>>, m |-> "reached", A |-> [i \in 1 .. N |-> [j \in 1 .. N |-> ToR(A[i][j])]], n |-> N])
        /\ (left = Depth(N) => \A c \in {"dense", "dominant", "permuted", "tiny", "huge", "mixed"} : EmitPlan([cell |-> <<"square", c, N>>, m |-> "square", c |-> c, n |-> N]))
        /\ (left = Depth(N) /\ N = 1) =>
             /\ \A n \in {6, 7} : \A c \in {"dense", "dominant", "permuted", "tiny"} : EmitPlan([cell |-> <<"square", c, n>>, m |-> "square", c |-> c, n |-> n])
             /\ \A i, j \in 1 .. 5 : \A r \in 0 .. 5 : r <= i /\ r <= j => EmitPlan([cell |-> <<"rect", i, j, r>>, m |-> "rect", i |-> i, j |-> j, r |-> r])
             /\ \A i, j, k \in 1 .. 4 : EmitPlan([cell |-> <<"mult", i, j, k>>, m |-> "mult", i |-> i, j |-> j, k |-> k])
             /\ \A n \in 1 .. 8 : EmitPlan([cell |-> <<"vec", n>>, m |-> "vec", n |-> n])
             /\ \A k \in {"ragged", "mismatch", "empty", "zero"} : EmitPlan([cell |-> <<"bad", k>>, m |-> "bad", k |-> k])
=============================================================================
