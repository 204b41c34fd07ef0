------------------------------- MODULE Linalg -------------------------------
(* Matrices are sequences of rows.  Determinant, rank and solution are taken  *)
(* by exact rational elimination (module Q).                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64, Q
Rows(A) == Len(A)
Cols(A) == IF A = <<>> THEN 0 ELSE Len(A[1])
Rect(A) == A # <<>> /\ Len(A[1]) > 0 /\ \A i \in 1 .. Len(A) : Len(A[i]) = Len(A[1])
Id(n) == [i \in 1 .. n |-> [j \in 1 .. n |-> IF i = j THEN 1 ELSE 0]]
T(A) == [j \in 1 .. Cols(A) |-> [i \in 1 .. Rows(A) |-> A[i][j]]]
QDot(a, b) == QSum([k \in 1 .. Len(a) |-> QMul(Q(a[k]), Q(b[k]))])
MV(A, x) == [i \in 1 .. Rows(A) |-> QDot(A[i], x)]
MM(A, B) == LET C == T(B) IN [i \in 1 .. Rows(A) |-> [j \in 1 .. Cols(B) |-> QDot(A[i], C[j])]]
QMat(A) == [i \in 1 .. Rows(A) |-> [j \in 1 .. Cols(A) |-> Q(A[i][j])]]
QVec(b) == [i \in 1 .. Len(b) |-> Q(b[i])]
Z0(x) == QEq(x, Q(0))

\* Row echelon form; returns <<matrix, pivots' product with sign, rank>>
RECURSIVE Elim(_, _, _, _)
Elim(A, r, c, d) ==
  IF r > Rows(A) \/ c > Cols(A) THEN [m |-> A, d |-> (IF r > Rows(A) THEN d ELSE Q(0)), rank |-> r - 1]
  ELSE LET cand == {i \in r .. Rows(A) : ~Z0(A[i][c])} IN
       IF cand = {} THEN Elim(A, r, c + 1, Q(0))
       ELSE LET p == CHOOSE i \in cand : \A j \in cand : i <= j
                B == [A EXCEPT ![r] = A[p], ![p] = A[r]]
                piv == B[r][c]
                E == [i \in 1 .. Rows(A) |-> IF i <= r \/ Z0(B[i][c]) THEN B[i]
                        ELSE LET f == QDiv(B[i][c], piv) IN [j \in 1 .. Cols(A) |-> IF j < c THEN B[i][j] ELSE IF j = c THEN Q(0) ELSE QSub(B[i][j], QMul(f, B[r][j]))]]
            IN Elim(E, r + 1, c + 1, QMul(IF p = r THEN d ELSE QNeg(d), piv))
DetX(A) == IF Rows(A) = 1 THEN Q(A[1][1]) ELSE Elim(QMat(A), 1, 1, Q(1)).d
RankX(A) == Elim(QMat(A), 1, 1, Q(1)).rank
\* exact solution of A x = b for det # 0
RECURSIVE BackSub(_, _, _)
BackSub(M, i, x) ==
  IF i = 0 THEN x
  ELSE LET n == Rows(M)
           v == QDiv(QSub(M[i][n + 1], QSum([k \in 1 .. n - i |-> QMul(M[i][i + k], x[k])])), M[i][i])
       IN BackSub(M, i - 1, <<v>> \o x)
SolveX(A, b) == BackSub(Elim([i \in 1 .. Rows(A) |-> Append(QMat(A)[i], Q(b[i]))], 1, 1, Q(1)).m, Rows(A), <<>>)

\* sizes, for the rounding of the implementation
RowSum(a) == RSum([j \in 1 .. Len(a) |-> Abs(a[j])])
RECURSIVE ProdR(_)
ProdR(s) == IF s = <<>> THEN R("1") ELSE Head(s) ** ProdR(Tail(s))
Had(A) == ProdR([i \in 1 .. Rows(A) |-> RowSum(A[i])])
MaxAbs(x) == RMaxSeq([i \in 1 .. Len(x) |-> Abs(ToR(x[i]))])
Amp(A) == Had(A) // Abs(ToR(DetX(A)))
CloseVec(x, X, tol) == IsSeq(x) /\ Len(x) = Len(X) /\ \A i \in 1 .. Len(X) : CloseA(x[i], ToR(X[i]), "0", tol)
CloseMat(x, X, tol) == IsSeq(x) /\ Len(x) = Len(X) /\ \A i \in 1 .. Len(X) : CloseVec(x[i], X[i], tol)
Solves(A, b, x) == LET X == SolveX(A, b) IN CloseVec(x, X, (("1e-13" ** Amp(A)) ** ("1e-290" ++ MaxAbs(X))))
IsInv(A, X) == LET n == Rows(A)  t == Amp(A) IN IsSeq(X) /\ Len(X) = n /\ (\A i \in 1 .. n : IsSeq(X[i]) /\ Len(X[i]) = n)
                 /\ LET C == MM(A, X)  m == [j \in 1 .. n |-> MaxAbs([i \in 1 .. n |-> X[i][j]])]
                    IN \A i, j \in 1 .. n : CloseA(ToR(C[i][j]), IF i = j THEN "1" ELSE "0", "0", R("1e-13") ** (t ** (RowSum(A[i]) ** m[j])))
\* dominant by rows and columns: for elimination without pivoting
Tri(a, b, c) == LET n == Len(b) IN [i \in 1 .. n |-> [j \in 1 .. n |-> IF i = j THEN b[i] ELSE IF j = i + 1 THEN c[i] ELSE IF j = i - 1 THEN a[j] ELSE 0]]
=============================================================================
