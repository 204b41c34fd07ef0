---------------------------- MODULE LinalgTrace ----------------------------
EXTENDS TraceBase, Linalg
MyInit(e) == [z |-> <<>>]
Each(o, n, P(_)) == IsSeq(o) /\ Len(o) = n /\ \A i \in 1 .. n : P(i)
Grid(o, n, m, P(_, _)) == IsSeq(o) /\ Len(o) = n /\ \A i \in 1 .. n : IsSeq(o[i]) /\ Len(o[i]) = m /\ \A j \in 1 .. m : P(i, j)
Kept(e) == IF Has(e, "kept") THEN IsTrue(e.kept) ELSE TRUE
CloseSum(o, terms) == CloseA(o, ToR(QSum([k \in 1 .. Len(terms) |-> Q(terms[k])])), "0", R("4e-15") ** RowSum(terms))
DotOk(o, a, b) == CloseA(o, ToR(QDot(a, b)), "0", R("4e-15") ** RSum([k \in 1 .. Len(a) |-> Abs((a[k]) ** (b[k]))]))
Singular(A) == Z0(DetX(A))
Lu(A, o) ==
  LET n == Rows(A)  P == o[1]  L == o[2]  U == o[3] IN
  [ Permutation |-> Grid(P, n, n, LAMBDA i, j : REq(P[i][j], "0") \/ REq(P[i][j], "1")) /\ (\A i \in 1 .. n : Cardinality({j \in 1 .. n : REq(P[i][j], "1")}) = 1) /\ (\A j \in 1 .. n : Cardinality({i \in 1 .. n : REq(P[i][j], "1")}) = 1),
    UnitLower |-> Grid(L, n, n, LAMBDA i, j : IF i = j THEN REq(L[i][j], "1") ELSE IF j > i THEN REq(L[i][j], "0") ELSE Abs(L[i][j]) \preceq "1.0000000000001"),
    Upper |-> Grid(U, n, n, LAMBDA i, j : IF j < i THEN REq(U[i][j], "0") ELSE IsNum(U[i][j])),
    Factors |-> LET PA == MM(P, A)  LU == MM(L, U) IN \A i, j \in 1 .. n : CloseA(ToR(LU[i][j]), ToR(PA[i][j]), "0", R("1e-14") ** RSum([k \in 1 .. n |-> (Abs(L[i][k])) ** (Abs(U[k][j]))])) ]
MyStep(s, e) ==
  LET a == e.a  o == e.out IN
  IF ~Kept(e) THEN [st |-> s, bad |-> {"ArgumentsKept"}]
  ELSE
  CASE e.op = "det" -> Stateless([Determinant |-> CloseA(o, ToR(DetX(a.matrix)), "0", R("2e-15" ** Had(a.matrix)))])
    [] e.op = "inv" -> IF Singular(a.matrix) THEN Stateless([NoInverse |-> e.zeroline => (ErrIs(o, "ValueError") \/ (Rows(a.matrix) = 1 /\ ErrIs(o, "ZeroDivisionError")))])
                       ELSE Stateless([Inverse |-> IsInv(a.matrix, o)])
    [] e.op = "solve" -> IF Singular(a.matrix) THEN Stateless([NoSolution |-> e.zeroline => ErrIs(o, "ValueError")])
                       ELSE Stateless([Solution |-> Solves(a.matrix, a.b, o)])
    [] e.op = "direct" -> IF Singular(a.mat) THEN Stateless([NotDecided |-> TRUE]) ELSE Stateless([Solution |-> LET X == SolveX(a.mat, a.vec) IN CloseVec(o, X, (("1e-13" ** e.amp) ** ("1e-290" ++ MaxAbs(X))))])
    [] e.op = "lu" -> IF Singular(a.A) THEN Stateless([NoFactors |-> e.zeroline => ErrIs(o, "ValueError")])
                      ELSE IF ~(IsSeq(o) /\ Len(o) = 3) THEN Stateless([ThreeFactors |-> FALSE]) ELSE Stateless(Lu(a.A, o))
    [] e.op = "transpose" -> Stateless([Transpose |-> IF ~Rect(a.matrix) THEN IsSeq(o) /\ o = <<>> ELSE Same(o, T(a.matrix))])
    [] e.op = "shape" -> Stateless([Shape |-> o = e.dims])
    [] e.op = "eye" -> LET z == IF e.kind = "int" THEN 0 ELSE R("0") IN Stateless([Identity |-> Grid(o, a.N, a.N, LAMBDA i, j : IF e.kind = "int" THEN Same(o[i][j], IF i = j THEN 1 ELSE 0) ELSE ~IsInt(o[i][j]) /\ REq(o[i][j], IF i = j THEN "1" ELSE "0"))])
    [] e.op = "dot" -> Stateless([Sum |-> DotOk(o, a.a, a.b)])
    [] e.op = "matvec" -> Stateless([Sums |-> Each(o, Rows(a.matrix), LAMBDA i : DotOk(o[i], a.matrix[i], a.vector))])
    [] e.op = "matmul" -> LET B == T(a.B) IN Stateless([Sums |-> Grid(o, Rows(a.A), Cols(a.B), LAMBDA i, j : DotOk(o[i][j], a.A[i], B[j]))])
    [] e.op = "sumrows" -> Stateless([Sums |-> Each(o, Rows(a.matrix), LAMBDA i : CloseSum(o[i], a.matrix[i]))])
    [] e.op = "sumcols" -> Stateless([Sums |-> Each(o, Cols(a.matrix), LAMBDA i : CloseSum(o[i], T(a.matrix)[i]))])
    [] e.op = "madd" -> Stateless([Elementwise |-> Grid(o, Rows(a.A), Cols(a.A), LAMBDA i, j : REq(o[i][j], (a.A[i][j]) ++ (a.B[i][j])))])
    [] e.op = "msub" -> Stateless([Elementwise |-> Grid(o, Rows(a.A), Cols(a.A), LAMBDA i, j : REq(o[i][j], (a.A[i][j]) -- (a.B[i][j])))])
    [] e.op = "smul" -> Stateless([Elementwise |-> Grid(o, Rows(a.matrix), Cols(a.matrix), LAMBDA i, j : REq(o[i][j], (a.scalar) ** (a.matrix[i][j])))])
    [] e.op = "sdiv" -> Stateless([Elementwise |-> Grid(o, Rows(a.matrix), Cols(a.matrix), LAMBDA i, j : REq(o[i][j], (a.matrix[i][j]) // (a.scalar)))])
    [] e.op = "stack" -> Stateless([Copies |-> Same(o, a.vectors) /\ IsTrue(e.fresh)])
    [] e.op = "norm2" -> Stateless([Norm |-> CloseA(o, Sqrt(ToR(QDot(a.arr, a.arr))), "1e-14", "0")])
    [] e.op = "totri" -> LET A == a.arr  n == Rows(A) IN Stateless([Bands |-> IsSeq(o) /\ Len(o) = 3 /\ Same(o[1], [i \in 1 .. n - 1 |-> A[i + 1][i]]) /\ Same(o[2], [i \in 1 .. n |-> A[i][i]]) /\ Same(o[3], [i \in 1 .. n - 1 |-> A[i][i + 1]])])
    [] e.op = "fromtri" -> Stateless([Bands |-> Grid(o, Len(a.b), Len(a.b), LAMBDA i, j : REq(o[i][j], Tri(a.a, a.b, a.c)[i][j]))])
    [] e.op = "solvetri" -> LET X == SolveX(Tri(a.a, a.b, a.c), a.d) IN Stateless([Solution |-> CloseVec(o, X, R("1e-12" ** MaxAbs(X)))])
    [] e.op = "subset" -> LET ix == e.index IN Stateless([Selected |-> Grid(o, Len(ix), Len(ix), LAMBDA i, j : REq(o[i][j], a.whole[ix[i] + 1][ix[j] + 1]))])
    [] e.op = "argsort" -> LET n == Len(a.arr) IN Stateless([StableOrder |-> IsSeq(o) /\ Len(o) = n /\ {o[i] : i \in 1 .. n} = 0 .. n - 1
                               /\ \A i \in 1 .. n - 1 : (a.arr[o[i] + 1] \prec a.arr[o[i + 1] + 1]) \/ (REq(a.arr[o[i] + 1], a.arr[o[i + 1] + 1]) /\ o[i] < o[i + 1])])
    [] e.op = "sortpair" -> LET n == Len(a.list1) IN Stateless([SortedPairs |-> IsSeq(o) /\ Len(o) = 2 /\ Len(o[1]) = n /\ Len(o[2]) = n /\ (\A i \in 1 .. n - 1 : o[1][i] \preceq o[1][i + 1])
                               /\ \A i \in 1 .. n : Cardinality({j \in 1 .. n : REq(o[1][j], a.list1[i]) /\ REq(o[2][j], a.list2[i])}) = Cardinality({j \in 1 .. n : REq(a.list1[j], a.list1[i]) /\ REq(a.list2[j], a.list2[i])})])
    [] e.op = "null" ->
         LET A == a.a  n == Cols(A)  r == RankX(A)  w == n - r IN
         IF ~(IsSeq(o) /\ Len(o) = n /\ \A i \in 1 .. n : IsSeq(o[i]) /\ Len(o[i]) = w) THEN [st |-> s, bad |-> {"NullDimension"}]
         ELSE [st |-> [z |-> IF w = 0 THEN <<>> ELSE T(o)], bad |-> IF w = 0 THEN {} ELSE
               Broken([Annihilated |-> LET C == MM(A, o) IN \A i \in 1 .. Rows(A), j \in 1 .. w : CloseA(ToR(C[i][j]), "0", "0", R("1e-12" ** ("1" ++ RowSum(A[i])))),
                       Orthonormal |-> LET C == MM(T(o), o) IN \A i, j \in 1 .. w : CloseA(ToR(C[i][j]), IF i = j THEN "1" ELSE "0", "0", "1e-12")])]
    [] e.op = "gelsd" ->
         IF ~(IsSeq(o) /\ Len(o) = 4) THEN Stateless([FourResults |-> FALSE]) ELSE
         LET A == a.a  m == Rows(A)  n == Cols(A)  r == RankX(A)  x == o[1]  sv == o[4]
             res == [i \in 1 .. m |-> QSub(Q(a.b[i]), MV(A, x)[i])]
             size == (R("1") ++ RSum([i \in 1 .. m |-> RowSum(A[i])])) ** (R("1") ++ MaxAbs(QVec(a.b)))
         IN IF ~(IsSeq(x) /\ Len(x) = n) THEN [st |-> s, bad |-> {"SolutionLength"}] ELSE
            [st |-> s, bad |-> Broken([ Rank |-> o[3] = r,
                      LeastSquares |-> \A j \in 1 .. n : CloseA(ToR(QDot(T(A)[j], res)), "0", "0", R("1e-9" ** size)),
                      LeastNorm |-> (s.z # <<>> => \A k \in 1 .. Len(s.z) : CloseA(ToR(QDot(s.z[k], x)), "0", "0", R("1e-10" ** ("1" ++ MaxAbs(QVec(x)))))),
                      Residual |-> IF (m > n /\ r = n) \/ r = 0 THEN CloseA(o[2], ToR(QDot(res, res)), "1e-9", R("1e-13" ** ("1" ++ (MaxAbs(QVec(a.b)) ^^ "2")))) ELSE REq(o[2], "0"),
                      SingularValues |-> Len(sv) = (IF m < n THEN m ELSE n) /\ (\A i \in 1 .. Len(sv) - 1 : sv[i] \succeq sv[i + 1]) /\ (\A i \in 1 .. Len(sv) : sv[i] \succeq "0")
                           /\ CloseA(RSum([i \in 1 .. Len(sv) |-> (sv[i]) ** (sv[i])]), ToR(QSum([i \in 1 .. m |-> QDot(A[i], A[i])])), "1e-12", "1e-300") ])]
    [] e.op = "gelsd0" -> Stateless([EmptySystem |-> IsSeq(o) /\ Len(o) = 4 /\ Len(o[1]) = e.n /\ (\A i \in 1 .. e.n : REq(o[1][i], "0")) /\ REq(o[2], "0") /\ o[3] = 0 /\ Same(o[4], <<>>)])
    [] e.op = "refused" -> Stateless([Refuses |-> ErrIs(o, e.want)])
    [] e.op = "empty" -> Stateless([EmptyResult |-> Same(o, e.want)])
    [] OTHER -> Stateless([UnknownEvent |-> FALSE])
=============================================================================
