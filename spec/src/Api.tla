-------------------------------- MODULE Api --------------------------------
(* The call interface of the library and its three adapters: calls over      *)
(* arrays, calls with quantities that carry units, and compiled calls.       *)
EXTENDS Integers, Sequences, TLC, R64, ApiData
Calls == DOMAIN Api
-----------------------------------------------------------------------------
(* Arrays: a shape is a sequence of lengths, stored in row-major order.      *)
RECURSIVE Size(_)
Size(s) == IF s = <<>> THEN 1 ELSE Head(s)*Size(Tail(s))
Padded(s, n) == [i \in 1 .. n |-> IF i <= n - Len(s) THEN 1 ELSE s[i - (n - Len(s))]]
Rank(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)
Fits(a, b) == LET n == Rank(a, b) p == Padded(a, n) q == Padded(b, n) IN \A i \in 1 .. n : p[i] = q[i] \/ p[i] = 1 \/ q[i] = 1
Broadcast(a, b) == LET n == Rank(a, b) p == Padded(a, n) q == Padded(b, n) IN [i \in 1 .. n |-> IF p[i] = 1 THEN q[i] ELSE p[i]]
\* coordinates of the k-th element, and the place of an element
Stride(s, i) == Size(SubSeq(s, i + 1, Len(s)))
Coord(s, k) == [i \in 1 .. Len(s) |-> ((k - 1) \div Stride(s, i)) % s[i]]
RECURSIVE Offset(_, _, _)
Offset(s, c, i) == IF i > Len(s) THEN 1 ELSE (IF s[i] = 1 THEN 0 ELSE c[i]*Stride(s, i)) + Offset(s, c, i + 1)
\* the element of an array of shape a which meets the k-th element of the result of shape r
Meets(a, r, k) == LET p == Padded(a, Len(r)) IN Offset(p, Coord(r, k), 1)
Reads(a, r) == [k \in 1 .. Size(r) |-> Meets(a, r, k)]
=============================================================================
