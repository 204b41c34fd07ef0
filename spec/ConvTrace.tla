------------------------------ MODULE ConvTrace ------------------------------
(* Judges recorded conversions.  Abstract state: the quantity's canonical    *)
(* value, fixed by the first value of the trace.                             *)
EXTENDS TraceBase, Conv

\* Which conversion an event claims: from, to, in the event's own record.
MyInit(e) == [canon |-> e.canon0, ctx |-> e.c]

\* Tolerances: a few rounding errors of the value or of the offsets added to it.
Tol(x, y, fam) == IF fam = "temp" THEN CloseA(x, y, "1e-12", "2e-11") ELSE Close(x, y, "1e-12")

MyStep(s, e) ==
  IF e.op = "start" THEN [st |-> s, bad |-> {}]
  ELSE IF e.op = "nu_mu_error" THEN [st |-> s, bad |-> Broken([BothOrNeitherViscosityIsAnError |-> ErrIs(e.out, "ValueError")])]
  ELSE
  LET c == s.ctx
      ref == FromCanon(e.to, ToCanon(e.from, e.x, c), c)
      cl == [ EdgeIsKnown |-> <<c.fam, e.from, e.to, e.op>> \in Edges,
              ConvertsOneStep |-> Tol(e.out, ref, c.fam),
              PathIndependent |-> Tol(e.out, FromCanon(e.to, s.canon, c), c.fam) ]
  IN [st |-> s, bad |-> Broken(cl)]
=============================================================================
