----------------------------- MODULE PurityTrace -----------------------------
EXTENDS TraceBase, Purity
\* the state keeps nothing: whatever came before, an answer is that of a fresh process
MyInit(e) == [calls |-> 0]
MyStep(s, e) ==
  CASE e.op = "call" -> [st |-> [calls |-> s.calls + 1], bad |-> Broken([AsIfFresh |-> Same(e.out, e.fresh), ArgumentsKept |-> Same(e.before, e.after), SurroundingsKept |-> Same(e.world0, e.world1)])]
    [] e.op = "fail" -> [st |-> [calls |-> s.calls + 1], bad |-> Broken([SurroundingsKept |-> Same(e.world0, e.world1)])]
    [] e.op = "spoil" -> [st |-> s, bad |-> {}]
    [] OTHER -> [st |-> s, bad |-> {"UnknownEvent"}]
=============================================================================
