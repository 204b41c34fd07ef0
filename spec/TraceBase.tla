------------------------------ MODULE TraceBase ------------------------------
(* Trace validation.  A recorded execution of the implementation is a         *)
(* sequence of events; the property module gives the abstract state before    *)
(* the first event, InitSt, and for each event the state after it and the set *)
(* of names of the clauses of the specification that the event breaks.        *)
(* The verdict is total: an execution is consumed to its end whatever it      *)
(* contains, each broken clause is reported with its position, and the run    *)
(* counts only if every event of every trace was consumed (TLC's number of    *)
(* distinct states equals the sum of the lengths plus the number of traces).  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64, TraceIO
CONSTANT InitSt(_), \* first event -> abstract state
         Step(_, _) \* abstract state, event -> [st |-> state, bad |-> {clause names}]
VARIABLES vt, vi, vst

Traces == LoadTraces("$TRACE")

\* A call that the driver repeated later in the same process, with the same
\* arguments, gives the same answer.
Again(e) == IF Has(e, "again") /\ ~Same(e.again, e.out) THEN {"Repeatable"} ELSE {}

TraceInit == /\ vt \in 1 .. Len(Traces)
             /\ vi = 0
             /\ vst = InitSt(Traces[vt][1])

TraceNext == /\ vi < Len(Traces[vt])
             /\ LET e == Traces[vt][vi + 1]
                    v == IF e.op = "__crash__" THEN [st |-> vst, bad |-> {"Completed"}] ELSE Step(vst, e)
                    b == v.bad \union Again(e)
                IN /\ IF b = {} THEN TRUE ELSE Report(vt, vi + 1, b)
                   /\ vst' = v.st
             /\ vi' = vi + 1
             /\ vt' = vt

TraceSpec == TraceInit /\ [][TraceNext]_<<vt, vi, vst>>

\* The failing clauses of a function from clause name to BOOLEAN.
Broken(cl) == {c \in DOMAIN cl : cl[c] # TRUE}
Stateless(cl) == [st |-> 0, bad |-> Broken(cl)]
=============================================================================
