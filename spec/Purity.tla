------------------------------- MODULE Purity -------------------------------
(* The library as a process with hidden state: what it keeps between calls    *)
(* (tables loaded, results remembered) must never show.                       *)
EXTENDS Api, Sequences, FiniteSets
\* a call in a history: the documented arguments, one of them changed, a failing call in between, or the caller's own use of a result
Moves == {"base", "vary", "other", "fail", "spoil"}
=============================================================================
