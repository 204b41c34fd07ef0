------------------------------ MODULE JetPump ------------------------------
(* Liquid jet pump: energy of the two inlets, momentum in the mixing chamber,  *)
(* and the diffuser; leakage of air into vacuum vessels.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64
Vars == {"d_nozzle", "d_mixing", "Qp", "Qs", "P1", "P2", "P5"}
Inlet == Vars \ {"P5"}
Given(a, k) == IF Has(a, k) THEN ~Same(Get(a, k), "None") ELSE FALSE
Def(a, k, d) == IF Has(a, k) THEN IF Same(Get(a, k), "None") THEN R(d) ELSE Get(a, k) ELSE R(d)
\* s: all of d_nozzle d_mixing Qp Qs P1 P2; p: fluids and losses
Ratio(s) == ((s.d_nozzle ^^ "2") // (s.d_mixing ^^ "2"))
Zp(s, p) == LET A == (("3.141592653589793" // "4") ** (s.d_nozzle ^^ "2")) IN ((p.rhop // "2") ** ((s.Qp // A) ^^ "2"))
Prim(s, p) == (Zp(s, p) ** ("1" ++ p.Kp))
Sec(s, p) == LET r == Ratio(s) IN ((((Zp(s, p) ** p.rhos) // p.rhop) ** ("1" ++ p.Ks)) ** ((((s.Qs // s.Qp) ** r) // ("1" -- r)) ^^ "2"))
\* error of the inlet balance P1 - P2 = primary - secondary, relative to its terms
InletErr(s, p) == LET a == Prim(s, p)  b == Sec(s, p) IN ((((s.P1 -- s.P2) -- a) ++ b) // (((Abs(s.P1) ++ Abs(s.P2)) ++ a) ++ b))
\* pressure ratio (P5 - P2)/(P1 - P5) from the momentum balance
NRatio(s, p) ==
  LET r == Ratio(s)  C == p.rhos // p.rhop  M == s.Qs // s.Qp  al == ((s.d_mixing // p.d_diffuser) ^^ "2")
      mix == ((((r ** r) ** ("1" ++ (C ** M))) ** ("1" ++ M)) ** ((("1" ++ p.Km) ++ p.Kd) ++ (al ** al)))
      jets == (("2" ** r) ++ (((((("2" ** C) ** M) ** M) ** r) ** r) // ("1" -- r)))
      suck == ((((((C ** M) ** M) ** r) ** r) // (("1" -- r) ^^ "2")) ** ("1" ++ p.Ks))
      num == ((jets -- mix) -- suck)
      den == ((("1" ++ p.Kp) -- jets) ++ mix)
  IN IF p.retracted THEN (num // (den ++ suck)) ELSE (num // den)
P5Of(s, p) == LET N == NRatio(s, p) IN (((s.P1 ** N) ++ s.P2) // (N ++ "1"))
Pars(a) == [rhop |-> a.rhop, rhos |-> a.rhos, Kp |-> Def(a, "Kp", "0"), Ks |-> Def(a, "Ks", "0.1"), Km |-> Def(a, "Km", "0.15"), Kd |-> Def(a, "Kd", "0.1"),
            d_diffuser |-> IF Given(a, "d_diffuser") THEN a.d_diffuser
                           ELSE IF Given(a, "d_mixing") THEN (a.d_mixing ** "1000") ELSE IF Given(a, "d_nozzle") THEN (a.d_nozzle ** "1000") ELSE R("1000"),
            retracted |-> IF Has(a, "nozzle_retracted") THEN IsTrue(a.nozzle_retracted) ELSE TRUE]
\* ---- leakage
Lbh == R("0.45359237" // "3600")
Cuft(V) == (V // ("0.3048" ^^ "3"))
Torr(a) == (((Def(a, "P_atm", "101325") -- a.P) ** "760") // "101325")
MmHg(a) == ((Def(a, "P_atm", "101325") -- a.P) // "133.322387415")
InHg(a) == ((Def(a, "P_atm", "101325") -- a.P) // "3386.388640341")
RyansW(t, V) == IF t \prec "10" THEN (("0.026" ** (t ^^ "0.34")) ** (V ^^ "0.6")) ELSE IF t \prec "100" THEN (("0.032" ** (t ^^ "0.26")) ** (V ^^ "0.6")) ELSE R("0.106" ** (V ^^ "0.6"))
SeiderW(t, V) == LET l == Ln(t) IN R("5" ++ ((("0.0298" ++ ("0.03088" ** l)) -- (("0.0005733" ** l) ** l)) ** (V ^^ "0.66")))
HEI(t) == IF t \preceq "1" THEN <<"0.6667235169997174", "-3.71246576520232">> ELSE IF t \preceq "3" THEN <<"0.664489357445796", "-3.0147277548691274">>
          ELSE IF t \preceq "20" THEN <<"0.6656780453394583", "-2.34007321331419">> ELSE IF t \preceq "90" THEN <<"0.663080000739313", "-1.9278288516732665">> ELSE <<"0.6658471905826482", "-1.6641585778506027">>
HeiW(t, V) == LET c == HEI(t)  v == IF V \prec "10" THEN R("10") ELSE V  c0 == c[1]  c1 == c[2] IN (Exp(c1) ** (v ^^ c0))
CokerW(t, cons) == IF t \succ "8" THEN IF cons THEN R("40") ELSE R("30") ELSE IF t \succ "5" THEN IF cons THEN R("30") ELSE R("25")
                   ELSE IF t \succ "3" THEN IF cons THEN R("25") ELSE R("20") ELSE IF cons THEN R("20") ELSE R("10")
=============================================================================
