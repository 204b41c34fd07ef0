-------------------------------- MODULE Conv --------------------------------
(* Conversions between representations of one quantity, as a groupoid: a     *)
(* client holds a quantity in one representation and converts it along any   *)
(* path of published conversions.  Families:                                 *)
(*   temp  absolute temperature on the Celsius, Kelvin, Fahrenheit and       *)
(*         Rankine scales (exact rationals)                                  *)
(*   loss  loss coefficient K, metric flow coefficient Kv, US flow           *)
(*         coefficient Cv of a fitting in a pipe of diameter D, and the      *)
(*         equivalent friction factor, L/D ratio and length                  *)
(*   head  pressure and head of a fluid column                               *)
(*   visc  dynamic and kinematic viscosity                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64, Q

\* Size of the Cv unit in Kv units: 1 US gal/min at 1 psi, against 1 m^3/h at 1 bar.
\* Kv/Cv = 0.2271247... = (3785.411784e-6*60) / sqrt(psi/bar); the code documents
\* its own rounded constant, which is what users get in both directions.
CvPerKv == "1.1560992283536566"

Family == {"temp", "loss", "head", "visc"}
Nodes(f) == CASE f = "temp" -> {"C", "K", "F", "R"}
              [] f = "loss" -> {"K", "Kv", "Cv", "f", "LD", "L"}
              [] f = "head" -> {"P", "head"}
              [] f = "visc" -> {"mu", "nu"}

\* The published conversions: <<family, from, to, function>>
Edges == { <<"temp", "C", "K", "C2K">>, <<"temp", "K", "C", "K2C">>, <<"temp", "F", "C", "F2C">>,
           <<"temp", "C", "F", "C2F">>, <<"temp", "F", "K", "F2K">>, <<"temp", "K", "F", "K2F">>,
           <<"temp", "C", "R", "C2R">>, <<"temp", "K", "R", "K2R">>, <<"temp", "F", "R", "F2R">>,
           <<"temp", "R", "C", "R2C">>, <<"temp", "R", "K", "R2K">>, <<"temp", "R", "F", "R2F">>,
           <<"loss", "K", "Kv", "K_to_Kv">>, <<"loss", "Kv", "K", "Kv_to_K">>, <<"loss", "K", "Cv", "K_to_Cv">>,
           <<"loss", "Cv", "K", "Cv_to_K">>, <<"loss", "Kv", "Cv", "Kv_to_Cv">>, <<"loss", "Cv", "Kv", "Cv_to_Kv">>,
           <<"loss", "f", "K", "K_from_f">>, <<"loss", "K", "f", "f_from_K">>,
           <<"loss", "LD", "K", "K_from_L_equiv">>, <<"loss", "K", "LD", "L_equiv_from_K">>,
           <<"loss", "K", "L", "L_from_K">>,
           <<"head", "P", "head", "head_from_P">>, <<"head", "head", "P", "P_from_head">>,
           <<"visc", "mu", "nu", "nu_mu_converter">>, <<"visc", "nu", "mu", "nu_mu_converter">> }

(* Reference: the value in each representation as a function of the canonical one *)
(* (Kelvin, K, P, mu); c carries the fixed context D, L, fd, rho, g.              *)
FromCanon(node, x, c) ==
    CASE node = "K" /\ c.fam = "temp" -> x
      [] node = "C" -> x -- "273.15"
      [] node = "R" -> x ** "1.8"
      [] node = "F" -> x ** "1.8" -- "459.67"
      [] node = "K" /\ c.fam = "loss" -> x
      [] node = "Kv" -> (c.D ** c.D) ** Sqrt("1.6e9" // x)
      [] node = "Cv" -> CvPerKv ** ((c.D ** c.D) ** Sqrt("1.6e9" // x))
      [] node = "f" -> (x ** c.D) // c.L
      [] node = "LD" -> x // c.fd
      [] node = "L" -> (x ** c.D) // c.fd
      [] node = "P" -> x
      [] node = "head" -> x // (c.rho ** c.g)
      [] node = "mu" -> x
      [] node = "nu" -> x // c.rho
      [] OTHER -> "!"
\* ... and the inverse.
ToCanon(node, y, c) ==
    CASE node = "K" /\ c.fam = "temp" -> y
      [] node = "C" -> y ++ "273.15"
      [] node = "R" -> y // "1.8"
      [] node = "F" -> (y ++ "459.67") // "1.8"
      [] node = "K" /\ c.fam = "loss" -> y
      [] node = "Kv" -> "1.6e9" ** ((c.D ^^ "4") // (y ** y))
      [] node = "Cv" -> "1.6e9" ** ((c.D ^^ "4") // ((y // CvPerKv) ** (y // CvPerKv)))
      [] node = "f" -> y ** (c.L // c.D)
      [] node = "LD" -> y ** c.fd
      [] node = "L" -> (y ** c.fd) // c.D
      [] node = "P" -> y
      [] node = "head" -> y ** (c.rho ** c.g)
      [] node = "mu" -> y
      [] node = "nu" -> y ** c.rho
      [] OTHER -> "!"
=============================================================================
