------------------------------ MODULE Voidage ------------------------------
(* Void fraction of two-phase flow, mixture density and mixture viscosity.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, R64
G0 == R("9.80665")
Opt(a, k, d) == IF Has(a, k) THEN IF Same(Get(a, k), "None") THEN d ELSE Get(a, k) ELSE d
Gr(a) == Opt(a, "g", G0)
\* no-slip void fraction; single-phase flow at the ends
Hom(a) == IF REq(a.x, "1") THEN R("1") ELSE IF REq(a.x, "0") THEN R("0") ELSE $[ (a.x)/(a.rhog)/((a.x)/(a.rhog) + (1 - (a.x))/(a.rhol)) ]
\* slip-ratio laws: 1/(1 + A ((1-x)/x)^p (rhog/rhol)^q (mul/mug)^r)
Slip(a, p, q, r) == LET u == IF REq(r, "0") THEN R("1") ELSE $[ ((a.mul)/(a.mug))**r ] IN $[ 1/(1 + ((1 - (a.x))/(a.x))**p*((a.rhog)/(a.rhol))**q*u) ]
Xg(a, p, q, r) == $[ ((1 - (a.x))/(a.x))**p*((a.rhog)/(a.rhol))**q*((a.mul)/(a.mug))**r ]
Xtt(a) == Xg(a, "0.9", "0.5", "0.1")
\* drift flux: superficial gas velocity over C0 times total velocity plus drift velocity
Area(a) == $[ pi/4*(a.D)**2 ]
Flux(a) == a.m // Area(a)
Ug(a) == $[ (Flux(a))*(a.x)/(a.rhog) ]
Ul(a) == $[ (Flux(a))*(1 - (a.x))/(a.rhol) ]
Drift(a, C0, v) == $[ (Ug(a))/(C0*((Ug(a)) + (Ul(a))) + v) ]
Harm(a) == $[ ((Gr(a))*(a.sigma)*((a.rhol) - (a.rhog))/((a.rhol)*(a.rhol)))**0.25 ]
Rise(a) == $[ 1.18*(1 - (a.x))*(Harm(a)) ]
Ft(a) == $[ ((Flux(a))**2*(a.x)**3/((1 - (a.x))*(a.rhog)**2*(Gr(a))*(a.D)))**0.5 ]
Quick(D) == $[ 1/D ]
Dist(a) == LET s == $[ (Ul(a))/(Ug(a)) ]  n == $[ ((a.rhog)/(a.rhol))**0.1 ] IN $[ 1 + s**n ]
Tandon(a) == LET Re == $[ (Flux(a))*(a.D)/(a.mul) ]  X == Xtt(a)  F == $[ 0.15*(1/X + 2.85/X**0.476) ] IN
  IF Re \prec "1125" THEN $[ 1 - 1.928/(Re**0.315*F) + 0.9293/(Re**0.63*F*F) ] ELSE $[ 1 - 0.38/(Re**0.088*F) + 0.0361/(Re**0.176*F*F) ]
Harms(a) == LET Re == $[ (Flux(a))*(a.D)*(1 - (a.x))/(a.mul) ]  s == $[ 1 - 10.06*Re**(0 - 0.875)*(1.74 + 0.104*Re**0.5)**2*(1.376 + 7.242/(Xtt(a))**1.655)**(0 - 0.5) ] IN s ** s
Alpha(l, a) ==
  LET x == a.x  q == a.rhol // a.rhog  h == Hom(a) IN
  CASE l = "Thom" -> Slip(a, "1", "0.89", "0.18")
    [] l = "Zivi" -> Slip(a, "1", $[ 2/3 ], "0")
    [] l = "Fauske" -> Slip(a, "1", "0.5", "0")
    [] l = "Turner Wallis" -> Slip(a, "0.72", "0.4", "0.08")
    [] l = "Smith" -> LET r == $[ (1 - x)/x ] IN $[ 1/(1 + r/q*(0.4 + 0.6*sqrt((q + 0.4*r)/(1 + 0.4*r)))) ]
    [] l = "Chisholm_voidage" -> $[ 1/(1 + (1 - x)/x/q*sqrt(1 - x*(1 - q))) ]
    [] l = "homogeneous" -> h
    [] l = "Chisholm Armand" -> $[ h/(h + sqrt(1 - h)) ]
    [] l = "Armand" -> $[ 0.833*h ]
    [] l = "Nishino Yamazaki" -> $[ 1 - sqrt((1 - x)/(x*q)*h) ]
    [] l = "Guzhov" -> LET V == $[ (Ug(a)) + (Ul(a)) ]  Fr == $[ V*V/(G0*(a.D)) ] IN $[ 0.81*(1 - exp(0 - 2.2*sqrt(Fr)))*h ]
    [] l = "Kawahara" -> IF a.D \succ "250e-6" THEN $[ 0.833*h ] ELSE IF a.D \succ "75e-6" THEN $[ 0.03*sqrt(h)/(1 - 0.97*sqrt(h)) ] ELSE $[ 0.02*sqrt(h)/(1 - 0.98*sqrt(h)) ]
    [] l = "Baroczy" -> $[ 1/(1 + (Xg(a, "0.74", "0.65", "0.13"))) ]
    [] l = "Tandon Varma Gupta" -> Tandon(a)
    [] l = "Harms" -> Harms(a)
    [] l = "Domanski Didion" -> LET X == Xtt(a) IN IF X \prec "10" THEN $[ (1 + X**0.8)**(0 - 0.378) ] ELSE $[ 0.823 - 0.157*log(X) ]
    [] l = "Graham" -> LET F == Ft(a) IN IF F \prec "0.01032" THEN R("0") ELSE LET L == Ln(F) IN $[ 1 - exp(0 - 1 - 0.3*L - 0.0328*L*L) ]
    [] l = "Yashar" -> $[ (1 + 1/(Ft(a)) + (Xtt(a)))**(0 - 0.321) ]
    [] l = "Huq_Loth" -> LET y == $[ 1 - x ] IN $[ 1 - 2*y*y/(1 - 2*x + sqrt(1 + 4*x*y*(q - 1))) ]
    [] l = "Kopte_Newell_Chato" -> LET F == Ft(a) IN IF F \prec "0.044" THEN h ELSE LET L == Ln(F) IN $[ 1.045 - exp(0 - 1 - 0.342*L - 0.0268*L*L + 0.00597*L*L*L) ]
    [] l = "Steiner" -> Drift(a, $[ 1 + 0.12*(1 - x) ], Rise(a))
    [] l = "Rouhani 1" -> Drift(a, $[ 1 + 0.2*(1 - x) ], Rise(a))
    [] l = "Rouhani 2" -> Drift(a, $[ 1 + 0.2*(1 - x)*((Gr(a))*(a.D))**0.25*((a.rhol)/(Flux(a)))**0.5 ], Rise(a))
    [] l = "Nicklin Wilkes Davidson" -> Drift(a, R("1.2"), $[ 0.35*sqrt((Gr(a))*(a.D)) ])
    [] l = "Gregory_Scott" -> $[ x*q/(1.19*(x*q + 1 - x)) ]
    [] l = "Dix" -> Drift(a, $[ h*(Dist(a)) ], $[ 2.9*(Harm(a)) ])
    [] l = "Sun Duffey Peng" -> LET pr == IF Has(a, "Pc") THEN IF Same(a.Pc, "None") THEN R("0.5") ELSE a.P // a.Pc ELSE R("0.5") IN Drift(a, $[ 1/(0.82 + 0.18*pr) ], $[ 1.41*(Harm(a)) ])
    [] l = "Xu Fang voidage" -> LET Fr == $[ (Flux(a))**2/((Gr(a))*(a.D)*(a.rhol)**2) ] IN $[ 1/(1 + (1 + 2*Fr**(0 - 0.2)*h**3.5)*(1 - x)/x/q) ]
    [] l = "Woldesemayat Ghajar" -> LET an == $[ (Opt(a, "angle", R("0")))*pi/180 ]  P == Opt(a, "P", R("101325")) IN
         $[ (Ug(a))/((Ug(a))*(Dist(a)) + 2.9*((Gr(a))*(a.D)*(a.sigma)*(1 + cos(an))*((a.rhol) - (a.rhog))/((a.rhol)**2))**0.25*(1.22 + 1.22*sin(an))**(101325/P)) ]
Order == <<"Thom", "Zivi", "Smith", "Fauske", "Chisholm_voidage", "Turner Wallis", "homogeneous", "Chisholm Armand", "Armand", "Nishino Yamazaki", "Guzhov", "Kawahara", "Baroczy", "Tandon Varma Gupta", "Harms", "Domanski Didion", "Graham", "Yashar", "Huq_Loth", "Kopte_Newell_Chato", "Steiner", "Rouhani 1", "Rouhani 2", "Nicklin Wilkes Davidson", "Gregory_Scott", "Dix", "Sun Duffey Peng", "Xu Fang voidage", "Woldesemayat Ghajar">>
\* what each law needs beside the quality and the densities
Needs(l) ==
  CASE l \in {"Zivi", "Smith", "Fauske", "Chisholm_voidage", "homogeneous", "Chisholm Armand", "Armand", "Nishino Yamazaki", "Huq_Loth", "Gregory_Scott"} -> {}
    [] l \in {"Thom", "Turner Wallis", "Baroczy", "Domanski Didion"} -> {"mul", "mug"}
    [] l = "Kawahara" -> {"D"}
    [] l \in {"Tandon Varma Gupta", "Harms", "Graham", "Yashar"} -> {"mul", "mug", "m", "D"}
    [] l \in {"Guzhov", "Kopte_Newell_Chato", "Nicklin Wilkes Davidson", "Xu Fang voidage"} -> {"m", "D"}
    [] l \in {"Steiner", "Rouhani 1", "Rouhani 2", "Dix"} -> {"m", "D", "sigma"}
    [] l = "Sun Duffey Peng" -> {"m", "D", "sigma", "P", "Pc"}
    [] l = "Woldesemayat Ghajar" -> {"m", "D", "sigma", "P"}
Listed(given) == SelectSeq(Order, LAMBDA l : Needs(l) \subseteq given)
\* mixture viscosities
MuOrder == <<"Beattie Whalley", "Fourar Bories", "Duckler", "McAdams", "Cicchitti", "Lin Kwok">>
MuDense == {"Beattie Whalley", "Fourar Bories", "Duckler"}
Mu(l, a) ==
  LET x == a.x IN
  CASE l = "McAdams" -> $[ 1/(x/(a.mug) + (1 - x)/(a.mul)) ]
    [] l = "Cicchitti" -> $[ x*(a.mug) + (1 - x)*(a.mul) ]
    [] l = "Lin Kwok" -> $[ (a.mul)*(a.mug)/((a.mug) + x**1.4*((a.mul) - (a.mug))) ]
    [] l = "Beattie Whalley" -> LET h == Hom(a) IN $[ (a.mul)*(1 - h)*(1 + 2.5*h) + (a.mug)*h ]
    [] l = "Fourar Bories" -> LET r == $[ 1/(x/(a.rhog) + (1 - x)/(a.rhol)) ] IN $[ r*(sqrt(x*(a.mug)/(a.rhog)) + sqrt((1 - x)*(a.mul)/(a.rhol)))**2 ]
    [] l = "Duckler" -> LET h == Hom(a) IN $[ h*(a.mug) + (1 - h)*(a.mul) ]
MuListed(both) == IF both THEN MuOrder ELSE <<"McAdams", "Cicchitti", "Lin Kwok">>
=============================================================================
