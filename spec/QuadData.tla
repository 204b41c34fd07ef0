------------------------------ MODULE QuadData ------------------------------
(* The 21-point Kronrod extension of the 10-point Gauss rule on [-1, 1];      *)
(* InterpolateModel decides that these are the rules of their degrees.        *)
GKP == <<"-0.9956571630258076", "-0.9739065285171714", "-0.9301574913557086", "-0.8650633666889832", "-0.7808177265864168", "-0.679409568299023", "-0.562757134668605", "-0.4333953941292482", "-0.29439286270146015", "-0.14887433898163127", "2.220446049250313e-16", "0.1488743389816316", "0.2943928627014607", "0.43339539412924755", "0.5627571346686051", "0.6794095682990244", "0.7808177265864169", "0.8650633666889844", "0.9301574913557082", "0.9739065285171717", "0.9956571630258081">>
GKW == <<"0.011694638867371172", "0.03255816230796458", "0.05475589657435185", "0.07503967481091954", "0.09312545458369915", "0.10938715880229993", "0.12349197626206619", "0.1347092173114735", "0.1427759385770589", "0.14773910490133732", "0.1494455540029151", "0.14773910490133846", "0.14277593857705978", "0.13470921731147467", "0.1234919762620664", "0.10938715880229763", "0.09312545458369788", "0.0750396748109198", "0.05475589657435227", "0.03255816230796462", "0.01169463886737192">>
GLW == <<"0.06667134430868807", "0.14945134915058036", "0.219086362515982", "0.2692667193099965", "0.295524224714753", "0.295524224714753", "0.2692667193099965", "0.219086362515982", "0.14945134915058036", "0.06667134430868807">>
=============================================================================
