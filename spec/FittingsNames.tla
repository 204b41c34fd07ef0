---- MODULE FittingsNames ----
\* Two- and three-constant fittings: name, constants.
DarbyTable ==
  <<<<"Elbow, 90 deg, threaded, standard, (r/D = 1)", "800.0", "0.14", "4.0">>, <<"Elbow, 90 deg, threaded, long radius, (r/D = 1.5)", "800.0", "0.071", "4.2">>, 
  <<"Elbow, 90 deg, flanged, welded, bends, (r/D = 1)", "800.0", "0.091", "4.0">>, <<"Elbow, 90 deg, (r/D = 2)", "800.0", "0.056", "3.9">>, 
  <<"Elbow, 90 deg, (r/D = 4)", "800.0", "0.066", "3.9">>, <<"Elbow, 90 deg, (r/D = 6)", "800.0", "0.075", "4.2">>, <<"Elbow, 90 deg, mitered, 1 weld, (90 deg)", 
  "1000.0", "0.27", "4.0">>, <<"Elbow, 90 deg, 2 welds, (45 deg)", "800.0", "0.068", "4.1">>, <<"Elbow, 90 deg, 3 welds, (30 deg)", "800.0", "0.035", "4.2">>, 
  <<"Elbow, 45 deg, threaded standard, (r/D = 1)", "500.0", "0.071", "4.2">>, <<"Elbow, 45 deg, long radius, (r/D = 1.5)", "500.0", "0.052", "4.0">>, 
  <<"Elbow, 45 deg, mitered, 1 weld, (45 deg)", "500.0", "0.086", "4.0">>, <<"Elbow, 45 deg, mitered, 2 welds, (22.5 deg)", "500.0", "0.052", "4.0">>, 
  <<"Elbow, 180 deg, threaded, close-return bend, (r/D = 1)", "1000.0", "0.23", "4.0">>, <<"Elbow, 180 deg, flanged, (r/D = 1)", "1000.0", "0.12", "4.0">>, 
  <<"Elbow, 180 deg, all, (r/D = 1.5)", "1000.0", "0.1", "4.0">>, <<"Tee, Through-branch, (as elbow), threaded, (r/D = 1)", "500.0", "0.274", "4.0">>, 
  <<"Tee, Through-branch,(as elbow), (r/D = 1.5)", "800.0", "0.14", "4.0">>, <<"Tee, Through-branch, (as elbow), flanged, (r/D = 1)", "800.0", "0.28", "4.0">>, 
  <<"Tee, Through-branch, (as elbow), stub-in branch", "1000.0", "0.34", "4.0">>, <<"Tee, Run-through, threaded, (r/D = 1)", "200.0", "0.091", "4.0">>, 
  <<"Tee, Run-through, flanged, (r/D = 1)", "150.0", "0.05", "4.0">>, <<"Tee, Run-through, stub-in branch", "100.0", "0.0", "0.0">>, 
  <<"Valve, Angle valve, 45 deg, full line size, beta = 1", "950.0", "0.25", "4.0">>, <<"Valve, Angle valve, 90 deg, full line size, beta = 1", "1000.0", "0.69", 
  "4.0">>, <<"Valve, Globe valve, standard, beta = 1", "1500.0", "1.7", "3.6">>, <<"Valve, Plug valve, branch flow", "500.0", "0.41", "4.0">>, 
  <<"Valve, Plug valve, straight through", "300.0", "0.084", "3.9">>, <<"Valve, Plug valve, three-way (flow through)", "300.0", "0.14", "4.0">>, 
  <<"Valve, Gate valve, standard, beta = 1", "300.0", "0.037", "3.9">>, <<"Valve, Ball valve, standard, beta = 1", "300.0", "0.017", "3.5">>, 
  <<"Valve, Diaphragm, dam type", "1000.0", "0.69", "4.9">>, <<"Valve, Swing check", "1500.0", "0.46", "4.0">>, <<"Valve, Lift check", "2000.0", "2.85", 
  "3.8">>>>
HooperTable ==
  <<<<"Elbow, 90 deg, Standard (R/D = 1), Screwed", "800.0", "0.4">>, <<"Elbow, 90 deg, Standard (R/D = 1), Flanged/welded", "800.0", "0.25">>, 
  <<"Elbow, 90 deg, Long-radius (R/D = 1.5), All types", "800.0", "0.2">>, <<"Elbow, 90 deg, Mitered (R/D = 1.5), 1 weld (90 deg angle)", "1000.0", "1.15">>, 
  <<"Elbow, 90 deg, Mitered (R/D = 1.5), 2 weld (45 deg angle)", "800.0", "0.35">>, <<"Elbow, 90 deg, Mitered (R/D = 1.5), 3 weld (30 deg angle)", "800.0", 
  "0.3">>, <<"Elbow, 90 deg, Mitered (R/D = 1.5), 4 weld (22.5 deg angle)", "800.0", "0.27">>, <<"Elbow, 90 deg, Mitered (R/D = 1.5), 5 weld (18 deg angle)", 
  "800.0", "0.25">>, <<"Elbow, 45 deg, Standard (R/D = 1), All types", "500.0", "0.2">>, <<"Elbow, 45 deg, Long-radius (R/D 1.5), All types", "500.0", "0.15">>, 
  <<"Elbow, 45 deg, Mitered (R/D=1.5), 1 weld (45 deg angle)", "500.0", "0.25">>, <<"Elbow, 45 deg, Mitered (R/D=1.5), 2 weld (22.5 deg angle)", "500.0", 
  "0.15">>, <<"Elbow, 45 deg, Standard (R/D = 1), Screwed", "1000.0", "0.7">>, <<"Elbow, 180 deg, Standard (R/D = 1), Flanged/welded", "1000.0", "0.35">>, 
  <<"Elbow, 180 deg, Long-radius (R/D = 1.5), All types", "1000.0", "0.3">>, <<"Elbow, Used as, Standard, Screwed", "500.0", "0.7">>, 
  <<"Elbow, Elbow, Long-radius, Screwed", "800.0", "0.4">>, <<"Elbow, Elbow, Standard, Flanged/welded", "800.0", "0.8">>, <<"Elbow, Elbow, Stub-in type branch", 
  "1000.0", "1.0">>, <<"Tee, Run, Screwed", "200.0", "0.1">>, <<"Tee, Through, Flanged or welded", "150.0", "0.05">>, <<"Tee, Tee, Stub-in type branch", "100.0", 
  "0.0">>, <<"Valve, Gate, Full line size, Beta = 1", "300.0", "0.1">>, <<"Valve, Ball, Reduced trim, Beta = 0.9", "500.0", "0.15">>, 
  <<"Valve, Plug, Reduced trim, Beta = 0.8", "1000.0", "0.25">>, <<"Valve, Globe, Standard", "1500.0", "4.0">>, <<"Valve, Globe, Angle or Y-type", "1000.0", 
  "2.0">>, <<"Valve, Diaphragm, Dam type", "1000.0", "2.0">>, <<"Valve, Butterfly,", "800.0", "0.25">>, <<"Valve, Check, Lift", "2000.0", "10.0">>, 
  <<"Valve, Check, Swing", "1500.0", "1.5">>, <<"Valve, Check, Tilting-disc", "1000.0", "0.5">>>>
====
