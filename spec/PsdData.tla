------------------------------ MODULE PsdData ------------------------------
(* Sieve series: openings in mm, largest first. *)
U_ISO == <<"125", "112", "106", "100", "90", "80", "75", "71", "63", "56", "53", "50", "45", "40", "37.5", "35.5", "31.5", "28", "26.5", "25", "22.4", "20", "19", "18", "16", "14", "13.2", "12.5", "11.2", "10", "9.5", "9", "8", "7.1", "6.7", "6.3", "5.6", "5", "4.75", "4.5", "4", "3.55", "3.35", "3.15", "2.8", "2.5", "2.36", "2.24", "2", "1.8", "1.7", "1.6", "1.4", "1.25", "1.18", "1.12", "1", "0.9", "0.85", "0.8", "0.71", "0.63", "0.6", "0.56", "0.5", "0.45", "0.425", "0.4", "0.355", "0.315", "0.3", "0.28", "0.25", "0.224", "0.212", "0.2", "0.18", "0.16", "0.15", "0.14", "0.125", "0.112", "0.106", "0.1", "0.09", "0.08", "0.075", "0.071", "0.063", "0.056", "0.053", "0.05", "0.045", "0.04", "0.038", "0.036", "0.032", "0.025", "0.02">>
U_R20 == <<"125", "112", "100", "90", "80", "71", "63", "56", "50", "45", "40", "35.5", "31.5", "28", "25", "22.4", "20", "18", "16", "14", "12.5", "11.2", "10", "9", "8", "7.1", "6.3", "5.6", "5", "4.5", "4", "3.55", "3.15", "2.8", "2.5", "2.24", "2", "1.8", "1.6", "1.4", "1.25", "1.12", "1", "0.9", "0.8", "0.71", "0.63", "0.56", "0.5", "0.45", "0.4", "0.355", "0.315", "0.28", "0.25", "0.224", "0.2", "0.18", "0.16", "0.14", "0.125", "0.112", "0.1", "0.09", "0.08", "0.071", "0.063", "0.056", "0.05", "0.045", "0.04", "0.036">>
U_R20_3 == <<"125", "90", "63", "45", "31.5", "22.4", "16", "11.2", "8", "5.6", "4", "2.8", "2", "1.4", "1", "0.71", "0.5", "0.355", "0.25", "0.18", "0.125", "0.09", "0.063", "0.045">>
U_R40_3 == <<"125", "106", "90", "75", "63", "53", "45", "37.5", "31.5", "26.5", "22.4", "19", "16", "13.2", "11.2", "9.5", "8", "6.7", "5.6", "4.75", "4", "3.35", "2.8", "2.36", "2", "1.7", "1.4", "1.18", "1", "0.85", "0.71", "0.6", "0.5", "0.425", "0.355", "0.3", "0.25", "0.212", "0.18", "0.15", "0.125", "0.106", "0.09", "0.075", "0.063", "0.053", "0.045", "0.038">>
U_R10 == <<"0.036", "0.032", "0.025", "0.02">>
U_ASTM == <<"125", "106", "100", "90", "75", "63", "53", "50", "45", "37.5", "31.5", "26.5", "25", "22.4", "19", "16", "13.2", "12.5", "11.2", "9.5", "8", "6.7", "6.3", "5.6", "4.75", "4", "3.35", "2.8", "2.36", "2", "1.7", "1.4", "1.18", "1", "0.85", "0.71", "0.6", "0.5", "0.425", "0.355", "0.3", "0.25", "0.212", "0.18", "0.15", "0.125", "0.106", "0.09", "0.075", "0.063", "0.053", "0.045", "0.038", "0.032", "0.025", "0.02">>
=============================================================================
