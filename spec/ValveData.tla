---- MODULE ValveData ----
\* Inherent characteristics of control valves and the octave-band tables of IEC 60534-8.
V_opening_quick_tck ==
  <<<<"0.0", "0.0", "0.0", "0.0", "0.02184", "0.03256", "0.04575", "0.06221", "0.07459", "0.0878", "0.10757", "0.12654", "0.14301", "0.16032", "0.18009", 
  "0.18999", "0.20233", "0.23105", "0.25483", "0.28925", "0.32365", "0.36541", "0.42188", "0.46608", "0.53319", "0.61501", "0.7034", "0.78033", "0.84415", "1.0", 
  "1.0", "1.0", "1.0">>, <<"-3.2479258181113327e-19", "0.037650956835178835", "0.054616164261637117", "0.12657862552611354", "0.17115105822542115", 
  "0.2075233903194021", "0.27084055195333684", "0.34208963001568016", "0.38730839943796663", "0.4656002247400036", "0.5196995880922897", "0.5907033063634928", 
  "0.6304293931726886", "0.6953064258075168", "0.7382935002453699", "0.7631579537132379", "0.7997961180795559", "0.8262370617883222", "0.8471954722933543", 
  "0.873096858463145", "0.8776128736976467", "0.897647305294458", "0.9105672165523071", "0.9192771703370824", "0.9377349743236904", "0.9603716623033031", 
  "0.9688863605959851", "0.9980062718267431", "1.0", "0.0", "0.0", "0.0", "0.0">>, "3">>
V_opening_equal_tck ==
  <<<<"0.0", "0.0", "0.0", "0.0", "0.09287", "0.15341", "0.18942", "0.22379", "0.25816", "0.29582", "0.33348", "0.34985", "0.3826", "0.45794", "0.49235", 
  "0.51365", "0.54479", "0.57594", "0.60218", "0.62843", "0.77628", "0.796", "0.83298", "0.86995", "0.90936", "1.0", "1.0", "1.0", "1.0">>, 
  <<"1.3522591106779132e-19", "0.004087873896711868", "0.014374150571122216", "0.016455484312674015", "0.024946845435605228", "0.03592972456181881", 
  "0.040710119644626126", "0.054518468768197687", "0.06976905178508139", "0.07587146190282387", "0.0985485829020452", "0.1238160142641967", 
  "0.15558350087382017", "0.17487348629353283", "0.20157507610951217", "0.22995771158118564", "0.2683886931491415", "0.3574766835730407", "0.5027678906008036", 
  "0.659729970241158", "0.7233389559355903", "0.8155475382785987", "0.8983628328699896", "0.9871204658597236", "1.0", "0.0", "0.0", "0.0", "0.0">>, "3">>
V_opening_quick ==
  <<"0.0", "0.0136", "0.02184", "0.03256", "0.04575", "0.06221", "0.07459", "0.0878", "0.10757", "0.12654", "0.14301", "0.16032", "0.18009", "0.18999", "0.20233", 
  "0.23105", "0.25483", "0.28925", "0.32365", "0.36541", "0.42188", "0.46608", "0.53319", "0.61501", "0.7034", "0.78033", "0.84415", "0.91944", "1.0">>
V_frac_CV_quick ==
  <<"0.0", "0.04984", "0.07582", "0.12044", "0.16614", "0.21707", "0.26998", "0.32808", "0.39353", "0.46516", "0.52125", "0.58356", "0.64798", "0.68845", 
  "0.72277", "0.76565", "0.79399", "0.82459", "0.84589", "0.86732", "0.88078", "0.89399", "0.90867", "0.92053", "0.93973", "0.95872", "0.96817", "0.98611", 
  "1.0">>
V_opening_equal ==
  <<"0.0", "0.05523", "0.09287", "0.15341", "0.18942", "0.22379", "0.25816", "0.29582", "0.33348", "0.34985", "0.3826", "0.45794", "0.49235", "0.51365", "0.54479", 
  "0.57594", "0.60218", "0.62843", "0.77628", "0.796", "0.83298", "0.86995", "0.90936", "0.95368", "1.0">>
V_frac_CV_equal ==
  <<"0.0", "0.00845", "0.01339", "0.01877", "0.02579", "0.0349", "0.04189", "0.05528", "0.07079", "0.07533", "0.09074", "0.13444", "0.15833", "0.17353", "0.20159", 
  "0.23388", "0.26819", "0.30461", "0.60113", "0.64588", "0.72583", "0.80788", "0.87519", "0.94999", "1.0">>
V_fis_l_2015 ==
  <<"12.5", "16.0", "20.0", "25.0", "31.5", "40.0", "50.0", "63.0", "80.0", "100.0", "125.0", "160.0", "200.0", "250.0", "315.0", "400.0", "500.0", "630.0", 
  "800.0", "1000.0", "1250.0", "1600.0", "2000.0", "2500.0", "3150.0", "4000.0", "5000.0", "6300.0", "8000.0", "10000.0", "12500.0", "16000.0", "20000.0">>
V_A_weights_l_2015 ==
  <<"-63.4", "-56.7", "-50.5", "-44.7", "-39.4", "-34.6", "-30.2", "-26.2", "-22.5", "-19.1", "-16.1", "-13.4", "-10.9", "-8.6", "-6.6", "-4.8", "-3.2", "-1.9", 
  "-0.8", "0.0", "0.6", "1.0", "1.2", "1.3", "1.2", "1.0", "0.5", "-0.1", "-1.1", "-2.5", "-4.3", "-6.6", "-9.3">>
====
