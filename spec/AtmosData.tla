---- MODULE AtmosData ----
\* Coefficients of the NRLMSISE-00 model (Picone, Hedin, Drob and Aikin, 2002)
Cpt ==
  <<"0.986573", "0.0162228", "0.015527", "-0.104323", "-0.00375801", "-0.00118538", "-0.124043", "0.0045682", "0.00876018", "-0.136235", "-0.0352427", 
  "0.00884181", "-0.00592127", "-8.6165", "0.0", "0.0128492", "0.0", "130.096", "0.0104567", "0.00165686", "-5.53887e-06", "0.0029781", "0.0", "0.00513122", 
  "0.0866784", "0.158727", "0.0", "0.0", "0.0", "-7.27026e-06", "0.0", "6.74494", "0.00493933", "0.00221656", "0.00250802", "0.0", "0.0", "-0.0208841", 
  "-1.79873", "0.00145103", "0.000281769", "-0.00144703", "-5.16394e-05", "0.0847001", "0.170147", "0.00572562", "5.07493e-05", "0.00436148", "0.000117863", 
  "0.00474364", "0.00661278", "4.34292e-05", "0.00144373", "2.4147e-05", "0.00284426", "0.00085656", "0.00204028", "0.0", "-3159.94", "-0.00246423", 
  "0.00113843", "0.000420512", "0.0", "-97.7214", "0.00677794", "0.00527499", "0.00114936", "0.0", "-0.00661311", "-0.0184255", "-0.0196259", "29861.8", "0.0", 
  "0.0", "0.0", "644.574", "0.000884668", "0.000505066", "0.0", "4028.81", "-0.00189503", "0.0", "0.0", "0.000821407", "0.0020678", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "-0.012041", "-0.00363963", "9.9207e-05", "-0.000115284", "-6.33059e-05", "-0.605545", "0.00834218", "-91.3036", "0.000371042", "0.0", "0.000419", 
  "0.00270928", "0.00331507", "-0.00444508", "-0.00496334", "-0.00160449", "0.00395119", "0.00248924", "0.000509815", "0.00405302", "0.00224076", "0.0", 
  "0.00684256", "0.000466354", "0.0", "-0.000368328", "0.0", "0.0", "-146.87", "0.0", "0.0", "0.00109501", "0.000465156", "0.000562583", "3.21596", 
  "0.000643168", "0.0031486", "0.00340738", "0.00178481", "0.000962532", "0.000558171", "3.43731", "-0.233195", "0.000510289", "0.0", "0.0", "-92534.7", "0.0", 
  "-0.00199639", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0">>
Cpd ==
  <<<<"1.09979", "-0.048806", "-0.197501", "-0.091028", "-0.00696558", "0.0242136", "0.391333", "-0.00720068", "-0.0322718", "1.41508", "0.168194", "0.0185282", 
  "0.109384", "-7.24282", "0.0", "0.296377", "-0.049721", "104.114", "-0.0861108", "-0.000729177", "1.48998e-06", "0.00108629", "0.0", "0.0", "0.083109", 
  "0.112818", "-0.0575005", "-0.0129919", "-0.0178849", "-2.86343e-06", "0.0", "-151.187", "-0.00665902", "0.0", "-0.00202069", "0.0", "0.0", "0.0432264", 
  "-28.0444", "-0.00326789", "0.00247461", "0.0", "0.0", "0.09821", "0.122714", "-0.039645", "0.0", "-0.00276489", "0.0", "0.00187723", "-0.00809813", 
  "4.34428e-05", "-0.00770932", "0.0", "-0.00228894", "-0.0056907", "-0.00522193", "0.00600692", "-7804.34", "-0.00348336", "-0.00638362", "-0.0018219", "0.0", 
  "-75.8976", "-0.0217875", "-0.0172524", "-0.00906287", "0.0", "0.0244725", "0.086604", "0.105712", "30254.3", "0.0", "0.0", "0.0", "-6013.64", "-0.00564668", 
  "-0.00254157", "0.0", "315.611", "-0.00569158", "0.0", "0.0", "-0.00447216", "-0.00449523", "0.00464428", "0.0", "0.0", "0.0", "0.0", "0.0451236", "0.024652", 
  "0.00617794", "0.0", "0.0", "-0.362944", "-0.0480022", "-75.723", "-0.00199656", "0.0", "-0.0051878", "-0.017399", "-0.00903485", "0.00748465", "0.0153267", 
  "0.0106296", "0.0118655", "0.00255569", "0.0016902", "0.0351936", "-0.0181242", "0.0", "-0.100529", "-0.00510574", "0.0", "0.00210228", "0.0", "0.0", 
  "-173.255", "0.507833", "-0.241408", "0.00875414", "0.00277527", "-8.90353e-05", "-5.25148", "-0.00583899", "-0.0209122", "-0.0096353", "0.00977164", 
  "0.00407051", "0.000253555", "-5.52875", "-0.355993", "-0.00249231", "0.0", "0.0", "28.6026", "0.0", "0.000342722", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0">>, <<"1.02315", "-0.15971", "-0.10663", "-0.0177074", "-0.00442726", "0.0344803", "0.0445613", "-0.0333751", "-0.0573598", 
  "0.35036", "0.0633053", "0.0216221", "0.0542577", "-5.74193", "0.0", "0.190891", "-0.0139194", "101.102", "0.0816363", "0.000133717", "6.54403e-06", 
  "0.00310295", "0.0", "0.0", "0.0538205", "0.12391", "-0.0139831", "0.0", "0.0", "-3.95915e-06", "0.0", "-0.714651", "-0.00501027", "0.0", "-0.00324756", "0.0", 
  "0.0", "0.0442173", "-13.1598", "-0.00315626", "0.00124574", "-0.00147626", "-0.00155461", "0.0640682", "0.134898", "-0.0242415", "0.0", "0.0", "0.0", 
  "0.000613666", "-0.00540373", "2.61635e-05", "-0.00333012", "0.0", "-0.00308101", "-0.00242679", "-0.00336086", "0.0", "-1189.79", "-0.0504738", "-0.00261547", 
  "-0.00103132", "0.000191583", "-83.8132", "-0.0140517", "-0.0114167", "-0.00408012", "0.000173522", "-0.0139644", "-0.0664128", "-0.0685152", "-13441.4", 
  "0.0", "0.0", "0.0", "607.916", "-0.0041222", "-0.00220996", "0.0", "1702.77", "-0.00463015", "0.0", "0.0", "-0.0022536", "-0.00296204", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0392786", "0.0131186", "-0.00178086", "0.0", "0.0", "-0.390083", "-0.0284741", "-77.84", "-0.00102601", "0.0", "-0.000726485", "-0.00542181", 
  "-0.00559305", "0.0122825", "0.0123868", "0.00668835", "-0.0103303", "-0.00951903", "0.000270021", "-0.0257084", "-0.013243", "0.0", "-0.0381", "-0.0031681", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.000905762", "-0.0021459", "-0.00117824", "3.66732", "-0.000379729", "-0.00613966", "-0.00509082", 
  "-0.00196332", "-0.0030828", "-0.000975222", "4.03315", "-0.25271", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0">>, <<"1.16112", "0.0", "0.0", "0.0333725", "0.0", "0.0348637", "-0.00544368", "0.0", "-0.067394", "0.174754", "0.0", "0.0", "0.0", 
  "174.712", "0.0", "0.126733", "0.0", "103.154", "0.0552075", "0.0", "0.0", "0.000813525", "0.0", "0.0", "0.0866784", "0.158727", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "-25.0482", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.00248894", "0.000616053", "-0.000579716", "0.00295482", "0.0847001", "0.170147", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "2.47425e-05", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0">>, <<"0.944846", "0.0", "0.0", 
  "-0.0308617", "0.0", "-0.0244019", "0.00648607", "0.0", "0.0308181", "0.0459392", "0.0", "0.0", "0.0", "174.712", "0.0", "0.021326", "0.0", "-356.958", "0.0", 
  "0.000182278", "0.0", "0.000307472", "0.0", "0.0", "0.0866784", "0.158727", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.00383054", "0.0", "0.0", 
  "-0.00193065", "-0.0014509", "0.0", "0.0", "0.0", "0.0", "-0.00123493", "0.00136736", "0.0847001", "0.170147", "0.00371469", "0.0", "0.0", "0.0", "0.0", 
  "0.0051025", "2.47425e-05", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.00368756", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0">>, <<"1.3558", "0.144816", "0.0", "0.0607767", "0.0", 
  "0.0294777", "0.07469", "0.0", "-0.0923822", "0.0857342", "0.0", "0.0", "0.0", "23.8636", "0.0", "0.0771653", "0.0", "81.8751", "0.0187736", "0.0", "0.0", 
  "0.0149667", "0.0", "0.0", "0.0866784", "0.158727", "0.0", "0.0", "0.0", "0.0", "0.0", "-367.874", "0.00548158", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0847001", "0.170147", "0.0122631", "0.0", "0.0", "0.0", "0.0", "0.00817187", "3.71617e-05", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.00210826", "-0.0031364", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.0735742", "-0.0500266", "0.0", "0.0", "0.0", "0.0", "0.0194965", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0">>, <<"1.04761", "0.200165", "0.237697", "0.0368552", "0.0", "0.0357202", "-0.214075", "0.0", 
  "-0.108018", "-0.373981", "0.0", "0.0310022", "-0.00116305", "-20.7596", "0.0", "0.0864502", "0.0", "97.4908", "0.0516707", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0866784", "0.158727", "0.0", "0.0", "0.0", "0.0", "0.0", "346.193", "0.0134297", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.00348509", "-0.000154689", 
  "0.0", "0.0", "0.0847001", "0.170147", "0.0147753", "0.0", "0.0", "0.0", "0.0", "0.018932", "3.68181e-05", "0.013257", "0.0", "0.0", "0.00359719", 
  "0.00744328", "-0.00100023", "-6505.28", "0.0", "0.0103485", "-0.00100983", "-0.00406916", "-66.0864", "-0.0171533", "0.0110605", "0.01203", "-0.00520034", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-2627.69", "0.00713755", "0.00417999", "0.0", "12591.0", "0.0", "0.0", "0.0", "-0.00223595", "0.00460217", 
  "0.00571794", "0.0", "0.0", "0.0", "0.0", "-0.0318353", "-0.0235526", "-0.0136189", "0.0", "0.0", "0.0", "0.0203522", "-66.7837", "-0.00109724", "0.0", 
  "-0.0138821", "0.0160468", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0151574", "-0.00054447", "0.0", "0.0728224", "0.0659413", "0.0", "-0.00515692", 
  "0.0", "0.0", "-3703.67", "0.0", "0.0", "0.0136131", "0.00538153", "0.0", "4.76285", "-0.0175677", "0.0226301", "0.0", "0.0176631", "0.00477162", "0.0", 
  "5.39354", "0.0", "-0.0075171", "0.0", "0.0", "-88.2736", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0">>, 
  <<"1.26376", "-0.214304", "-0.149984", "0.230404", "0.0298237", "0.0268673", "0.296228", "0.02219", "-0.0207655", "0.452506", "0.120105", "0.032442", 
  "0.0424816", "-9.14313", "0.0", "0.0247178", "-0.0288229", "81.2805", "0.051038", "-0.00580611", "2.51236e-05", "-0.0124083", "0.0", "0.0", "0.0866784", 
  "0.158727", "-0.034819", "0.0", "0.0", "2.89885e-05", "0.0", "153.595", "-0.0168604", "0.0", "0.0101015", "0.0", "0.0", "0.0", "0.0", "0.000284552", 
  "-0.00122181", "0.0", "0.0", "0.0847001", "0.170147", "-0.0104927", "0.0", "0.0", "0.0", "-0.00591313", "-0.0230501", "3.14758e-05", "0.0", "0.0", "0.0126956", 
  "0.00835489", "0.000310513", "0.0", "3421.19", "-0.00245017", "-0.000427154", "0.000545152", "0.00189896", "28.9121", "-0.00649973", "-0.0193855", 
  "-0.0148492", "0.0", "-0.0510576", "0.0787306", "0.0951981", "-14942.2", "0.0", "0.0", "0.0", "265.503", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0063711", "0.000324789", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0614274", "0.0100376", "-0.000841083", "0.0", "0.0", "0.0", "-0.0127099", "0.0", "0.0", 
  "0.0", "-0.00394077", "-0.0128601", "-0.00797616", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "-0.00671465", "-0.00169799", "0.00193772", "3.8114", "-0.0077929", "-0.0182589", "-0.012586", "-0.0104311", "-0.00302465", "0.00243063", 
  "3.63237", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0">>, <<"70.9557", 
  "-0.32674", "0.0", "-0.516829", "-0.00171664", "0.090931", "-0.6715", "-0.147771", "-0.0927471", "-0.230862", "-0.15641", "0.0134455", "-0.119717", "2.52151", 
  "0.0", "-0.241582", "0.0592939", "4.39756", "0.091528", "0.00441292", "0.0", "0.00866807", "0.0", "0.0", "0.0866784", "0.158727", "0.0974701", "0.0", "0.0", 
  "0.0", "0.0", "67.0217", "-0.0013166", "0.0", "-0.0165317", "0.0", "0.0", "0.0850247", "27.7428", "0.00498658", "0.00615115", "0.00950156", "-0.0212723", 
  "0.0847001", "0.170147", "-0.0238645", "0.0", "0.0", "0.0", "0.0013738", "-0.00841918", "2.80145e-05", "0.00712383", "0.0", "-0.0166209", "0.000103533", 
  "-0.0168898", "0.0", "3645.26", "0.0", "0.00654077", "0.00036913", "0.000994419", "84.2803", "-0.0116124", "-0.00774414", "-0.00168844", "0.00142809", 
  "-0.00192955", "0.117225", "-0.0241512", "15052.1", "0.0", "0.0", "0.0", "1602.61", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.000354403", 
  "-0.018727", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0276439", "0.00643207", "-0.03543", "0.0", "0.0", "0.0", "-0.0280221", "81.1228", "-0.000675255", "0.0", 
  "-0.0105162", "-0.00348292", "-0.00697321", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "-0.00145546", "-0.013197", "-0.00357751", "-1.09021", "-0.0150181", "-0.00712841", "-0.0066459", "-0.0035261", "-0.0187773", "-0.00222432", 
  "-0.393895", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0">>, <<"0.060405", 
  "1.57034", "0.0299387", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-1.51018", "0.0", "0.0", "0.0", "-8.6165", "0.0126454", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.00550878", "0.0", "0.0", "0.0866784", "0.158727", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0623881", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0847001", "0.170147", "-0.0945934", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0">>>>
Cps ==
  <<"0.956827", "0.0620637", "0.0318433", "0.0", "0.0", "0.03949", "0.0", "0.0", "-0.00924882", "-0.00794023", "0.0", "0.0", "0.0", "174.712", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.00274677", "0.0", "0.0154951", "0.0866784", "0.158727", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.000699007", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0124362", "-0.00528756", "0.0847001", "0.170147", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "2.47425e-05", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0">>
Cpdl ==
  <<<<"1.0993", "3.90631", "3.07165", "0.986161", "16.3536", "4.6383", "1.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "1.2884", "0.0310302", "0.118339">>, <<"1.0", "0.7", "1.1502", "3.44689", "1.2884", "1.0", "1.08738", "1.22947", "1.10016", "0.734129", 
  "1.15241", "2.22784", "0.795046", "4.01612", "4.47749", "123.435", "-0.0760535", "1.68986e-06", "0.744294", "1.03604", "172.783", "1.1502", "3.44689", 
  "-0.74623", "0.949154">>>>
Cptl ==
  <<<<"1.00858", "0.0456011", "-0.0222972", "-0.0544388", "0.000523136", "-0.0188849", "0.0523707", "-0.00943646", "0.00631707", "-0.078046", "-0.048843", "0.0", 
  "0.0", "-7.6025", "0.0", "-0.0144635", "-0.0176843", "-121.517", "0.0285647", "0.0", "0.0", "0.000631792", "0.0", "0.00577197", "0.0866784", "0.158727", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "-8902.72", "0.00330611", "0.00302172", "0.0", "-0.00213673", "-0.00032091", "0.0", "0.0", "0.00276034", "0.00282487", 
  "-0.000297592", "-0.00421534", "0.0847001", "0.170147", "0.00896456", "0.0", "-0.0108596", "0.0", "0.0", "0.00557917", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.00965405", "0.0", "0.0", 
  "2.0">>, <<"0.939664", "0.0856514", "-0.00679989", "0.0265929", "-0.00474283", "0.0121855", "-0.0214905", "0.00649651", "-0.0205477", "-0.0424952", "0.0", 
  "0.0", "0.0", "11.9148", "0.0", "0.0118777", "-0.072823", "-81.5965", "0.0173887", "0.0", "0.0", "0.0", "-0.0144691", "0.000280259", "0.0866784", "0.158727", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "216.584", "0.00318713", "0.00737479", "0.0", "-0.00255018", "-0.00392806", "0.0", "0.0", "-0.00289757", "-0.00133549", 
  "0.00102661", "0.000353775", "0.0847001", "0.170147", "-0.00917497", "0.0", "0.0", "0.0", "0.0", "0.00356082", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.0100902", "0.0", "0.0", "2.0">>, 
  <<"0.985982", "-0.0455435", "0.0121106", "0.0204127", "-0.00240836", "0.0111383", "-0.0451926", "0.0135074", "-0.00654139", "0.115275", "0.128247", "0.0", 
  "0.0", "-5.30705", "0.0", "-0.0379332", "-0.0624741", "0.771062", "0.0296315", "0.0", "0.0", "0.0", "0.00681051", "-0.00434767", "0.0866784", "0.158727", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "10.7003", "-0.00276907", "0.000432474", "0.0", "0.00131497", "-0.000647517", "0.0", "-22.0621", "-0.00110804", 
  "-0.000809338", "0.000418184", "0.0042965", "0.0847001", "0.170147", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.00404337", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.00095255", "0.000856253", "0.000433114", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.00121223", "0.000238694", "0.000915245", "0.00128385", "0.000867668", "-5.61425e-06", "1.04445", "34.1112", "0.0", "-0.840704", "-239.639", "0.706668", 
  "-20.5873", "-0.363696", "23.9245", "0.0", "-0.00106657", "-0.000767292", "0.000154534", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "2.0">>, <<"1.0032", 
  "0.0383501", "-0.00238983", "0.0028395", "0.00420956", "0.000586619", "0.0219054", "-0.0100946", "-0.00350259", "0.0417392", "-0.00844404", "0.0", "0.0", 
  "4.96949", "0.0", "-0.00706478", "-0.0146494", "31.3258", "-0.00186493", "0.0", "-0.0167499", "0.0", "0.0", "0.000512686", "0.0866784", "0.158727", 
  "-0.00464167", "0.0", "0.0", "0.0", "0.00437353", "-199.069", "0.0", "-0.00534884", "0.0", "0.00162458", "0.00293016", "0.00267926", "590.449", "0.0", "0.0", 
  "-0.00117266", "-0.00035889", "0.0847001", "0.170147", "0.0", "0.0", "0.0138673", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.00160571", "0.000628078", "5.05469e-05", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.00157829", "-0.000400855", 
  "5.04077e-05", "-0.00139001", "-0.00233406", "-0.000481197", "1.46758", "6.20332", "0.0", "0.366476", "-61.976", "0.309198", "-19.8999", "0.0", "-329.933", 
  "0.0", "-0.0011008", "-9.3931e-05", "0.000139638", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "2.0">>>>
Cpma ==
  <<<<"0.981637", "-0.00141317", "0.0387323", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.0358707", "-0.00863658", "0.0", "0.0", "-2.02226", "0.0", 
  "-0.00869424", "-0.0191397", "87.6779", "0.00452188", "0.0", "0.022376", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.00707572", "0.0", "0.0", "0.0", "-0.0041121", 
  "35.006", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.00836657", "16.1347", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.014513", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.00124152", "0.000643365", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.00133255", "0.00242657", "0.00160666", "-0.00185728", "-0.00146874", "-4.79163e-06", "1.22464", "35.351", "0.0", "0.449223", 
  "-47.7466", "0.470681", "8.41861", "-0.288198", "167.854", "0.0", "0.000711493", "0.000605601", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "2.0">>, 
  <<"1.00422", "-0.00711212", "0.0052448", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.0528914", "-0.0241301", "0.0", "0.0", "-21.2219", "-0.010383", 
  "-0.00328077", "0.0165727", "1.68564", "-0.00668154", "0.0", "0.0145155", "0.0", "0.00842365", "0.0", "0.0", "0.0", "-0.00434645", "0.0", "0.0", "0.021678", 
  "0.0", "-138.459", "0.0", "0.0", "0.0", "0.0", "0.0", "0.00704573", "-47.3204", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0108767", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.00808279", "0.0", "0.0", "0.0", "0.0", "0.000521769", "-0.000227387", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.00326769", "0.00316901", "0.000460316", "-0.000101431", "0.00102131", "0.000996601", "1.25707", "25.0114", "0.0", 
  "0.424472", "-27.7655", "0.344625", "27.5412", "0.0", "794.251", "0.0", "0.00245835", "0.00138871", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "2.0">>, 
  <<"1.0189", "-0.0246603", "0.0100078", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.0670977", "-0.0402286", "0.0", "0.0", "-22.9466", "-0.00747019", 
  "0.0022658", "0.0263931", "37.2625", "-0.00639041", "0.0", "0.00958383", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.00185291", "0.0", "0.0", "0.0", "0.0", 
  "139.717", "0.0", "0.0", "0.0", "0.0", "0.0", "0.00919771", "-369.121", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.0157067", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.00707265", "0.0", "0.0", "0.0", "0.0", "-0.00292953", "-0.00277739", "-0.000440092", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0024728", "0.000295035", "-0.00181246", "0.00281945", "0.00427296", "0.000978863", "1.40545", "-6.19173", "0.0", 
  "0.0", "-79.3632", "0.444643", "-403.085", "0.0", "11.5603", "0.0", "0.00225068", "0.000848557", "-0.000298493", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "2.0">>, <<"0.975801", "0.038068", "-0.0305198", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0385575", "0.0504057", "0.0", "0.0", "-176.046", "0.0144594", 
  "-0.00148297", "-0.0036856", "30.2185", "-0.00323338", "0.0", "0.0153569", "0.0", "-0.0115558", "0.0", "0.0", "0.0", "0.0048962", "0.0", "0.0", "-0.0100616", 
  "-0.00821324", "-157.757", "0.0", "0.0", "0.0", "0.0", "0.0", "0.00663564", "45.841", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.025128", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.00991215", "0.0", "0.0", "0.0", "0.0", "-0.000873148", "-0.00129648", 
  "-7.32026e-05", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.0046811", "-0.00466003", "-0.00131567", "-0.00073939", "0.000632499", "-0.000465588", 
  "-1.29785", "-157.139", "0.0", "0.25835", "-36.9453", "0.410672", "9.78196", "-0.152064", "-3850.84", "0.0", "-0.000852706", "-0.00140945", "-0.000726786", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "2.0">>, <<"0.960722", "0.0703757", "-0.0300266", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0222671", "0.0410423", 
  "0.0", "0.0", "-163.07", "0.0106073", "0.000540747", "0.00779481", "144.908", "0.000151484", "0.0", "0.0197547", "0.0", "-0.0141844", "0.0", "0.0", "0.0", 
  "0.00577884", "0.0", "0.0", "0.00974319", "0.0", "-2880.15", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.00444902", "-29.276", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0234419", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.00536685", "0.0", "0.0", "0.0", "0.0", 
  "-0.000465325", "-0.000550628", "0.000331465", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.00206179", "-0.00308575", "-0.000793589", "-0.000108629", 
  "0.000595511", "-0.00090505", "1.18997", "41.5924", "0.0", "-0.472064", "-947.15", "0.398723", "19.8304", "0.0", "3732.19", "0.0", "-0.0015004", "-0.00114933", 
  "-0.000156769", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "2.0">>, <<"1.03123", "-0.0705124", "0.00871615", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "-0.0382621", "-0.00980975", "0.0", "0.0", "28.9286", "0.00957341", "0.0", "0.0", "86.6153", "0.000791938", "0.0", "0.0", "0.0", "0.00468917", "0.0", "0.0", 
  "0.0", "0.00786638", "0.0", "0.0", "0.00990827", "0.0", "65.5573", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-40.02", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.00707457", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.00572268", "0.0", "0.0", "0.0", "0.0", 
  "-0.00020497", "0.0012156", "-8.05579e-06", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.00249941", "-0.000457256", "-0.000159311", "0.000296481", 
  "-0.00177318", "-0.000637918", "1.02395", "12.8172", "0.0", "0.149903", "-26.3818", "0.0", "47.0628", "-0.222139", "0.0482292", "0.0", "-0.000867075", 
  "-0.000586479", "0.000532462", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "2.0">>, <<"1.00828", "-0.0910404", "-0.0226549", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "-0.023242", "-0.00908925", "0.0", "0.0", "33.6105", "0.0", "0.0", "0.0", "-12.4957", "-0.00587939", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "27.9765", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "2012.37", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "-0.0175553", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.00329699", "0.00126659", 
  "0.000268402", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.00117894", "0.00148746", "0.000106478", "0.000134743", "-0.00220939", "-0.000623523", 
  "0.636539", "11.3621", "0.0", "-0.393777", "2386.87", "0.0", "661.865", "-0.121434", "9.27608", "0.0", "0.000168478", "0.00124892", "0.00171345", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "2.0">>, <<"1.57293", "-0.6784", "0.6475", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.0762974", "-0.360423", "0.0", "0.0", 
  "128.358", "0.0", "0.0", "0.0", "46.8038", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.167898", "0.0", "0.0", "0.0", "0.0", "29099.4", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "31.5706", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "2.0">>, <<"0.860028", "0.377052", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-1.1757", "0.0", "0.0", "0.0", "0.00777757", "0.0", "0.0", "0.0", 
  "101.024", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "654.251", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.0156959", "0.0191001", "0.0315971", "0.0100982", 
  "-0.00671565", "0.00257693", "1.38692", "0.282132", "0.0", "0.0", "381.511", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "2.0">>, <<"1.06029", "-0.0525231", "0.373034", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0331072", "-0.388409", "0.0", "0.0", 
  "-165.295", "-0.213801", "-0.0438916", "-0.322716", "-88.2393", "0.118458", "0.0", "-0.435863", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.119782", "0.0", "0.0", 
  "0.0", "0.0", "26.2229", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-53.7443", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "-0.455788", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0384009", "0.0396733", "0.0", "0.0", "0.0", "0.0", 
  "0.0", "0.0", "0.0", "0.0", "0.0505494", "0.0739617", "0.01922", "-0.00846151", "-0.0134244", "0.0196338", "1.50421", "18.8368", "0.0", "0.0", "-51.3114", 
  "0.0", "0.0", "0.0", "0.0", "0.0", "0.0511923", "0.0361225", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "0.0", "2.0">>>>
Cpavgm ==
  <<"261.0", "264.0", "229.0", "217.0", "217.0", "223.0", "286.76", "-2.9394", "2.5", "0.0">>
Cptm ==
  <<"1041.3", "386.0", "195.0", "16.6728", "213.0", "120.0", "240.0", "187.0", "-2.0", "0.0">>
Cpdm ==
  <<<<"24560000.0", "6.71072e-06", "100.0", "0.0", "110.0", "10.0", "0.0", "0.0", "0.0", "0.0">>, <<"85940000000.0", "1.0", "105.0", "-8.0", "110.0", "10.0", 
  "90.0", "2.0", "0.0", "0.0">>, <<"281000000000.0", "0.0", "105.0", "28.0", "28.95", "0.0", "0.0", "0.0", "0.0", "0.0">>, <<"33000000000.0", "0.26827", "105.0", 
  "1.0", "110.0", "10.0", "110.0", "-10.0", "0.0", "0.0">>, <<"1330000000.0", "0.0119615", "105.0", "0.0", "110.0", "10.0", "0.0", "0.0", "0.0", "0.0">>, 
  <<"176100.0", "1.0", "95.0", "-8.0", "110.0", "10.0", "90.0", "2.0", "0.0", "0.0">>, <<"10000000.0", "1.0", "105.0", "-8.0", "110.0", "10.0", "90.0", "2.0", 
  "0.0", "0.0">>, <<"1000000.0", "1.0", "105.0", "-8.0", "550.0", "76.0", "90.0", "2.0", "0.0", "4000.0">>>>
====
