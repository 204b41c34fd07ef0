---- MODULE FittingsData ----
\* Published tables and fits of fitting loss coefficients.
D_en_distance_Miller_coeffs ==
  <<"3.5979871366071166", "-2.735407311020481", "-14.08678246875138", "10.637236472292983", "21.99568490754116", "-16.38501138746954", "-17.62779826803278", 
  "12.945551397987447", "7.715463242992863", "-5.850893341031715", "-1.3809402870404826", "1.179637166644488", "0.08781141316107932", "-0.09751968111743672", 
  "0.00501792061942849", "0.0026378278251172615", "0.5309019247035696">>
D_en_distance_Idelchik_l_Di ==
  <<"0.0", "0.002", "0.005", "0.01", "0.02", "0.05", "0.1", "0.2", "0.3", "0.5", "10.0">>
D_en_distance_Idelchik_t_Di ==
  <<"0.0", "0.004", "0.008", "0.012", "0.016", "0.02", "0.024", "0.03", "0.04", "0.05", "1.0">>
D_en_distance_Idelchik_dat ==
  <<<<"0.5", "0.57", "0.63", "0.68", "0.73", "0.8", "0.86", "0.92", "0.97", "1", "1">>, <<"0.5", "0.54", "0.58", "0.63", "0.67", "0.74", "0.8", "0.86", "0.9", 
  "0.94", "0.94">>, <<"0.5", "0.53", "0.55", "0.58", "0.62", "0.68", "0.74", "0.81", "0.85", "0.88", "0.88">>, <<"0.5", "0.52", "0.53", "0.55", "0.58", "0.63", 
  "0.68", "0.75", "0.79", "0.83", "0.83">>, <<"0.5", "0.51", "0.51", "0.53", "0.55", "0.58", "0.64", "0.7", "0.74", "0.77", "0.77">>, <<"0.5", "0.51", "0.51", 
  "0.52", "0.53", "0.55", "0.6", "0.66", "0.69", "0.72", "0.72">>, <<"0.5", "0.5", "0.5", "0.51", "0.52", "0.53", "0.58", "0.62", "0.65", "0.68", "0.68">>, 
  <<"0.5", "0.5", "0.5", "0.51", "0.52", "0.52", "0.54", "0.57", "0.59", "0.61", "0.61">>, <<"0.5", "0.5", "0.5", "0.51", "0.51", "0.51", "0.51", "0.52", "0.52", 
  "0.54", "0.54">>, <<"0.5", "0.5", "0.5", "0.5", "0.5", "0.5", "0.5", "0.5", "0.5", "0.5", "0.5">>, <<"0.5", "0.5", "0.5", "0.5", "0.5", "0.5", "0.5", "0.5", 
  "0.5", "0.5", "0.5">>>>
D_en_distance_Harris_tck ==
  <<<<"0.00322", "0.00322", "0.00322", "0.00322", "0.01223", "0.018015", "0.021776", "0.029044", "0.039417", "0.049519", "0.058012", "0.066234", "0.076747", 
  "0.088337", "0.098714", "0.109497", "0.121762", "0.130655", "0.14036", "0.148986", "0.159902", "0.17149", "0.179578", "0.189416", "0.200602", "0.208148", 
  "0.217716", "0.228232", "0.239821", "0.250063", "0.260845", "0.270818", "0.289145", "0.289145", "0.289145", "0.289145">>, <<"0.894574", "0.8607821362959746", 
  "0.7418364422223542", "0.7071594764719331", "0.5230593641637336", "0.5053866365045014", "0.4869380604512194", "0.40993425463761973", "0.4588732899536263", 
  "0.45115886608796796", "0.4672085434114074", "0.45422360120010624", "0.45882234693051327", "0.4633823025024543", "0.4785594597978615", "0.45603301615693537", 
  "0.46825191653436804", "0.4759245648612374", "0.4816400424293727", "0.4467699156979281", "0.4713316096394432", "0.4667017151264001", "0.4686302748435692", 
  "0.4597796190662107", "0.445267522727416", "0.491034205369033", "0.4641178520412072", "0.46721810151497395", "0.46958841021674314", "0.4664976446563455", 
  "0.46420067427943945", "0.458894", "0.0", "0.0", "0.0", "0.0">>, "3">>
D_en_distance_45_Miller_coeffs ==
  <<"1.866792110435199", "-2.8873199398381075", "-4.814715029513536", "10.49562589373457", "1.40401776402922", "-14.035912282651882", "6.576826918678071", 
  "7.854645523152614", "-8.044860164646053", "-1.1515885154512326", "4.145420152553604", "-0.7994793202964967", "-1.1034822877774095", "0.32764916637953573", 
  "0.367065452438954", "-0.2614447909010587", "0.29084476697430256">>
D_en_rounded_Miller_coeffs ==
  <<"1.3127209945178038", "0.19963046592715727", "-6.49081916725612", "-0.10347409377743588", "12.68369791325003", "-0.9435681020599904", "-12.44320584089916", 
  "1.328251365167716", "6.668390027065714", "-0.4356382649470076", "-2.209229212394282", "-0.07222448354500295", "0.6786898049825905", "-0.18686362789567468", 
  "0.020064570486606065", "-0.013120241146656442", "0.061951596342059975">>
D_en_rounded_Idelchik_tck ==
  <<<<"0.0", "0.0", "0.0", "0.015", "0.025", "0.035", "0.045", "0.055", "0.07", "0.1", "0.14", "0.2", "0.2", "0.2">>, <<"0.5", "0.46003224474143023", 
  "0.3682580956033294", "0.30877401146621397", "0.2590978355993873", "0.2166389749374616", "0.19717564973543905", "0.1332971654240214", "0.08659056691519569", 
  "0.05396118560777325", "0.03", "0.0", "0.0", "0.0">>, "2">>
D_en_rounded_ratios_Crane ==
  <<"0.0", "0.02", "0.04", "0.06", "0.1", "0.15">>
D_en_rounded_Ks_Crane ==
  <<"0.5", "0.28", "0.24", "0.15", "0.09", "0.04">>
D_en_rounded_Harris_tck ==
  <<<<"0.0", "0.0", "0.0", "0.015", "0.025", "0.035", "0.045", "0.055", "0.07", "0.1", "0.16", "0.16", "0.16">>, <<"0.44", "0.36435669860605086", 
  "0.2790010365858813", "0.2187082142826953", "0.16874967771794716", "0.1287937194096216", "0.09091157742799895", "0.06354756460434334", "0.01885121769782832", 
  "0.0", "0.0", "0.0", "0.0">>, "2">>
D_en_beveled_Idelchik_l_Di ==
  <<"0.025", "0.05", "0.075", "0.1", "0.15", "0.6">>
D_en_beveled_Idelchik_angles ==
  <<"0.0", "10.0", "20.0", "30.0", "40.0", "60.0", "100.0", "140.0", "180.0">>
D_en_beveled_Idelchik_dat ==
  <<<<"0.5", "0.47", "0.45", "0.43", "0.41", "0.4", "0.42", "0.45", "0.5">>, <<"0.5", "0.45", "0.41", "0.36", "0.33", "0.3", "0.35", "0.42", "0.5">>, <<"0.5", 
  "0.42", "0.35", "0.3", "0.26", "0.23", "0.3", "0.4", "0.5">>, <<"0.5", "0.39", "0.32", "0.25", "0.22", "0.18", "0.27", "0.38", "0.5">>, <<"0.5", "0.37", 
  "0.27", "0.2", "0.16", "0.15", "0.25", "0.37", "0.5">>, <<"0.5", "0.27", "0.18", "0.13", "0.11", "0.12", "0.23", "0.36", "0.5">>>>
D_tck_br_Miller ==
  <<<<"0.500967", "0.500967", "0.500967", "0.500967", "0.5572659504420276", "0.6220535279438968", "0.6876695918008857", "0.8109956990835443", "0.8966138996017785", 
  "1.0418136796591293", "1.2129808986390955", "1.4328097893561944", "2.684491977649823", "3.496050493509287", "4.245254058334557", "10.0581", "10.0581", 
  "10.0581", "10.0581">>, <<"10.0022", "10.0022", "10.0022", "10.0022", "26.661576730080427", "35.71142422728946", "46.22896414495794", "54.476944091380965", 
  "67.28681897720492", "79.96560467244989", "88.89484575805731", "104.37345376723293", "113.75217318286595", "121.36638011164008", "139.53481668808192", 
  "180.502", "180.502", "180.502", "180.502">>, <<"0.02844925354339322", "0.032368056788003474", "0.06341726367587057", "0.18372991235687228", 
  "0.27828335685928296", "0.4184452895626468", "0.5844709012848479", "0.8517327028006999", "1.0883889837806633", "1.003595822015052", "1.2959349743905006", 
  "1.3631701864169843", "3.2579960738248563", "8.188259745620396", "6.370167194425542", "0.026614405579949103", "0.03578575879432178", "0.05399131725104529", 
  "0.17357295746658216", "0.2597698136964017", "0.384398460262134", "0.5537955210508835", "0.842964805734998", "1.1076060802420074", "1.0500502914944205", 
  "1.2160489773171173", "1.2940140217639442", "2.5150913200614293", "5.987790923112488", "4.791049223949247", "0.026866783841898684", "0.03061409809632371", 
  "0.054698306220358", "0.14037162784411245", "0.23981090432386729", "0.31617091309760137", "0.47435842573782666", "0.7484605121106159", "0.9223888516911868", 
  "1.0345139221619066", "1.0709769967277933", "1.1489283659291687", "1.4249255928619116", "2.6908421883082823", "2.3898833324508804", "0.019707980719056793", 
  "0.03350958504709355", "0.0457699204936841", "0.1180773988295937", "0.18163838540491214", "0.2955424583244998", "0.3178086095370295", "0.54907384767895", 
  "0.7497276995283433", "0.8353766950608585", "0.8907203653185313", "0.941376749552297", "0.8755423259796333", "0.8987849646797164", "0.9905785504810203", 
  "0.018632197087313764", "0.0275473376021632", "0.046686663726990756", "0.09334625398868963", "0.15009471210360348", "0.21438462374865175", "0.310541469358518", 
  "0.27652184608845864", "0.4703245212932829", "0.5612926929410017", "0.6344189573543495", "0.6897616299237337", "0.8553230255854581", "0.8050040042565408", 
  "0.7800498994134173", "0.017040716941189974", "0.027163747207842776", "0.04233976165781228", "0.08546809847236579", "0.11872359104267481", 
  "0.1748602349243538", "0.248787221592314", "0.3166892465009758", "0.2894990945943436", "0.35635089905047324", "0.3942719381041552", "0.4019846022857163", 
  "0.4910888827789205", "0.4424331343990761", "0.5367477778555589", "0.017232689797500957", "0.024595005629126976", "0.04235982677436609", "0.0748705682747817", 
  "0.11096283696103083", "0.13900984487771062", "0.18773056195495877", "0.2400721832034611", "0.28581377924973544", "0.282839816159864", "0.2907117502580411", 
  "0.3035848810896592", "0.31268019467513564", "0.3365050687225188", "0.2836774098946595", "0.017462451480157917", "0.02373981127475937", "0.04248526591300313", 
  "0.07305722078054935", "0.09424065630357203", "0.13682400355164548", "0.15020534827616405", "0.2100221959547714", "0.23136495625582817", "0.24417894312621574", 
  "0.2505645472554214", "0.24143469557592281", "0.24722191256497117", "0.2195110087547775", "0.29557609063213136", "0.017605444779345832", 
  "0.026265210174737128", "0.0445497171166642", "0.07254637551095446", "0.08779690828578819", "0.11992614224260065", "0.14501268843599757", 
  "0.17386066713179812", "0.21657094190224363", "0.21594544490951023", "0.22661999176624517", "0.23759356544596819", "0.23887614636323537", 
  "0.25802515101229484", "0.20566480389514516", "0.01928450591486404", "0.03264367752872495", "0.05391006363370407", "0.07430728218140033", 
  "0.08818045730326454", "0.09978389535000864", "0.12544634357734885", "0.13365159719049172", "0.15802979203343911", "0.17543365869590444", 
  "0.17531453508236272", "0.1706085325985479", "0.15983319357859727", "0.16872558079206196", "0.19799750352823683", "0.020835891827102552", 
  "0.047105767455498285", "0.05307639179638059", "0.07839236342751181", "0.09519829368423402", "0.10189528661430994", "0.12852821694010982", 
  "0.13195311029179943", "0.1594822363328695", "0.15660304273110143", "0.15934161651984413", "0.17702957118830723", "0.1892675345030034", "0.19710951153945122", 
  "0.1897835097361326", "0.031571285288316195", "0.04810266172763896", "0.05660304311192384", "0.09317293919692342", "0.08967028392412497", 
  "0.12028974875677166", "0.1182836264474129", "0.13845925262729528", "0.15739100571169004", "0.17649056196464383", "0.20171423738165223", "0.20947832805305883", 
  "0.22837004534830094", "0.23661874048689152", "0.24537433391842686", "0.042992073811512765", "0.045958026954244176", "0.08988351069774198", 
  "0.08320361205549355", "0.1253881915447805", "0.12765039447605908", "0.1632907944306065", "0.17922551055575348", "0.20436939408609628", "0.23133806857897737", 
  "0.22837190631962206", "0.2611718034649056", "0.30462224139228183", "0.3277471634644065", "0.3595577208662931", "0.042671097083349346", "0.06027193387363409", 
  "0.07182684474072856", "0.12072547771177115", "0.1331787059163636", "0.16137414417679433", "0.1780034002291815", "0.19820571860540606", "0.2294059556234193", 
  "0.23221403415772682", "0.2697708431035234", "0.2813760107306456", "0.28992333749905363", "0.3650401400682786", "0.8993207970132076", "0.045660964207664585", 
  "0.06299599466264151", "0.09193684371316964", "0.12747145786167088", "0.14606550538249963", "0.172664884028299", "0.19152378303841075", "0.2212007207927944", 
  "0.23752800077573005", "0.26289800433018995", "0.2772198641539113", "0.2995308585350757", "0.3549459028594012", "0.8032461437896778", "3.330618601208751">>, 
  "3", "3">>
D_tck_br_Miller_C_Re ==
  <<<<"4.0", "4.0", "4.0", "4.0", "8.0", "8.0", "8.0", "8.0">>, <<"1.0", "1.0", "1.0", "1.0", "2.0", "2.0", "2.0", "2.0">>, <<"2.177340320782947", 
  "2.185952396281732", "2.185952396281732", "2.1775876405173977", "0.6513348082098823", "0.7944713057222101", "0.7944713057222103", "1.0526247737400114", 
  "0.6030278030721317", "1.3741240162063968", "1.3741240162063992", "0.7693594604301893", "-2.1663631289607883", "-1.9474318981548622", "-1.9474318981548622", 
  "0.4196741237602154">>, "3", "3">>
D_br_Miller_C_Re_limit_1 ==
  <<"2428087.757821312", "-13637184.203693766", "28450331.830760233", "-25496945.91463643", "8471761.477755375">>
D_tck_br_Miller_C_os ==
  <<<<<<"9.975803953769495e-06", "9.975803953769495e-06", "9.975803953769495e-06", "9.975803953769495e-06", "0.5259485989276764", "1.3157845547408782", 
  "3.220104449183945", "6.133677908951886", "30.260656153593906", "30.260656153593906", "30.260656153593906", "30.260656153593906">>, <<"0.6179524338907976", 
  "0.6000479624108129", "0.49299050530751654", "0.4820011733402483", "0.5584830305084972", "0.7496716557444135", "0.8977538553873484", "0.9987218804089956", 
  "0.0", "0.0", "0.0", "0.0">>, "3">>, <<<<"0.0025931401409935687", "0.0025931401409935687", "0.0025931401409935687", "0.0025931401409935687", 
  "0.26429667728434275", "0.5188174292838083", "1.469212480387932", "4.269571348168375", "13.268280073552294", "26.28093462852014", "26.28093462852014", 
  "26.28093462852014", "26.28093462852014">>, <<"0.8691924906711972", "0.8355177386350426", "0.7617588987656675", "0.5853012015918869", "0.5978128647571033", 
  "0.7366100253604377", "0.8229203841913866", "0.9484887080989913", "1.0003643259424702", "0.0", "0.0", "0.0", "0.0">>, "3">>, <<<<"-0.001273275512351991", 
  "-0.001273275512351991", "-0.001273275512351991", "-0.001273275512351991", "0.36379835796750504", "0.7789151587713531", "1.7319487323386349", 
  "3.559883175039053", "22.10600230228466", "22.10600230228466", "22.10600230228466", "22.10600230228466">>, <<"1.2055892891232", "1.1810797953131011", 
  "0.8556056552110055", "0.6595884323229468", "0.6669634037761268", "0.8636791463334055", "0.8855712717206472", "0.9992625616471772", "0.0", "0.0", "0.0", 
  "0.0">>, "3">>, <<<<"0.0025931401409935687", "0.0025931401409935687", "0.0025931401409935687", "0.0025931401409935687", "0.2765978180291006", 
  "0.5010875816968301", "0.6395222359284018", "0.661563946104784", "0.6887462820881093", "0.7312909084975013", "0.7605490601821624", "0.8078652661481783", 
  "0.8553090397903271", "1.024376958429362", "1.4748577103270428", "2.052843716337269", "3.9670225184835175", "6.951737782758053", "16.770001745987884", 
  "16.770001745987884", "16.770001745987884", "16.770001745987884">>, <<"2.7181584441006414", "2.6722855229796196", "2.510271857479865", "2.162580617260359", 
  "1.8234805515473758", "1.5274137403431902", "1.3876379087140025", "1.2712745614209848", "1.1478416325256429", "1.015542018903243", "0.8445749706812837", 
  "0.7368799268423506", "0.7061205857035833", "0.7381928947255646", "0.7960778489514514", "0.878729192230999", "0.9281388590439098", "0.9825611959699471", "0.0", 
  "0.0", "0.0", "0.0">>, "3">>, <<<<"0.0025931401409935687", "0.0025931401409935687", "0.0025931401409935687", "0.0025931401409935687", "0.4940382602529053", 
  "0.7383107558560895", "0.8929948619544391", "0.9910262538499016", "1.1035407055233972", "1.2685727302009009", "2.190931635360523", "3.718073594472333", 
  "6.026458907878363", "13.268280073552294", "13.268280073552294", "13.268280073552294", "13.268280073552294">>, <<"2.713127433391318", "2.6799201583608965", 
  "2.4446034702691906", "2.0505313661892837", "1.7853408404592677", "1.5802763594858027", "1.395503315683405", "1.0504150726350026", "0.9294800209596744", 
  "0.8937523212160566", "0.9339124388590752", "0.9769117997985829", "0.9948478073955791", "0.0", "0.0", "0.0", "0.0">>, "3">>>>
D_br_Miller_C_o_limits ==
  <<"30.260656153593906", "26.28093462852014", "22.10600230228466", "16.770001745987884", "13.268280073552294">>
D_br_Miller_C_o_limit_0_01 ==
  <<"0.6169055099514943", "0.8663244713199465", "1.2029584898712695", "2.7143438886138744", "2.7115417734646114">>
D_br_Crane_coeffs ==
  <<"111.75011378177442", "-331.89911345404107", "-27.841951521656483", "1066.8916917931147", "-857.8702190626232", "-1151.4621655498092", "1775.2416673594603", 
  "216.37911821941805", "-1458.1661519377653", "447.169127650163", "515.361158769082", "-322.58377486107577", "-38.38349416327068", "71.12796602489138", 
  "-16.198233745350535", "19.377150177339015", "31.107110520349494">>
D_bend_miter_Miller_coeffs ==
  <<"-12.050299402650126", "-4.472433689233185", "50.51478860493546", "18.246302079077196", "-84.61426660754049", "-28.9340865412371", "71.07345367553872", 
  "21.354010992349565", "-30.239604839338", "-5.855129345095336", "5.465131779316523", "-1.0881363712712555", "-0.3635431075401224", "0.5120065303391261", 
  "0.46818214491579246", "0.9789177645343993", "0.5080285124448385">>
D_bend_miter_Crane_angles ==
  <<"0.0", "15.0", "30.0", "45.0", "60.0", "75.0", "90.0">>
D_bend_miter_Crane_fds ==
  <<"2.0", "4.0", "8.0", "15.0", "25.0", "40.0", "60.0">>
D_bend_miter_Blevins_angles ==
  <<"0.0", "10.0", "20.0", "30.0", "40.0", "50.0", "60.0", "70.0", "80.0", "90.0", "120.0">>
D_bend_miter_Blevins_Ks ==
  <<"0.0", "0.025", "0.055", "0.1", "0.2", "0.35", "0.5", "0.7", "0.9", "1.1", "1.5">>
D_tck_contraction_abrupt_Miller ==
  <<<<"0.0", "0.0", "0.0", "0.0", "0.5553844358576507", "0.7193937784550933", "0.8144518359319883", "1.0", "1.0", "1.0", "1.0">>, <<"0.0", "0.0", "0.0", "0.0", 
  "0.008318525134414716", "0.03421785904690331", "0.1", "0.1", "0.1", "0.1">>, <<"0.4994829280256306", "0.4879234090312588", "0.4255534701302917", 
  "0.13986792857000196", "0.18065199312360336", "0.08701863105570044", "0.440886271558411", "0.4243716649409474", "0.36030826702480984", "0.2117960027770777", 
  "0.11248601502220595", "0.08616608643911047", "0.4018850813314268", "0.3706136100344715", "0.26368725187530173", "0.15316562777200723", "0.09856904494833027", 
  "0.08399367477431015", "0.17005190739488515", "0.16023910724406945", "0.1242906181281536", "0.06137573180850665", "0.05726821990215439", "0.04684229988854647", 
  "0.03922553704852396", "0.036955938945600654", "0.029450340285188167", "0.028656302938315878", "0.019588760093397686", "0.01950497484044149", 
  "0.006447273360860872", "0.006569278508667471", "0.0053786079483153885", "-0.013158950566037957", "0.010870991979047888", "0.0015100946100218284", 
  "-0.0005221250682760256", "-0.0006447517875307877", "-0.0007846123907797336", "0.0024459067063225485", "-0.0019102888752274472", "-0.0001356300464508266">>, 
  "3", "3">>
D_contraction_round_Idelchik_ratios ==
  <<"0.0", "0.01", "0.02", "0.03", "0.04", "0.05", "0.06", "0.08", "0.12", "0.16", "0.2">>
D_contraction_round_Idelchik_factors ==
  <<"0.5", "0.43", "0.37", "0.31", "0.26", "0.22", "0.2", "0.15", "0.09", "0.06", "0.03">>
D_cc_angles_Idelchik ==
  <<"2", "3", "6", "8", "10", "12", "14", "16", "20">>
D_cc_A_ratios_Idelchik ==
  <<"0.05", "0.075", "0.1", "0.15", "0.2", "0.25", "0.3", "0.4", "0.5", "0.6">>
D_cc_friction_Idelchik ==
  <<<<"0.14", "0.1", "0.05", "0.04", "0.03", "0.03", "0.02", "0.02", "0.01">>, <<"0.14", "0.1", "0.05", "0.04", "0.03", "0.02", "0.02", "0.02", "0.01">>, <<"0.14", 
  "0.1", "0.05", "0.04", "0.03", "0.02", "0.02", "0.02", "0.01">>, <<"0.14", "0.1", "0.05", "0.04", "0.03", "0.02", "0.02", "0.02", "0.01">>, <<"0.14", "0.1", 
  "0.05", "0.03", "0.03", "0.02", "0.02", "0.02", "0.01">>, <<"0.14", "0.1", "0.05", "0.03", "0.03", "0.02", "0.02", "0.02", "0.01">>, <<"0.13", "0.09", "0.04", 
  "0.03", "0.03", "0.02", "0.02", "0.02", "0.01">>, <<"0.12", "0.08", "0.04", "0.03", "0.02", "0.02", "0.02", "0.02", "0.01">>, <<"0.11", "0.07", "0.04", "0.03", 
  "0.02", "0.02", "0.02", "0.02", "0.01">>, <<"0.09", "0.06", "0.03", "0.02", "0.02", "0.02", "0.02", "0.02", "0.01">>>>
D_cc_l_ratios_Blevins ==
  <<"0.0", "0.05", "0.1", "0.15", "0.6">>
D_cc_A_ratios_Blevins ==
  <<"1.2", "1.5", "2.0", "3.0", "5.0", "10.0">>
D_cc_Ks_Blevins ==
  <<<<"0.08", "0.06", "0.04", "0.03", "0.03">>, <<"0.17", "0.12", "0.09", "0.07", "0.06">>, <<"0.25", "0.23", "0.17", "0.14", "0.06">>, <<"0.33", "0.31", "0.27", 
  "0.23", "0.08">>, <<"0.4", "0.38", "0.35", "0.31", "0.18">>, <<"0.45", "0.45", "0.41", "0.39", "0.27">>>>
D_cc_Miller_tck ==
  <<<<"-2.2990613088204293", "-2.2990613088204293", "-2.2990613088204293", "-2.2990613088204293", "-1.9345621970869704", "-1.404550366067981", 
  "-1.1205580332553446", "-0.7202074014540876", "-0.18305354619604816", "0.5791478950190209", "1.2576636025381396", "2.2907351590368092", "2.2907351590368092", 
  "2.2907351590368092", "2.2907351590368092">>, <<"0.09564194294666524", "0.09564194294666524", "0.17553288711543455", "0.263895293813645", "0.3890819147022019", 
  "0.46277323951998217", "0.5504296236707121", "0.7265657737596892", "1.0772357648098938", "1.2566022106161683", "1.3896885941879062", "1.3896885941879062">>, 
  <<"-0.019518693251672135", "0.04439613867473242", "0.11549650174721836", "0.21325506677861075", "0.268179723158688", "0.31125301421509866", 
  "0.38394595875289805", "0.4808287074532006", "0.5205981039085685", "0.5444079315893322", "-0.016435668699253902", "0.036132755789022385", 
  "0.09344296094392814", "0.18264727448046977", "0.23460506265914166", "0.2772896726095435", "0.3475409775384636", "0.45339837219176454", "0.49766916609817535", 
  "0.533981552804865", "-0.006524265764454468", "0.024107195694715193", "0.05862956870028131", "0.12122104285943507", "0.17207312024278762", 
  "0.2175356288866053", "0.282297563080016", "0.3995008583081823", "0.4563724107887528", "0.5175856070810377", "0.00971345082784277", "0.025981390544674948", 
  "0.0438578322196561", "0.08103403101086341", "0.11351528283253318", "0.16873088559958743", "0.2347695003589526", "0.3428907161435351", "0.42017998591926276", 
  "0.49784770602295325", "0.022572122504756167", "0.0277671279384801", "0.033512283408629495", "0.05470423531298454", "0.06485563480390757", 
  "0.10483763206962131", "0.1802208799223503", "0.29075723837012296", "0.35502824385155335", "0.4460106883062252", "0.030312717163327077", "0.03080869253188484", 
  "0.03583128286874324", "0.04627567520803308", "0.050501484562613955", "0.05683263025468022", "0.12297253802915259", "0.2415222338797251", "0.3025777968736861", 
  "0.3724407040165538", "0.03115993727503623", "0.03443665864698284", "0.03574452046031886", "0.03995718256281492", "0.04759698369059247", 
  "0.050404788737262694", "0.052375330859925545", "0.1356057568743366", "0.20463667731329582", "0.26043914743762864", "0.02844193432840707", 
  "0.0219797618956514", "0.013352154001094038", "0.018393840217638825", "0.02448602185526976", "0.038812331325140816", "0.0522197430071833", 
  "0.057132169238281294", "0.06871138075102912", "0.09334527259294226", "0.04089985439478869", "0.07148502476706058", "0.06750266344761692", 
  "0.038560772865945815", "0.020172054809734774", "0.01596047961326318", "0.033338955878272625", "0.058808731166289874", "0.055802602927507314", 
  "0.025265841939291166", "0.11200365568168691", "0.11945663812857424", "0.10673570013847415", "0.07758458179796549", "0.055266607234870514", 
  "0.03072901347153607", "0.025790727504652375", "0.037031664564632104", "0.0601306808668177", "0.07612350738135039", "0.0964900248905913", 
  "0.11088549072803407", "0.10778442024110846", "0.09386482850507959", "0.06940476627270852", "0.04434507143623664", "0.03331958878624311", 
  "0.01854072032522763", "0.027553821071285824", "0.045426686375783926">>, "3", "1">>
D_tck_dc_Miller ==
  <<<<"-2.307004845727645", "-2.307004845727645", "-2.307004845727645", "-2.307004845727645", "-0.852533937110498", "-0.08240363489988907", "0.5915927994712962", 
  "0.8982804334259539", "1.2315822114127628", "1.5343291978351532", "1.9774792041044793", "2.990267368122924", "2.990267368122924", "2.990267368122924", 
  "2.990267368122924">>, <<"0.15265175024859737", "0.15265175024859737", "0.15265175024859737", "0.15265175024859737", "0.40701687154729443", 
  "0.6664564516122377", "0.8948974705226967", "1.0144777142876453", "1.0931592421107108", "1.1789561829062467", "1.3141101898631344", "1.4016433190574298", 
  "1.4016433190574298", "1.4016433190574298", "1.4016433190574298">>, <<"0.06036297171599943", "0.08322477303304361", "0.1533018560180316", 
  "0.23256231139725417", "0.3176212581983357", "0.40020914174974515", "0.4385944607898857", "0.5200344894492758", "0.6068491969006803", "0.5644812620968174", 
  "0.5206931820307759", "0.05279258341151595", "0.06701886136626269", "0.15460022709300852", "0.22187392289400498", "0.3163189969211137", "0.40236602598664045", 
  "0.44217477520553994", "0.5224439320660155", "0.5978399391103398", "0.6131809640282799", "0.6101286467987195", "0.05708355184742518", "0.06843627744908527", 
  "0.08943713554460665", "0.2666074936578441", "0.3093579837678418", "0.3920305705167829", "0.44503141066730906", "0.5320996705995045", "0.5598015078960548", 
  "0.9045290434928654", "1.1278543134986714", "0.004082132921064788", "0.08726673904790738", "0.05768023021275458", "0.2018006237954987", "0.31496483541908044", 
  "0.3856708355645899", "0.4432173742517448", "0.5150555453757539", "0.5447727935474795", "0.8251456282600432", "0.996071097893787", "-0.1110682037244921", 
  "0.07314890991840513", "0.06176280023793122", "0.14210338139570033", "0.221133551530109", "0.34303500384378116", "0.40130996632027693", "0.49982098188910806", 
  "0.5348917607889022", "0.6163719511180222", "0.6823385842053077", "-0.2166378057986125", "0.03883937343819872", "0.06286476564404532", "0.10772310640543344", 
  "0.16931893225970837", "0.22920155110345403", "0.32189134044934775", "0.4091523406543155", "0.5122997879847003", "0.5557259511248352", "0.5834892444785406", 
  "-0.2784258718931251", "0.01614983641474248", "0.06657175843926792", "0.06987287339424499", "0.11347683852709868", "0.18271325237542604", 
  "0.24381226992585622", "0.33699751608726225", "0.4328543409526461", "0.4932084120786604", "0.5172902462503076", "-0.3110304748285624", "-0.02554857636053585", 
  "0.04945754727786904", "0.06935393005092971", "0.05644398696176074", "0.08533241552366327", "0.15458680076525846", "0.24566876577901098", 
  "0.35324686175439035", "0.4095605186012888", "0.4277661722408436", "-0.27286175236092153", "-0.15488345611240545", "-0.09243246273089455", 
  "0.03455782910023685", "0.0829563174865211", "0.05506682466210118", "0.07027248456489407", "0.13458355260751956", "0.21084209763905942", "0.2971705194724395", 
  "0.3194829528180993", "-0.08063077687005854", "-0.4253397307338264", "-0.6215191566655465", "-0.29467521770312016", "0.018448009119198257", 
  "0.08412326971799582", "0.08337420030229001", "0.131275821589702", "0.1623166890922024", "0.21352111168837065", "0.2394011632386149", "0.14484414802505116", 
  "-0.781141319195365", "-1.4412452429263252", "-0.6266583715858592", "0.019328251090708078", "0.07939124881757918", "0.07570115443982374", 
  "0.10818570632561267", "0.14931529315415798", "0.1845260859797597", "0.1975713897205575">>, "3", "3">>
D_dc_Idelchik_tck ==
  <<<<"0.0", "0.0", "0.0", "0.0", "0.075", "0.1", "0.15", "0.2", "0.25", "0.3", "0.4", "0.6", "0.6", "0.6", "0.6">>, <<"3.0", "3.0", "6.0", "8.0", "10.0", "12.0", 
  "14.0", "16.0", "20.0", "24.0", "30.0", "40.0", "60.0", "90.0", "180.0", "180.0">>, <<"0.03", "0.08000000000000002", "0.11", "0.15000000000000002", "0.19", 
  "0.23000000000000004", "0.2700000000000001", "0.36000000000000004", "0.4700000000000001", "0.6500000000000001", "0.9200000000000003", "1.1499999999999997", 
  "1.0999999999999999", "1.02", "0.031285899404876215", "0.06962481602354913", "0.12336980866449107", "0.1503712244832664", "0.14378748320215035", 
  "0.20742060216292338", "0.24836000991873095", "0.35209826742177064", "0.43872500319959085", "0.6090878367568959", "0.8690773980930455", "1.0742803401164671", 
  "1.0021612593588036", "0.9451655708069392", "0.028714100595123804", "0.06926407286533984", "0.08440796911328675", "0.1374065532945115", "0.17287918346451642", 
  "0.19813495339263237", "0.23719554563682488", "0.301235065911563", "0.4134972190226316", "0.5698010521319933", "0.8164781574625106", "1.0379418821057562", 
  "1.0011720739745302", "0.9192788736375066", "0.03171453253983491", "0.07116642136473203", "0.09282641155265463", "0.11549496597768823", "0.14338331093620021", 
  "0.17489413621723082", "0.21614667989164066", "0.28946435656236014", "0.37330000426612064", "0.5104504490091938", "0.7371031974573926", "0.9040404534886205", 
  "0.8645483458117367", "0.810220761075916", "0.01599798425801497", "0.0600112625583925", "0.07849171306072822", "0.11003185192295382", "0.14431407179880976", 
  "0.1740127023740962", "0.20378359569975044", "0.2582633102962821", "0.33980922441927436", "0.45585837012862357", "0.6659720355794456", "0.8470955557688615", 
  "0.7909107314263772", "0.7433823030652078", "0.021150220771741206", "0.04655749664043002", "0.0703397965060472", "0.10328500351954951", "0.11954655404108269", 
  "0.1488787675177576", "0.1662463204709797", "0.231242192999296", "0.3007649420874127", "0.4151976547001982", "0.604782427849235", "0.7361883438919813", 
  "0.6970812056056823", "0.6428823350611119", "0.019401132655020165", "0.053758750879887386", "0.06014910091508289", "0.07682813399884816", 
  "0.09749971203685935", "0.13047222755487306", "0.1512311224163308", "0.19676791770653376", "0.2571310072310745", "0.3433510110705831", "0.45489825302361336", 
  "0.6481510686632118", "0.6207644461508929", "0.5850883566903438", "0.02185995392589747", "0.033290416160064826", "0.045368699473134086", "0.06692723598046114", 
  "0.08810622640302032", "0.10215235383204274", "0.1213618790128196", "0.17665887566391483", "0.2219043695740277", "0.3007473976664318", "0.37586666240054567", 
  "0.5455594857191605", "0.5128931976706977", "0.4673228653399028", "1.2670378191600348e-05", "0.03091333375994541", "0.03916320044367654", 
  "0.06214899426206778", "0.062121072502719726", "0.06871380729933241", "0.09367771591902911", "0.10605919242336995", "0.14532614492011708", "0.196826752842303", 
  "0.32944561762761065", "0.340669205008426", "0.32703730722467556", "0.32918425374885374", "0.014993664810904203", "0.014543333120027308", 
  "0.025418399778161738", "0.026425502868966118", "0.04393946374864015", "0.0556430963503338", "0.05566114204048549", "0.07947040378831506", 
  "0.10483692753994148", "0.13908662357884857", "0.1752771911861948", "0.26216539749578693", "0.2564813463876624", "0.22290787312557322", "0.01", "0.01", "0.02", 
  "0.03", "0.03", "0.04", "0.05", "0.06", "0.08", "0.1", "0.15", "0.18", "0.17", "0.16">>, "3", "1">>
D_NPS40 ==
  <<"0.125", "0.25", "0.375", "0.5", "0.75", "1.0", "1.25", "1.5", "2.0", "2.5", "3.0", "3.5", "4.0", "5.0", "6.0", "8.0", "10.0", "12.0", "14.0", "16.0", "18.0", 
  "20.0", "24.0", "32.0", "34.0", "36.0">>
D_S40i ==
  <<"6.84", "9.22", "12.48", "15.76", "20.96", "26.64", "35.08", "40.94", "52.48", "62.68", "77.92", "90.12", "102.26", "128.2", "154.08", "202.74", "254.46", 
  "303.18", "333.34", "381", "428.46", "477.82", "575.04", "778.04", "829.04", "875.9">>
====
