---- MODULE MeterData ----
\* Published tables and fits of differential pressure meters.
M_venturi_tube_betas ==
  <<"0.29916", "0.29947", "0.31239", "0.31901", "0.32658", "0.33729", "0.34202", "0.34706", "0.35903", "0.36596", "0.37258", "0.38487", "0.38581", "0.40125", 
  "0.40535", "0.41574", "0.42425", "0.43401", "0.44788", "0.45259", "0.47181", "0.47309", "0.49354", "0.49924", "0.51653", "0.5238", "0.53763", "0.54806", 
  "0.55684", "0.57389", "0.58235", "0.59782", "0.60156", "0.62265", "0.62649", "0.64948", "0.65099", "0.6687", "0.67587", "0.68855", "0.69318", "0.70618", 
  "0.71333", "0.72351", "0.74954", "0.74965">>
M_venturi_tube_dP_high ==
  <<"0.164534", "0.164504", "0.163591", "0.163508", "0.163439", "0.162652", "0.162224", "0.161866", "0.161238", "0.160786", "0.160295", "0.15928", "0.159193", 
  "0.157776", "0.157467", "0.156517", "0.155323", "0.153835", "0.151862", "0.151154", "0.14784", "0.147613", "0.144052", "0.14305", "0.140107", "0.138981", 
  "0.136794", "0.134737", "0.132847", "0.129303", "0.127637", "0.124758", "0.124006", "0.119269", "0.118449", "0.113605", "0.113269", "0.108995", "0.107109", 
  "0.103688", "0.102529", "0.099567", "0.097791", "0.095055", "0.087681", "0.087648">>
M_venturi_tube_dP_low ==
  <<"0.089232", "0.089218", "0.088671", "0.088435", "0.088206", "0.087853", "0.087655", "0.087404", "0.086693", "0.086241", "0.085813", "0.085142", "0.085102", 
  "0.084446", "0.084202", "0.083301", "0.08247", "0.08165", "0.080582", "0.080213", "0.078509", "0.078378", "0.075989", "0.075226", "0.0727", "0.071598", 
  "0.069562", "0.068128", "0.066986", "0.064658", "0.063298", "0.060872", "0.060378", "0.057879", "0.057403", "0.054091", "0.053879", "0.051726", "0.050931", 
  "0.049362", "0.048675", "0.046522", "0.045381", "0.04384", "0.039913", "0.039896">>
M_orifice_std_Hollingshead_tck ==
  <<<<"0.5", "0.5", "0.5", "0.5", "0.7", "0.7", "0.7", "0.7">>, <<"0.0", "0.0", "0.0", "0.0", "2.302585092994046", "2.995732273553991", "3.4011973816621555", 
  "3.6888794541139363", "4.0943445622221", "4.382026634673881", "4.605170185988092", "5.298317366548036", "5.703782474656201", "6.214608098422191", 
  "6.907755278982137", "7.600902459542082", "8.006367567650246", "8.517193191416238", "9.210340371976184", "11.512925464970229", "13.815510557964274", 
  "17.72753356339242", "17.72753356339242", "17.72753356339242", "17.72753356339242">>, <<"0.23300000000000026", "0.3040793845022822", "0.5397693379388018", 
  "0.6509414325648643", "0.6761419937262648", "0.6901697401156808", "0.6972240707909276", "0.6996759572505151", "0.7040223363705952", "0.7008741587711967", 
  "0.692665226515394", "0.6826387818678974", "0.6727930643166521", "0.6490542161859936", "0.6378780959698012", "0.6302027504736312", "0.6284904523610422", 
  "0.616773266650063", "0.6144108030024114", "0.6137270770149181", "0.6140000000000004", "0.21722222222222212", "0.26754856063815036", "0.547178981607613", 
  "0.6825835849471493", "0.6848255120880751", "0.712775784969247", "0.7066842545008245", "0.7020345744268808", "0.6931476737316041", "0.6710886785478944", 
  "0.6501218695989138", "0.6257164975579488", "0.5888463567232898", "0.6237505336392806", "0.578149766754485", "0.5761890160080455", "0.5922303103985014", 
  "0.5657790974864929", "0.6013376373672517", "0.5693593555949975", "0.5528888888888888", "0.206777777777778", "0.2644342350096853", "0.4630985572034346", 
  "0.6306849522311501", "0.6899260188747366", "0.7092703879134302", "0.7331416654072416", "0.7403866219900521", "0.7531493636395633", "0.7685019053395048", 
  "0.771007019842085", "0.7649533772965396", "0.7707020081746302", "0.6897832472092346", "0.6910618341373851", "0.6805763529796045", "0.6291884772151493", 
  "0.6470904244660671", "0.5962879899497537", "0.6353096798316025", "0.6277777777777779", "0.19100000000000003", "0.23712276889270198", "0.44482842661392175", 
  "0.6337225464930397", "0.6926462978136392", "0.7316874888663132", "0.7542057211530093", "0.77172737538752", "0.7876049778429112", "0.795143180926116", 
  "0.7977570986094262", "0.7861445043222344", "0.777182818678971", "0.7057345800650827", "0.6626698628526632", "0.6600690433654985", "0.6323396431072075", 
  "0.6212684034830293", "0.616281323630018", "0.603728515722033", "0.6040000000000001">>, "3", "3">>
M_cone_Hollingshead_tck ==
  <<<<"0.6611", "0.6611", "0.6611", "0.8203", "0.8203", "0.8203">>, <<"0.0", "0.0", "0.0", "0.0", "2.302585092994046", "2.995732273553991", "3.4011973816621555", 
  "3.6888794541139363", "4.0943445622221", "4.382026634673881", "4.605170185988092", "5.0106352940962555", "5.298317366548036", "5.703782474656201", 
  "6.214608098422191", "6.907755278982137", "7.600902459542082", "8.006367567650246", "8.294049640102028", "8.517193191416238", "8.922658299524402", 
  "9.210340371976184", "9.903487552536127", "10.308952660644293", "11.512925464970229", "13.815510557964274", "17.72753356339242", "17.72753356339242", 
  "17.72753356339242", "17.72753356339242">>, <<"0.06600000000000003", "0.09181180887944293", "0.1406341453010674", "0.27319769866300025", "0.34177839953532274", 
  "0.4025880076725502", "0.4563149328810349", "0.5035445307357295", "0.5458473693359689", "0.583175639128474", "0.628052124545805", "0.6647198135005781", 
  "0.7091524396786245", "0.7254729823419331", "0.7487816963926843", "0.7588145502817809", "0.7628692532631826", "0.7660482147214834", "0.7644188319583379", 
  "0.7782644144006241", "0.7721508139116487", "0.7994728794028244", "0.8076742194714519", "0.7986221420822799", "0.8086240532850298", "0.802", 
  "0.07016232064017663", "0.1059162635703894", "0.1489681838592814", "0.28830815748629207", "0.35405213706957395", "0.40339795504063664", "0.4544570323055189", 
  "0.5034637712201067", "0.5448190156693709", "0.5840164245031125", "0.6211559598098063", "0.6218648844980823", "0.6621745760710729", "0.7282379546292953", 
  "0.7340030734801267", "0.7396324865779599", "0.7489736798953754", "0.7480726412914717", "0.7671564751169978", "0.756853660688892", "0.7787029642272745", 
  "0.7742381131312691", "0.7887584162443445", "0.7857610450218329", "0.7697076645551957", "0.7718300910596032", "0.05700000000000002", "0.07612544859943549", 
  "0.12401733415778271", "0.24037452209595875", "0.29662463502593156", "0.34859536586855205", "0.39480085719322505", "0.43661601622480606", 
  "0.48091259102454764", "0.5240691286186233", "0.5590609288020619", "0.6144556048716696", "0.6471713640567137", "0.6904158809061184", "0.7032590252050219", 
  "0.712177974557301", "0.7221845303680273", "0.721505707129694", "0.7249822376264551", "0.7218890085289907", "0.7221848475768714", "0.7371751354515526", 
  "0.7252385062304629", "0.7278943803933404", "0.7496546607029086", "0.7340000000000001">>, "2", "3">>
M_wedge_Hollingshead_tck ==
  <<<<"0.5023", "0.5023", "0.611", "0.611">>, <<"0.0", "0.0", "0.0", "0.0", "2.302585092994046", "2.995732273553991", "3.4011973816621555", "3.6888794541139363", 
  "4.0943445622221", "4.382026634673881", "4.605170185988092", "5.298317366548036", "5.703782474656201", "5.991464547107982", "6.214608098422191", 
  "8.517193191416238", "9.210340371976184", "11.512925464970229", "17.72753356339242", "17.72753356339242", "17.72753356339242", "17.72753356339242">>, 
  <<"0.14500000000000005", "0.18231832425722", "0.3339917130006919", "0.5379467710226973", "0.6077700659940896", "0.6459542943925077", "0.6729757007770231", 
  "0.6896405007576225", "0.7054863114589583", "0.7155740600632635", "0.7205446407610863", "0.7239576816068966", "0.7483627568160166", "0.7232963355919931", 
  "0.7366325320490953", "0.7264222143567053", "0.7339605394126009", "0.7330000000000001", "0.1270000000000001", "0.16939873865132285", "0.2828494933525669", 
  "0.4889107009077842", "0.5623120043524101", "0.6133092379676948", "0.6437092394687915", "0.6629923366662017", "0.6782934366011034", "0.687302374134782", 
  "0.6927470053128909", "0.6993992364234898", "0.7221204483546849", "0.6947577293284015", "0.7063701306810815", "0.6781614534359871", "0.7185326811948407", 
  "0.7050000000000001">>, "1", "3">>
M_venturi_logRes_Hollingshead ==
  <<"0.0", "1.6094379124341003", "2.302585092994046", "2.995732273553991", "3.4011973816621555", "3.6888794541139363", "4.0943445622221", "4.382026634673881", 
  "4.605170185988092", "5.298317366548036", "5.703782474656201", "6.214608098422191", "6.907755278982137", "7.600902459542082", "8.006367567650246", 
  "8.517193191416238", "9.210340371976184", "10.308952660644293", "10.819778284410283", "11.225243392518447", "11.512925464970229", "13.815510557964274", 
  "16.11809565095832", "17.72753356339242">>
M_venturi_smooth_Cs_Hollingshead ==
  <<"0.163", "0.336", "0.432", "0.515", "0.586", "0.625", "0.679", "0.705", "0.727", "0.803", "0.841", "0.881", "0.921", "0.937", "0.944", "0.954", "0.961", 
  "0.967", "0.967", "0.97", "0.971", "0.973", "0.974", "0.975">>
M_venturi_sharp_Cs_Hollingshead ==
  <<"0.146", "0.3", "0.401", "0.498", "0.554", "0.596", "0.65", "0.688", "0.715", "0.801", "0.841", "0.884", "0.914", "0.94", "0.947", "0.944", "0.952", "0.959", 
  "0.962", "0.963", "0.965", "0.967", "0.967", "0.967">>
====
