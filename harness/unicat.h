// General categories and simple case mappings that Unicode 3.2 and 15 agree on (written from Python's unicodedata)
#ifndef UNICAT_H
#define UNICAT_H
namespace unicat {
    struct run { int lower, upper; const char* category; };
    static const run runs[] = {
{0,32,"Cc"},{32,33,"Zs"},{33,36,"Po"},{36,37,"Sc"},{37,40,"Po"},{40,41,"Ps"},{41,42,"Pe"},{42,43,"Po"},{43,44,"Sm"},{44,45,"Po"},
{45,46,"Pd"},{46,48,"Po"},{48,58,"Nd"},{58,60,"Po"},{60,63,"Sm"},{63,65,"Po"},{65,91,"Lu"},{91,92,"Ps"},{92,93,"Po"},{93,94,"Pe"},
{94,95,"Sk"},{95,96,"Pc"},{96,97,"Sk"},{97,123,"Ll"},{123,124,"Ps"},{124,125,"Sm"},{125,126,"Pe"},{126,127,"Sm"},{127,160,"Cc"},
{160,161,"Zs"},{161,162,"Po"},{162,166,"Sc"},{166,167,"So"},{168,169,"Sk"},{169,170,"So"},{171,172,"Pi"},{172,173,"Sm"},{174,175,"So"},
{175,176,"Sk"},{176,177,"So"},{177,178,"Sm"},{178,180,"No"},{180,181,"Sk"},{181,182,"Ll"},{183,184,"Po"},{184,185,"Sk"},{185,186,"No"},
{187,188,"Pf"},{188,191,"No"},{191,192,"Po"},{192,215,"Lu"},{215,216,"Sm"},{216,223,"Lu"},{223,247,"Ll"},{247,248,"Sm"},{248,256,"Ll"},
{256,257,"Lu"},{257,258,"Ll"},{258,259,"Lu"},{259,260,"Ll"},{260,261,"Lu"},{261,262,"Ll"},{262,263,"Lu"},{263,264,"Ll"},{264,265,"Lu"},
{265,266,"Ll"},{266,267,"Lu"},{267,268,"Ll"},{268,269,"Lu"},{269,270,"Ll"},{270,271,"Lu"},{271,272,"Ll"},{272,273,"Lu"},{273,274,"Ll"},
{274,275,"Lu"},{275,276,"Ll"},{276,277,"Lu"},{277,278,"Ll"},{278,279,"Lu"},{279,280,"Ll"},{280,281,"Lu"},{281,282,"Ll"},{282,283,"Lu"},
{283,284,"Ll"},{284,285,"Lu"},{285,286,"Ll"},{286,287,"Lu"},{287,288,"Ll"},{288,289,"Lu"},{289,290,"Ll"},{290,291,"Lu"},{291,292,"Ll"},
{292,293,"Lu"},{293,294,"Ll"},{294,295,"Lu"},{295,296,"Ll"},{296,297,"Lu"},{297,298,"Ll"},{298,299,"Lu"},{299,300,"Ll"},{300,301,"Lu"},
{301,302,"Ll"},{302,303,"Lu"},{303,304,"Ll"},{304,305,"Lu"},{305,306,"Ll"},{306,307,"Lu"},{307,308,"Ll"},{308,309,"Lu"},{309,310,"Ll"},
{310,311,"Lu"},{311,313,"Ll"},{313,314,"Lu"},{314,315,"Ll"},{315,316,"Lu"},{316,317,"Ll"},{317,318,"Lu"},{318,319,"Ll"},{319,320,"Lu"},
{320,321,"Ll"},{321,322,"Lu"},{322,323,"Ll"},{323,324,"Lu"},{324,325,"Ll"},{325,326,"Lu"},{326,327,"Ll"},{327,328,"Lu"},{328,330,"Ll"},
{330,331,"Lu"},{331,332,"Ll"},{332,333,"Lu"},{333,334,"Ll"},{334,335,"Lu"},{335,336,"Ll"},{336,337,"Lu"},{337,338,"Ll"},{338,339,"Lu"},
{339,340,"Ll"},{340,341,"Lu"},{341,342,"Ll"},{342,343,"Lu"},{343,344,"Ll"},{344,345,"Lu"},{345,346,"Ll"},{346,347,"Lu"},{347,348,"Ll"},
{348,349,"Lu"},{349,350,"Ll"},{350,351,"Lu"},{351,352,"Ll"},{352,353,"Lu"},{353,354,"Ll"},{354,355,"Lu"},{355,356,"Ll"},{356,357,"Lu"},
{357,358,"Ll"},{358,359,"Lu"},{359,360,"Ll"},{360,361,"Lu"},{361,362,"Ll"},{362,363,"Lu"},{363,364,"Ll"},{364,365,"Lu"},{365,366,"Ll"},
{366,367,"Lu"},{367,368,"Ll"},{368,369,"Lu"},{369,370,"Ll"},{370,371,"Lu"},{371,372,"Ll"},{372,373,"Lu"},{373,374,"Ll"},{374,375,"Lu"},
{375,376,"Ll"},{376,378,"Lu"},{378,379,"Ll"},{379,380,"Lu"},{380,381,"Ll"},{381,382,"Lu"},{382,385,"Ll"},{385,387,"Lu"},{387,388,"Ll"},
{388,389,"Lu"},{389,390,"Ll"},{390,392,"Lu"},{392,393,"Ll"},{393,396,"Lu"},{396,398,"Ll"},{398,402,"Lu"},{402,403,"Ll"},{403,405,"Lu"},
{405,406,"Ll"},{406,409,"Lu"},{409,412,"Ll"},{412,414,"Lu"},{414,415,"Ll"},{415,417,"Lu"},{417,418,"Ll"},{418,419,"Lu"},{419,420,"Ll"},
{420,421,"Lu"},{421,422,"Ll"},{422,424,"Lu"},{424,425,"Ll"},{425,426,"Lu"},{426,428,"Ll"},{428,429,"Lu"},{429,430,"Ll"},{430,432,"Lu"},
{432,433,"Ll"},{433,436,"Lu"},{436,437,"Ll"},{437,438,"Lu"},{438,439,"Ll"},{439,441,"Lu"},{441,443,"Ll"},{443,444,"Lo"},{444,445,"Lu"},
{445,448,"Ll"},{448,452,"Lo"},{452,453,"Lu"},{453,454,"Lt"},{454,455,"Ll"},{455,456,"Lu"},{456,457,"Lt"},{457,458,"Ll"},{458,459,"Lu"},
{459,460,"Lt"},{460,461,"Ll"},{461,462,"Lu"},{462,463,"Ll"},{463,464,"Lu"},{464,465,"Ll"},{465,466,"Lu"},{466,467,"Ll"},{467,468,"Lu"},
{468,469,"Ll"},{469,470,"Lu"},{470,471,"Ll"},{471,472,"Lu"},{472,473,"Ll"},{473,474,"Lu"},{474,475,"Ll"},{475,476,"Lu"},{476,478,"Ll"},
{478,479,"Lu"},{479,480,"Ll"},{480,481,"Lu"},{481,482,"Ll"},{482,483,"Lu"},{483,484,"Ll"},{484,485,"Lu"},{485,486,"Ll"},{486,487,"Lu"},
{487,488,"Ll"},{488,489,"Lu"},{489,490,"Ll"},{490,491,"Lu"},{491,492,"Ll"},{492,493,"Lu"},{493,494,"Ll"},{494,495,"Lu"},{495,497,"Ll"},
{497,498,"Lu"},{498,499,"Lt"},{499,500,"Ll"},{500,501,"Lu"},{501,502,"Ll"},{502,505,"Lu"},{505,506,"Ll"},{506,507,"Lu"},{507,508,"Ll"},
{508,509,"Lu"},{509,510,"Ll"},{510,511,"Lu"},{511,512,"Ll"},{512,513,"Lu"},{513,514,"Ll"},{514,515,"Lu"},{515,516,"Ll"},{516,517,"Lu"},
{517,518,"Ll"},{518,519,"Lu"},{519,520,"Ll"},{520,521,"Lu"},{521,522,"Ll"},{522,523,"Lu"},{523,524,"Ll"},{524,525,"Lu"},{525,526,"Ll"},
{526,527,"Lu"},{527,528,"Ll"},{528,529,"Lu"},{529,530,"Ll"},{530,531,"Lu"},{531,532,"Ll"},{532,533,"Lu"},{533,534,"Ll"},{534,535,"Lu"},
{535,536,"Ll"},{536,537,"Lu"},{537,538,"Ll"},{538,539,"Lu"},{539,540,"Ll"},{540,541,"Lu"},{541,542,"Ll"},{542,543,"Lu"},{543,544,"Ll"},
{544,545,"Lu"},{546,547,"Lu"},{547,548,"Ll"},{548,549,"Lu"},{549,550,"Ll"},{550,551,"Lu"},{551,552,"Ll"},{552,553,"Lu"},{553,554,"Ll"},
{554,555,"Lu"},{555,556,"Ll"},{556,557,"Lu"},{557,558,"Ll"},{558,559,"Lu"},{559,560,"Ll"},{560,561,"Lu"},{561,562,"Ll"},{562,563,"Lu"},
{563,564,"Ll"},{592,660,"Ll"},{661,686,"Ll"},{688,697,"Lm"},{699,706,"Lm"},{706,710,"Sk"},{720,722,"Lm"},{722,736,"Sk"},{736,741,"Lm"},
{741,748,"Sk"},{749,750,"Sk"},{750,751,"Lm"},{768,848,"Mn"},{864,880,"Mn"},{885,886,"Sk"},{890,891,"Lm"},{894,895,"Po"},{900,902,"Sk"},
{902,903,"Lu"},{903,904,"Po"},{904,907,"Lu"},{908,909,"Lu"},{910,912,"Lu"},{912,913,"Ll"},{913,930,"Lu"},{931,940,"Lu"},{940,975,"Ll"},
{976,978,"Ll"},{978,981,"Lu"},{981,984,"Ll"},{984,985,"Lu"},{985,986,"Ll"},{986,987,"Lu"},{987,988,"Ll"},{988,989,"Lu"},{989,990,"Ll"},
{990,991,"Lu"},{991,992,"Ll"},{992,993,"Lu"},{993,994,"Ll"},{994,995,"Lu"},{995,996,"Ll"},{996,997,"Lu"},{997,998,"Ll"},{998,999,"Lu"},
{999,1000,"Ll"},{1000,1001,"Lu"},{1001,1002,"Ll"},{1002,1003,"Lu"},{1003,1004,"Ll"},{1004,1005,"Lu"},{1005,1006,"Ll"},{1006,1007,"Lu"},
{1007,1012,"Ll"},{1012,1013,"Lu"},{1013,1014,"Ll"},{1014,1015,"Sm"},{1024,1072,"Lu"},{1072,1120,"Ll"},{1120,1121,"Lu"},{1121,1122,"Ll"},
{1122,1123,"Lu"},{1123,1124,"Ll"},{1124,1125,"Lu"},{1125,1126,"Ll"},{1126,1127,"Lu"},{1127,1128,"Ll"},{1128,1129,"Lu"},{1129,1130,"Ll"},
{1130,1131,"Lu"},{1131,1132,"Ll"},{1132,1133,"Lu"},{1133,1134,"Ll"},{1134,1135,"Lu"},{1135,1136,"Ll"},{1136,1137,"Lu"},{1137,1138,"Ll"},
{1138,1139,"Lu"},{1139,1140,"Ll"},{1140,1141,"Lu"},{1141,1142,"Ll"},{1142,1143,"Lu"},{1143,1144,"Ll"},{1144,1145,"Lu"},{1145,1146,"Ll"},
{1146,1147,"Lu"},{1147,1148,"Ll"},{1148,1149,"Lu"},{1149,1150,"Ll"},{1150,1151,"Lu"},{1151,1152,"Ll"},{1152,1153,"Lu"},{1153,1154,"Ll"},
{1154,1155,"So"},{1155,1159,"Mn"},{1160,1162,"Me"},{1162,1163,"Lu"},{1163,1164,"Ll"},{1164,1165,"Lu"},{1165,1166,"Ll"},{1166,1167,"Lu"},
{1167,1168,"Ll"},{1168,1169,"Lu"},{1169,1170,"Ll"},{1170,1171,"Lu"},{1171,1172,"Ll"},{1172,1173,"Lu"},{1173,1174,"Ll"},{1174,1175,"Lu"},
{1175,1176,"Ll"},{1176,1177,"Lu"},{1177,1178,"Ll"},{1178,1179,"Lu"},{1179,1180,"Ll"},{1180,1181,"Lu"},{1181,1182,"Ll"},{1182,1183,"Lu"},
{1183,1184,"Ll"},{1184,1185,"Lu"},{1185,1186,"Ll"},{1186,1187,"Lu"},{1187,1188,"Ll"},{1188,1189,"Lu"},{1189,1190,"Ll"},{1190,1191,"Lu"},
{1191,1192,"Ll"},{1192,1193,"Lu"},{1193,1194,"Ll"},{1194,1195,"Lu"},{1195,1196,"Ll"},{1196,1197,"Lu"},{1197,1198,"Ll"},{1198,1199,"Lu"},
{1199,1200,"Ll"},{1200,1201,"Lu"},{1201,1202,"Ll"},{1202,1203,"Lu"},{1203,1204,"Ll"},{1204,1205,"Lu"},{1205,1206,"Ll"},{1206,1207,"Lu"},
{1207,1208,"Ll"},{1208,1209,"Lu"},{1209,1210,"Ll"},{1210,1211,"Lu"},{1211,1212,"Ll"},{1212,1213,"Lu"},{1213,1214,"Ll"},{1214,1215,"Lu"},
{1215,1216,"Ll"},{1216,1218,"Lu"},{1218,1219,"Ll"},{1219,1220,"Lu"},{1220,1221,"Ll"},{1221,1222,"Lu"},{1222,1223,"Ll"},{1223,1224,"Lu"},
{1224,1225,"Ll"},{1225,1226,"Lu"},{1226,1227,"Ll"},{1227,1228,"Lu"},{1228,1229,"Ll"},{1229,1230,"Lu"},{1230,1231,"Ll"},{1232,1233,"Lu"},
{1233,1234,"Ll"},{1234,1235,"Lu"},{1235,1236,"Ll"},{1236,1237,"Lu"},{1237,1238,"Ll"},{1238,1239,"Lu"},{1239,1240,"Ll"},{1240,1241,"Lu"},
{1241,1242,"Ll"},{1242,1243,"Lu"},{1243,1244,"Ll"},{1244,1245,"Lu"},{1245,1246,"Ll"},{1246,1247,"Lu"},{1247,1248,"Ll"},{1248,1249,"Lu"},
{1249,1250,"Ll"},{1250,1251,"Lu"},{1251,1252,"Ll"},{1252,1253,"Lu"},{1253,1254,"Ll"},{1254,1255,"Lu"},{1255,1256,"Ll"},{1256,1257,"Lu"},
{1257,1258,"Ll"},{1258,1259,"Lu"},{1259,1260,"Ll"},{1260,1261,"Lu"},{1261,1262,"Ll"},{1262,1263,"Lu"},{1263,1264,"Ll"},{1264,1265,"Lu"},
{1265,1266,"Ll"},{1266,1267,"Lu"},{1267,1268,"Ll"},{1268,1269,"Lu"},{1269,1270,"Ll"},{1272,1273,"Lu"},{1273,1274,"Ll"},{1280,1281,"Lu"},
{1281,1282,"Ll"},{1282,1283,"Lu"},{1283,1284,"Ll"},{1284,1285,"Lu"},{1285,1286,"Ll"},{1286,1287,"Lu"},{1287,1288,"Ll"},{1288,1289,"Lu"},
{1289,1290,"Ll"},{1290,1291,"Lu"},{1291,1292,"Ll"},{1292,1293,"Lu"},{1293,1294,"Ll"},{1294,1295,"Lu"},{1295,1296,"Ll"},{1329,1367,"Lu"},
{1369,1370,"Lm"},{1370,1376,"Po"},{1377,1416,"Ll"},{1417,1418,"Po"},{1418,1419,"Pd"},{1425,1442,"Mn"},{1443,1466,"Mn"},{1467,1470,"Mn"},
{1471,1472,"Mn"},{1472,1473,"Po"},{1473,1475,"Mn"},{1475,1476,"Po"},{1476,1477,"Mn"},{1488,1515,"Lo"},{1520,1523,"Lo"},{1523,1525,"Po"},
{1548,1549,"Po"},{1563,1564,"Po"},{1567,1568,"Po"},{1569,1595,"Lo"},{1600,1601,"Lm"},{1601,1611,"Lo"},{1611,1622,"Mn"},{1632,1642,"Nd"},
{1642,1646,"Po"},{1646,1648,"Lo"},{1648,1649,"Mn"},{1649,1748,"Lo"},{1748,1749,"Po"},{1749,1750,"Lo"},{1750,1757,"Mn"},{1757,1758,"Cf"},
{1759,1765,"Mn"},{1765,1767,"Lm"},{1767,1769,"Mn"},{1769,1770,"So"},{1770,1774,"Mn"},{1776,1786,"Nd"},{1786,1789,"Lo"},{1789,1791,"So"},
{1792,1806,"Po"},{1807,1808,"Cf"},{1808,1809,"Lo"},{1809,1810,"Mn"},{1810,1837,"Lo"},{1840,1867,"Mn"},{1920,1958,"Lo"},{1958,1969,"Mn"},
{1969,1970,"Lo"},{2305,2307,"Mn"},{2307,2308,"Mc"},{2309,2362,"Lo"},{2364,2365,"Mn"},{2365,2366,"Lo"},{2366,2369,"Mc"},{2369,2377,"Mn"},
{2377,2381,"Mc"},{2381,2382,"Mn"},{2384,2385,"Lo"},{2385,2389,"Mn"},{2392,2402,"Lo"},{2402,2404,"Mn"},{2404,2406,"Po"},{2406,2416,"Nd"},
{2416,2417,"Po"},{2433,2434,"Mn"},{2434,2436,"Mc"},{2437,2445,"Lo"},{2447,2449,"Lo"},{2451,2473,"Lo"},{2474,2481,"Lo"},{2482,2483,"Lo"},
{2486,2490,"Lo"},{2492,2493,"Mn"},{2494,2497,"Mc"},{2497,2501,"Mn"},{2503,2505,"Mc"},{2507,2509,"Mc"},{2509,2510,"Mn"},{2519,2520,"Mc"},
{2524,2526,"Lo"},{2527,2530,"Lo"},{2530,2532,"Mn"},{2534,2544,"Nd"},{2544,2546,"Lo"},{2546,2548,"Sc"},{2548,2554,"No"},{2554,2555,"So"},
{2562,2563,"Mn"},{2565,2571,"Lo"},{2575,2577,"Lo"},{2579,2601,"Lo"},{2602,2609,"Lo"},{2610,2612,"Lo"},{2613,2615,"Lo"},{2616,2618,"Lo"},
{2620,2621,"Mn"},{2622,2625,"Mc"},{2625,2627,"Mn"},{2631,2633,"Mn"},{2635,2638,"Mn"},{2649,2653,"Lo"},{2654,2655,"Lo"},{2662,2672,"Nd"},
{2672,2674,"Mn"},{2674,2677,"Lo"},{2689,2691,"Mn"},{2691,2692,"Mc"},{2693,2700,"Lo"},{2701,2702,"Lo"},{2703,2706,"Lo"},{2707,2729,"Lo"},
{2730,2737,"Lo"},{2738,2740,"Lo"},{2741,2746,"Lo"},{2748,2749,"Mn"},{2749,2750,"Lo"},{2750,2753,"Mc"},{2753,2758,"Mn"},{2759,2761,"Mn"},
{2761,2762,"Mc"},{2763,2765,"Mc"},{2765,2766,"Mn"},{2768,2769,"Lo"},{2784,2785,"Lo"},{2790,2800,"Nd"},{2817,2818,"Mn"},{2818,2820,"Mc"},
{2821,2829,"Lo"},{2831,2833,"Lo"},{2835,2857,"Lo"},{2858,2865,"Lo"},{2866,2868,"Lo"},{2870,2874,"Lo"},{2876,2877,"Mn"},{2877,2878,"Lo"},
{2878,2879,"Mc"},{2879,2880,"Mn"},{2880,2881,"Mc"},{2881,2884,"Mn"},{2887,2889,"Mc"},{2891,2893,"Mc"},{2893,2894,"Mn"},{2902,2903,"Mn"},
{2903,2904,"Mc"},{2908,2910,"Lo"},{2911,2914,"Lo"},{2918,2928,"Nd"},{2928,2929,"So"},{2946,2947,"Mn"},{2947,2948,"Lo"},{2949,2955,"Lo"},
{2958,2961,"Lo"},{2962,2966,"Lo"},{2969,2971,"Lo"},{2972,2973,"Lo"},{2974,2976,"Lo"},{2979,2981,"Lo"},{2984,2987,"Lo"},{2990,2998,"Lo"},
{2999,3002,"Lo"},{3006,3008,"Mc"},{3008,3009,"Mn"},{3009,3011,"Mc"},{3014,3017,"Mc"},{3018,3021,"Mc"},{3021,3022,"Mn"},{3031,3032,"Mc"},
{3047,3056,"Nd"},{3056,3059,"No"},{3073,3076,"Mc"},{3077,3085,"Lo"},{3086,3089,"Lo"},{3090,3113,"Lo"},{3114,3124,"Lo"},{3125,3130,"Lo"},
{3134,3137,"Mn"},{3137,3141,"Mc"},{3142,3145,"Mn"},{3146,3150,"Mn"},{3157,3159,"Mn"},{3168,3170,"Lo"},{3174,3184,"Nd"},{3202,3204,"Mc"},
{3205,3213,"Lo"},{3214,3217,"Lo"},{3218,3241,"Lo"},{3242,3252,"Lo"},{3253,3258,"Lo"},{3262,3263,"Mc"},{3263,3264,"Mn"},{3264,3269,"Mc"},
{3270,3271,"Mn"},{3271,3273,"Mc"},{3274,3276,"Mc"},{3276,3278,"Mn"},{3285,3287,"Mc"},{3294,3295,"Lo"},{3296,3298,"Lo"},{3302,3312,"Nd"},
{3330,3332,"Mc"},{3333,3341,"Lo"},{3342,3345,"Lo"},{3346,3369,"Lo"},{3370,3386,"Lo"},{3390,3393,"Mc"},{3393,3396,"Mn"},{3398,3401,"Mc"},
{3402,3405,"Mc"},{3405,3406,"Mn"},{3415,3416,"Mc"},{3424,3426,"Lo"},{3430,3440,"Nd"},{3458,3460,"Mc"},{3461,3479,"Lo"},{3482,3506,"Lo"},
{3507,3516,"Lo"},{3517,3518,"Lo"},{3520,3527,"Lo"},{3530,3531,"Mn"},{3535,3538,"Mc"},{3538,3541,"Mn"},{3542,3543,"Mn"},{3544,3552,"Mc"},
{3570,3572,"Mc"},{3572,3573,"Po"},{3585,3633,"Lo"},{3633,3634,"Mn"},{3634,3636,"Lo"},{3636,3643,"Mn"},{3647,3648,"Sc"},{3648,3654,"Lo"},
{3654,3655,"Lm"},{3655,3663,"Mn"},{3663,3664,"Po"},{3664,3674,"Nd"},{3674,3676,"Po"},{3713,3715,"Lo"},{3716,3717,"Lo"},{3719,3721,"Lo"},
{3722,3723,"Lo"},{3725,3726,"Lo"},{3732,3736,"Lo"},{3737,3744,"Lo"},{3745,3748,"Lo"},{3749,3750,"Lo"},{3751,3752,"Lo"},{3754,3756,"Lo"},
{3757,3761,"Lo"},{3761,3762,"Mn"},{3762,3764,"Lo"},{3764,3770,"Mn"},{3771,3773,"Mn"},{3773,3774,"Lo"},{3776,3781,"Lo"},{3782,3783,"Lm"},
{3784,3790,"Mn"},{3792,3802,"Nd"},{3804,3806,"Lo"},{3840,3841,"Lo"},{3841,3844,"So"},{3844,3859,"Po"},{3859,3860,"So"},{3861,3864,"So"},
{3864,3866,"Mn"},{3866,3872,"So"},{3872,3882,"Nd"},{3882,3892,"No"},{3892,3893,"So"},{3893,3894,"Mn"},{3894,3895,"So"},{3895,3896,"Mn"},
{3896,3897,"So"},{3897,3898,"Mn"},{3898,3899,"Ps"},{3899,3900,"Pe"},{3900,3901,"Ps"},{3901,3902,"Pe"},{3902,3904,"Mc"},{3904,3912,"Lo"},
{3913,3947,"Lo"},{3953,3967,"Mn"},{3967,3968,"Mc"},{3968,3973,"Mn"},{3973,3974,"Po"},{3974,3976,"Mn"},{3976,3980,"Lo"},{3984,3992,"Mn"},
{3993,4029,"Mn"},{4030,4038,"So"},{4038,4039,"Mn"},{4039,4045,"So"},{4047,4048,"So"},{4096,4130,"Lo"},{4131,4136,"Lo"},{4137,4139,"Lo"},
{4140,4141,"Mc"},{4141,4145,"Mn"},{4145,4146,"Mc"},{4146,4147,"Mn"},{4150,4152,"Mn"},{4152,4153,"Mc"},{4153,4154,"Mn"},{4160,4170,"Nd"},
{4170,4176,"Po"},{4176,4182,"Lo"},{4182,4184,"Mc"},{4184,4186,"Mn"},{4256,4294,"Lu"},{4347,4348,"Po"},{4352,4442,"Lo"},{4447,4515,"Lo"},
{4520,4602,"Lo"},{4608,4615,"Lo"},{4616,4679,"Lo"},{4680,4681,"Lo"},{4682,4686,"Lo"},{4688,4695,"Lo"},{4696,4697,"Lo"},{4698,4702,"Lo"},
{4704,4743,"Lo"},{4744,4745,"Lo"},{4746,4750,"Lo"},{4752,4783,"Lo"},{4784,4785,"Lo"},{4786,4790,"Lo"},{4792,4799,"Lo"},{4800,4801,"Lo"},
{4802,4806,"Lo"},{4808,4815,"Lo"},{4816,4823,"Lo"},{4824,4847,"Lo"},{4848,4879,"Lo"},{4880,4881,"Lo"},{4882,4886,"Lo"},{4888,4895,"Lo"},
{4896,4935,"Lo"},{4936,4955,"Lo"},{4961,4969,"Po"},{4978,4989,"No"},{5121,5741,"Lo"},{5742,5743,"Po"},{5743,5751,"Lo"},{5760,5761,"Zs"},
{5761,5787,"Lo"},{5787,5788,"Ps"},{5788,5789,"Pe"},{5792,5867,"Lo"},{5867,5870,"Po"},{5870,5873,"Nl"},{5888,5901,"Lo"},{5902,5906,"Lo"},
{5906,5909,"Mn"},{5920,5938,"Lo"},{5938,5940,"Mn"},{5941,5943,"Po"},{5952,5970,"Lo"},{5970,5972,"Mn"},{5984,5997,"Lo"},{5998,6001,"Lo"},
{6002,6004,"Mn"},{6016,6068,"Lo"},{6070,6071,"Mc"},{6071,6078,"Mn"},{6078,6086,"Mc"},{6086,6087,"Mn"},{6087,6089,"Mc"},{6089,6100,"Mn"},
{6100,6103,"Po"},{6103,6104,"Lm"},{6104,6107,"Po"},{6107,6108,"Sc"},{6108,6109,"Lo"},{6112,6122,"Nd"},{6144,6150,"Po"},{6150,6151,"Pd"},
{6151,6155,"Po"},{6155,6158,"Mn"},{6160,6170,"Nd"},{6176,6211,"Lo"},{6211,6212,"Lm"},{6212,6264,"Lo"},{6272,6277,"Lo"},
{6279,6313,"Lo"},{6313,6314,"Mn"},{7680,7681,"Lu"},{7681,7682,"Ll"},{7682,7683,"Lu"},{7683,7684,"Ll"},{7684,7685,"Lu"},{7685,7686,"Ll"},
{7686,7687,"Lu"},{7687,7688,"Ll"},{7688,7689,"Lu"},{7689,7690,"Ll"},{7690,7691,"Lu"},{7691,7692,"Ll"},{7692,7693,"Lu"},{7693,7694,"Ll"},
{7694,7695,"Lu"},{7695,7696,"Ll"},{7696,7697,"Lu"},{7697,7698,"Ll"},{7698,7699,"Lu"},{7699,7700,"Ll"},{7700,7701,"Lu"},{7701,7702,"Ll"},
{7702,7703,"Lu"},{7703,7704,"Ll"},{7704,7705,"Lu"},{7705,7706,"Ll"},{7706,7707,"Lu"},{7707,7708,"Ll"},{7708,7709,"Lu"},{7709,7710,"Ll"},
{7710,7711,"Lu"},{7711,7712,"Ll"},{7712,7713,"Lu"},{7713,7714,"Ll"},{7714,7715,"Lu"},{7715,7716,"Ll"},{7716,7717,"Lu"},{7717,7718,"Ll"},
{7718,7719,"Lu"},{7719,7720,"Ll"},{7720,7721,"Lu"},{7721,7722,"Ll"},{7722,7723,"Lu"},{7723,7724,"Ll"},{7724,7725,"Lu"},{7725,7726,"Ll"},
{7726,7727,"Lu"},{7727,7728,"Ll"},{7728,7729,"Lu"},{7729,7730,"Ll"},{7730,7731,"Lu"},{7731,7732,"Ll"},{7732,7733,"Lu"},{7733,7734,"Ll"},
{7734,7735,"Lu"},{7735,7736,"Ll"},{7736,7737,"Lu"},{7737,7738,"Ll"},{7738,7739,"Lu"},{7739,7740,"Ll"},{7740,7741,"Lu"},{7741,7742,"Ll"},
{7742,7743,"Lu"},{7743,7744,"Ll"},{7744,7745,"Lu"},{7745,7746,"Ll"},{7746,7747,"Lu"},{7747,7748,"Ll"},{7748,7749,"Lu"},{7749,7750,"Ll"},
{7750,7751,"Lu"},{7751,7752,"Ll"},{7752,7753,"Lu"},{7753,7754,"Ll"},{7754,7755,"Lu"},{7755,7756,"Ll"},{7756,7757,"Lu"},{7757,7758,"Ll"},
{7758,7759,"Lu"},{7759,7760,"Ll"},{7760,7761,"Lu"},{7761,7762,"Ll"},{7762,7763,"Lu"},{7763,7764,"Ll"},{7764,7765,"Lu"},{7765,7766,"Ll"},
{7766,7767,"Lu"},{7767,7768,"Ll"},{7768,7769,"Lu"},{7769,7770,"Ll"},{7770,7771,"Lu"},{7771,7772,"Ll"},{7772,7773,"Lu"},{7773,7774,"Ll"},
{7774,7775,"Lu"},{7775,7776,"Ll"},{7776,7777,"Lu"},{7777,7778,"Ll"},{7778,7779,"Lu"},{7779,7780,"Ll"},{7780,7781,"Lu"},{7781,7782,"Ll"},
{7782,7783,"Lu"},{7783,7784,"Ll"},{7784,7785,"Lu"},{7785,7786,"Ll"},{7786,7787,"Lu"},{7787,7788,"Ll"},{7788,7789,"Lu"},{7789,7790,"Ll"},
{7790,7791,"Lu"},{7791,7792,"Ll"},{7792,7793,"Lu"},{7793,7794,"Ll"},{7794,7795,"Lu"},{7795,7796,"Ll"},{7796,7797,"Lu"},{7797,7798,"Ll"},
{7798,7799,"Lu"},{7799,7800,"Ll"},{7800,7801,"Lu"},{7801,7802,"Ll"},{7802,7803,"Lu"},{7803,7804,"Ll"},{7804,7805,"Lu"},{7805,7806,"Ll"},
{7806,7807,"Lu"},{7807,7808,"Ll"},{7808,7809,"Lu"},{7809,7810,"Ll"},{7810,7811,"Lu"},{7811,7812,"Ll"},{7812,7813,"Lu"},{7813,7814,"Ll"},
{7814,7815,"Lu"},{7815,7816,"Ll"},{7816,7817,"Lu"},{7817,7818,"Ll"},{7818,7819,"Lu"},{7819,7820,"Ll"},{7820,7821,"Lu"},{7821,7822,"Ll"},
{7822,7823,"Lu"},{7823,7824,"Ll"},{7824,7825,"Lu"},{7825,7826,"Ll"},{7826,7827,"Lu"},{7827,7828,"Ll"},{7828,7829,"Lu"},{7829,7836,"Ll"},
{7840,7841,"Lu"},{7841,7842,"Ll"},{7842,7843,"Lu"},{7843,7844,"Ll"},{7844,7845,"Lu"},{7845,7846,"Ll"},{7846,7847,"Lu"},{7847,7848,"Ll"},
{7848,7849,"Lu"},{7849,7850,"Ll"},{7850,7851,"Lu"},{7851,7852,"Ll"},{7852,7853,"Lu"},{7853,7854,"Ll"},{7854,7855,"Lu"},{7855,7856,"Ll"},
{7856,7857,"Lu"},{7857,7858,"Ll"},{7858,7859,"Lu"},{7859,7860,"Ll"},{7860,7861,"Lu"},{7861,7862,"Ll"},{7862,7863,"Lu"},{7863,7864,"Ll"},
{7864,7865,"Lu"},{7865,7866,"Ll"},{7866,7867,"Lu"},{7867,7868,"Ll"},{7868,7869,"Lu"},{7869,7870,"Ll"},{7870,7871,"Lu"},{7871,7872,"Ll"},
{7872,7873,"Lu"},{7873,7874,"Ll"},{7874,7875,"Lu"},{7875,7876,"Ll"},{7876,7877,"Lu"},{7877,7878,"Ll"},{7878,7879,"Lu"},{7879,7880,"Ll"},
{7880,7881,"Lu"},{7881,7882,"Ll"},{7882,7883,"Lu"},{7883,7884,"Ll"},{7884,7885,"Lu"},{7885,7886,"Ll"},{7886,7887,"Lu"},{7887,7888,"Ll"},
{7888,7889,"Lu"},{7889,7890,"Ll"},{7890,7891,"Lu"},{7891,7892,"Ll"},{7892,7893,"Lu"},{7893,7894,"Ll"},{7894,7895,"Lu"},{7895,7896,"Ll"},
{7896,7897,"Lu"},{7897,7898,"Ll"},{7898,7899,"Lu"},{7899,7900,"Ll"},{7900,7901,"Lu"},{7901,7902,"Ll"},{7902,7903,"Lu"},{7903,7904,"Ll"},
{7904,7905,"Lu"},{7905,7906,"Ll"},{7906,7907,"Lu"},{7907,7908,"Ll"},{7908,7909,"Lu"},{7909,7910,"Ll"},{7910,7911,"Lu"},{7911,7912,"Ll"},
{7912,7913,"Lu"},{7913,7914,"Ll"},{7914,7915,"Lu"},{7915,7916,"Ll"},{7916,7917,"Lu"},{7917,7918,"Ll"},{7918,7919,"Lu"},{7919,7920,"Ll"},
{7920,7921,"Lu"},{7921,7922,"Ll"},{7922,7923,"Lu"},{7923,7924,"Ll"},{7924,7925,"Lu"},{7925,7926,"Ll"},{7926,7927,"Lu"},{7927,7928,"Ll"},
{7928,7929,"Lu"},{7929,7930,"Ll"},{7936,7944,"Ll"},{7944,7952,"Lu"},{7952,7958,"Ll"},{7960,7966,"Lu"},{7968,7976,"Ll"},{7976,7984,"Lu"},
{7984,7992,"Ll"},{7992,8000,"Lu"},{8000,8006,"Ll"},{8008,8014,"Lu"},{8016,8024,"Ll"},{8025,8026,"Lu"},{8027,8028,"Lu"},{8029,8030,"Lu"},
{8031,8032,"Lu"},{8032,8040,"Ll"},{8040,8048,"Lu"},{8048,8062,"Ll"},{8064,8072,"Ll"},{8072,8080,"Lt"},{8080,8088,"Ll"},{8088,8096,"Lt"},
{8096,8104,"Ll"},{8104,8112,"Lt"},{8112,8117,"Ll"},{8118,8120,"Ll"},{8120,8124,"Lu"},{8124,8125,"Lt"},{8125,8126,"Sk"},{8126,8127,"Ll"},
{8127,8130,"Sk"},{8130,8133,"Ll"},{8134,8136,"Ll"},{8136,8140,"Lu"},{8140,8141,"Lt"},{8141,8144,"Sk"},{8144,8148,"Ll"},{8150,8152,"Ll"},
{8152,8156,"Lu"},{8157,8160,"Sk"},{8160,8168,"Ll"},{8168,8173,"Lu"},{8173,8176,"Sk"},{8178,8181,"Ll"},{8182,8184,"Ll"},{8184,8188,"Lu"},
{8188,8189,"Lt"},{8189,8191,"Sk"},{8192,8203,"Zs"},{8204,8208,"Cf"},{8208,8214,"Pd"},{8214,8216,"Po"},{8216,8217,"Pi"},{8217,8218,"Pf"},
{8218,8219,"Ps"},{8219,8221,"Pi"},{8221,8222,"Pf"},{8222,8223,"Ps"},{8223,8224,"Pi"},{8224,8232,"Po"},{8232,8233,"Zl"},{8233,8234,"Zp"},
{8234,8239,"Cf"},{8239,8240,"Zs"},{8240,8249,"Po"},{8249,8250,"Pi"},{8250,8251,"Pf"},{8251,8255,"Po"},{8255,8257,"Pc"},{8257,8260,"Po"},
{8260,8261,"Sm"},{8261,8262,"Ps"},{8262,8263,"Pe"},{8263,8274,"Po"},{8274,8275,"Sm"},{8279,8280,"Po"},{8287,8288,"Zs"},{8288,8292,"Cf"},
{8298,8304,"Cf"},{8304,8305,"No"},{8308,8314,"No"},{8314,8317,"Sm"},{8317,8318,"Ps"},{8318,8319,"Pe"},{8320,8330,"No"},{8330,8333,"Sm"},
{8333,8334,"Ps"},{8334,8335,"Pe"},{8352,8370,"Sc"},{8400,8413,"Mn"},{8413,8417,"Me"},{8417,8418,"Mn"},{8418,8421,"Me"},{8421,8427,"Mn"},
{8448,8450,"So"},{8450,8451,"Lu"},{8451,8455,"So"},{8455,8456,"Lu"},{8456,8458,"So"},{8458,8459,"Ll"},{8459,8462,"Lu"},{8462,8464,"Ll"},
{8464,8467,"Lu"},{8467,8468,"Ll"},{8468,8469,"So"},{8469,8470,"Lu"},{8470,8472,"So"},{8473,8478,"Lu"},{8478,8484,"So"},{8484,8485,"Lu"},
{8485,8486,"So"},{8486,8487,"Lu"},{8487,8488,"So"},{8488,8489,"Lu"},{8489,8490,"So"},{8490,8494,"Lu"},{8494,8495,"So"},{8495,8496,"Ll"},
{8496,8498,"Lu"},{8499,8500,"Lu"},{8500,8501,"Ll"},{8501,8505,"Lo"},{8505,8506,"Ll"},{8506,8507,"So"},{8509,8510,"Ll"},{8510,8512,"Lu"},
{8512,8517,"Sm"},{8517,8518,"Lu"},{8518,8522,"Ll"},{8522,8523,"So"},{8523,8524,"Sm"},{8531,8544,"No"},{8544,8579,"Nl"},{8592,8597,"Sm"},
{8597,8602,"So"},{8602,8604,"Sm"},{8604,8608,"So"},{8608,8609,"Sm"},{8609,8611,"So"},{8611,8612,"Sm"},{8612,8614,"So"},{8614,8615,"Sm"},
{8615,8622,"So"},{8622,8623,"Sm"},{8623,8654,"So"},{8654,8656,"Sm"},{8656,8658,"So"},{8658,8659,"Sm"},{8659,8660,"So"},{8660,8661,"Sm"},
{8661,8692,"So"},{8692,8960,"Sm"},{8960,8968,"So"},{8972,8992,"So"},{8992,8994,"Sm"},{8994,9001,"So"},{9001,9002,"Ps"},{9002,9003,"Pe"},
{9003,9084,"So"},{9084,9085,"Sm"},{9085,9115,"So"},{9115,9140,"Sm"},{9143,9167,"So"},{9216,9255,"So"},{9280,9291,"So"},{9312,9372,"No"},
{9372,9450,"So"},{9450,9471,"No"},{9472,9655,"So"},{9655,9656,"Sm"},{9656,9665,"So"},{9665,9666,"Sm"},{9666,9720,"So"},{9720,9728,"Sm"},
{9728,9748,"So"},{9750,9752,"So"},{9753,9839,"So"},{9839,9840,"Sm"},{9840,9854,"So"},{9856,9866,"So"},{9985,9989,"So"},{9990,9994,"So"},
{9996,10024,"So"},{10025,10060,"So"},{10061,10062,"So"},{10063,10067,"So"},{10070,10071,"So"},{10072,10079,"So"},{10081,10088,"So"},
{10088,10089,"Ps"},{10089,10090,"Pe"},{10090,10091,"Ps"},{10091,10092,"Pe"},{10092,10093,"Ps"},{10093,10094,"Pe"},{10094,10095,"Ps"},
{10095,10096,"Pe"},{10096,10097,"Ps"},{10097,10098,"Pe"},{10098,10099,"Ps"},{10099,10100,"Pe"},{10100,10101,"Ps"},{10101,10102,"Pe"},
{10102,10132,"No"},{10132,10133,"So"},{10136,10160,"So"},{10161,10175,"So"},{10192,10214,"Sm"},{10214,10215,"Ps"},{10215,10216,"Pe"},
{10216,10217,"Ps"},{10217,10218,"Pe"},{10218,10219,"Ps"},{10219,10220,"Pe"},{10224,10240,"Sm"},{10240,10496,"So"},{10496,10627,"Sm"},
{10627,10628,"Ps"},{10628,10629,"Pe"},{10629,10630,"Ps"},{10630,10631,"Pe"},{10631,10632,"Ps"},{10632,10633,"Pe"},{10633,10634,"Ps"},
{10634,10635,"Pe"},{10635,10636,"Ps"},{10636,10637,"Pe"},{10637,10638,"Ps"},{10638,10639,"Pe"},{10639,10640,"Ps"},{10640,10641,"Pe"},
{10641,10642,"Ps"},{10642,10643,"Pe"},{10643,10644,"Ps"},{10644,10645,"Pe"},{10645,10646,"Ps"},{10646,10647,"Pe"},{10647,10648,"Ps"},
{10648,10649,"Pe"},{10649,10712,"Sm"},{10712,10713,"Ps"},{10713,10714,"Pe"},{10714,10715,"Ps"},{10715,10716,"Pe"},{10716,10748,"Sm"},
{10748,10749,"Ps"},{10749,10750,"Pe"},{10750,11008,"Sm"},{11904,11930,"So"},{11931,12020,"So"},{12032,12246,"So"},{12272,12284,"So"},
{12288,12289,"Zs"},{12289,12292,"Po"},{12292,12293,"So"},{12293,12294,"Lm"},{12294,12295,"Lo"},{12295,12296,"Nl"},{12296,12297,"Ps"},
{12297,12298,"Pe"},{12298,12299,"Ps"},{12299,12300,"Pe"},{12300,12301,"Ps"},{12301,12302,"Pe"},{12302,12303,"Ps"},{12303,12304,"Pe"},
{12304,12305,"Ps"},{12305,12306,"Pe"},{12306,12308,"So"},{12308,12309,"Ps"},{12309,12310,"Pe"},{12310,12311,"Ps"},{12311,12312,"Pe"},
{12312,12313,"Ps"},{12313,12314,"Pe"},{12314,12315,"Ps"},{12315,12316,"Pe"},{12316,12317,"Pd"},{12317,12318,"Ps"},{12318,12320,"Pe"},
{12320,12321,"So"},{12321,12330,"Nl"},{12330,12334,"Mn"},{12336,12337,"Pd"},{12337,12342,"Lm"},{12342,12344,"So"},{12344,12347,"Nl"},
{12347,12348,"Lm"},{12348,12349,"Lo"},{12349,12350,"Po"},{12350,12352,"So"},{12353,12439,"Lo"},{12441,12443,"Mn"},{12443,12445,"Sk"},
{12445,12447,"Lm"},{12447,12448,"Lo"},{12448,12449,"Pd"},{12449,12539,"Lo"},{12540,12543,"Lm"},{12543,12544,"Lo"},{12549,12589,"Lo"},
{12593,12687,"Lo"},{12688,12690,"So"},{12690,12694,"No"},{12694,12704,"So"},{12704,12728,"Lo"},{12784,12800,"Lo"},{12800,12829,"So"},
{12832,12842,"No"},{12842,12868,"So"},{12881,12896,"No"},{12896,12924,"So"},{12927,12928,"So"},{12928,12938,"No"},{12938,12977,"So"},
{12977,12992,"No"},{12992,13004,"So"},{13008,13055,"So"},{13056,13175,"So"},{13179,13278,"So"},{13280,13311,"So"},{13312,19894,"Lo"},
{19968,40870,"Lo"},{40960,40981,"Lo"},{40982,42125,"Lo"},{42128,42183,"So"},{44032,55204,"Lo"},{55296,57344,"Cs"},{57344,63744,"Co"},
{63744,64046,"Lo"},{64048,64107,"Lo"},{64256,64263,"Ll"},{64275,64280,"Ll"},{64285,64286,"Lo"},{64286,64287,"Mn"},{64287,64297,"Lo"},
{64297,64298,"Sm"},{64298,64311,"Lo"},{64312,64317,"Lo"},{64318,64319,"Lo"},{64320,64322,"Lo"},{64323,64325,"Lo"},{64326,64434,"Lo"},
{64467,64830,"Lo"},{64848,64912,"Lo"},{64914,64968,"Lo"},{65008,65020,"Lo"},{65020,65021,"Sc"},{65024,65040,"Mn"},{65056,65060,"Mn"},
{65072,65073,"Po"},{65073,65075,"Pd"},{65075,65077,"Pc"},{65077,65078,"Ps"},{65078,65079,"Pe"},{65079,65080,"Ps"},{65080,65081,"Pe"},
{65081,65082,"Ps"},{65082,65083,"Pe"},{65083,65084,"Ps"},{65084,65085,"Pe"},{65085,65086,"Ps"},{65086,65087,"Pe"},{65087,65088,"Ps"},
{65088,65089,"Pe"},{65089,65090,"Ps"},{65090,65091,"Pe"},{65091,65092,"Ps"},{65092,65093,"Pe"},{65093,65095,"Po"},{65097,65101,"Po"},
{65101,65104,"Pc"},{65104,65107,"Po"},{65108,65112,"Po"},{65112,65113,"Pd"},{65113,65114,"Ps"},{65114,65115,"Pe"},{65115,65116,"Ps"},
{65116,65117,"Pe"},{65117,65118,"Ps"},{65118,65119,"Pe"},{65119,65122,"Po"},{65122,65123,"Sm"},{65123,65124,"Pd"},{65124,65127,"Sm"},
{65128,65129,"Po"},{65129,65130,"Sc"},{65130,65132,"Po"},{65136,65141,"Lo"},{65142,65277,"Lo"},{65279,65280,"Cf"},{65281,65284,"Po"},
{65284,65285,"Sc"},{65285,65288,"Po"},{65288,65289,"Ps"},{65289,65290,"Pe"},{65290,65291,"Po"},{65291,65292,"Sm"},{65292,65293,"Po"},
{65293,65294,"Pd"},{65294,65296,"Po"},{65296,65306,"Nd"},{65306,65308,"Po"},{65308,65311,"Sm"},{65311,65313,"Po"},{65313,65339,"Lu"},
{65339,65340,"Ps"},{65340,65341,"Po"},{65341,65342,"Pe"},{65342,65343,"Sk"},{65343,65344,"Pc"},{65344,65345,"Sk"},{65345,65371,"Ll"},
{65371,65372,"Ps"},{65372,65373,"Sm"},{65373,65374,"Pe"},{65374,65375,"Sm"},{65375,65376,"Ps"},{65376,65377,"Pe"},{65377,65378,"Po"},
{65378,65379,"Ps"},{65379,65380,"Pe"},{65380,65381,"Po"},{65382,65392,"Lo"},{65392,65393,"Lm"},{65393,65438,"Lo"},{65438,65440,"Lm"},
{65440,65471,"Lo"},{65474,65480,"Lo"},{65482,65488,"Lo"},{65490,65496,"Lo"},{65498,65501,"Lo"},{65504,65506,"Sc"},{65506,65507,"Sm"},
{65507,65508,"Sk"},{65508,65509,"So"},{65509,65511,"Sc"},{65512,65513,"So"},{65513,65517,"Sm"},{65517,65519,"So"},{65529,65532,"Cf"},
{65532,65534,"So"},{66304,66335,"Lo"},{66336,66340,"No"},{66352,66369,"Lo"},{66370,66378,"Lo"},{66378,66379,"Nl"},{66560,66598,"Lu"},
{66600,66638,"Ll"},{118784,119030,"So"},{119040,119079,"So"},{119082,119141,"So"},{119141,119143,"Mc"},{119143,119146,"Mn"},
{119146,119149,"So"},{119149,119155,"Mc"},{119155,119163,"Cf"},{119163,119171,"Mn"},{119171,119173,"So"},{119173,119180,"Mn"},
{119180,119210,"So"},{119210,119214,"Mn"},{119214,119262,"So"},{119808,119834,"Lu"},{119834,119860,"Ll"},{119860,119886,"Lu"},
{119886,119893,"Ll"},{119894,119912,"Ll"},{119912,119938,"Lu"},{119938,119964,"Ll"},{119964,119965,"Lu"},{119966,119968,"Lu"},
{119970,119971,"Lu"},{119973,119975,"Lu"},{119977,119981,"Lu"},{119982,119990,"Lu"},{119990,119994,"Ll"},{119995,119996,"Ll"},
{119997,120001,"Ll"},{120002,120004,"Ll"},{120005,120016,"Ll"},{120016,120042,"Lu"},{120042,120068,"Ll"},{120068,120070,"Lu"},
{120071,120075,"Lu"},{120077,120085,"Lu"},{120086,120093,"Lu"},{120094,120120,"Ll"},{120120,120122,"Lu"},{120123,120127,"Lu"},
{120128,120133,"Lu"},{120134,120135,"Lu"},{120138,120145,"Lu"},{120146,120172,"Ll"},{120172,120198,"Lu"},{120198,120224,"Ll"},
{120224,120250,"Lu"},{120250,120276,"Ll"},{120276,120302,"Lu"},{120302,120328,"Ll"},{120328,120354,"Lu"},{120354,120380,"Ll"},
{120380,120406,"Lu"},{120406,120432,"Ll"},{120432,120458,"Lu"},{120458,120484,"Ll"},{120488,120513,"Lu"},{120513,120514,"Sm"},
{120514,120539,"Ll"},{120539,120540,"Sm"},{120540,120546,"Ll"},{120546,120571,"Lu"},{120571,120572,"Sm"},{120572,120597,"Ll"},
{120597,120598,"Sm"},{120598,120604,"Ll"},{120604,120629,"Lu"},{120629,120630,"Sm"},{120630,120655,"Ll"},{120655,120656,"Sm"},
{120656,120662,"Ll"},{120662,120687,"Lu"},{120687,120688,"Sm"},{120688,120713,"Ll"},{120713,120714,"Sm"},{120714,120720,"Ll"},
{120720,120745,"Lu"},{120745,120746,"Sm"},{120746,120771,"Ll"},{120771,120772,"Sm"},{120772,120778,"Ll"},{120782,120832,"Nd"},
{131072,173783,"Lo"},{194560,195102,"Lo"},{917505,917506,"Cf"},{917536,917632,"Cf"},{983040,1048574,"Co"},{1048576,1114110,"Co"},
    };
    struct casing { char kind; int lower, upper, offset; };
    static const casing cases[] = {
{'L',65,91,32},{'L',192,215,32},{'L',216,223,32},{'L',256,257,1},{'L',258,259,1},{'L',260,261,1},{'L',262,263,1},{'L',264,265,1},
{'L',266,267,1},{'L',268,269,1},{'L',270,271,1},{'L',272,273,1},{'L',274,275,1},{'L',276,277,1},{'L',278,279,1},{'L',280,281,1},
{'L',282,283,1},{'L',284,285,1},{'L',286,287,1},{'L',288,289,1},{'L',290,291,1},{'L',292,293,1},{'L',294,295,1},{'L',296,297,1},
{'L',298,299,1},{'L',300,301,1},{'L',302,303,1},{'L',306,307,1},{'L',308,309,1},{'L',310,311,1},{'L',313,314,1},{'L',315,316,1},
{'L',317,318,1},{'L',319,320,1},{'L',321,322,1},{'L',323,324,1},{'L',325,326,1},{'L',327,328,1},{'L',330,331,1},{'L',332,333,1},
{'L',334,335,1},{'L',336,337,1},{'L',338,339,1},{'L',340,341,1},{'L',342,343,1},{'L',344,345,1},{'L',346,347,1},{'L',348,349,1},
{'L',350,351,1},{'L',352,353,1},{'L',354,355,1},{'L',356,357,1},{'L',358,359,1},{'L',360,361,1},{'L',362,363,1},{'L',364,365,1},
{'L',366,367,1},{'L',368,369,1},{'L',370,371,1},{'L',372,373,1},{'L',374,375,1},{'L',376,377,-121},{'L',377,378,1},{'L',379,380,1},
{'L',381,382,1},{'L',385,386,210},{'L',386,387,1},{'L',388,389,1},{'L',390,391,206},{'L',391,392,1},{'L',393,395,205},{'L',395,396,1},
{'L',398,399,79},{'L',399,400,202},{'L',400,401,203},{'L',401,402,1},{'L',403,404,205},{'L',404,405,207},{'L',406,407,211},
{'L',407,408,209},{'L',408,409,1},{'L',412,413,211},{'L',413,414,213},{'L',415,416,214},{'L',416,417,1},{'L',418,419,1},{'L',420,421,1},
{'L',422,423,218},{'L',423,424,1},{'L',425,426,218},{'L',428,429,1},{'L',430,431,218},{'L',431,432,1},{'L',433,435,217},{'L',435,436,1},
{'L',437,438,1},{'L',439,440,219},{'L',440,441,1},{'L',444,445,1},{'L',452,453,2},{'L',453,454,1},{'L',455,456,2},{'L',456,457,1},
{'L',458,459,2},{'L',459,460,1},{'L',461,462,1},{'L',463,464,1},{'L',465,466,1},{'L',467,468,1},{'L',469,470,1},{'L',471,472,1},
{'L',473,474,1},{'L',475,476,1},{'L',478,479,1},{'L',480,481,1},{'L',482,483,1},{'L',484,485,1},{'L',486,487,1},{'L',488,489,1},
{'L',490,491,1},{'L',492,493,1},{'L',494,495,1},{'L',497,498,2},{'L',498,499,1},{'L',500,501,1},{'L',502,503,-97},{'L',503,504,-56},
{'L',504,505,1},{'L',506,507,1},{'L',508,509,1},{'L',510,511,1},{'L',512,513,1},{'L',514,515,1},{'L',516,517,1},{'L',518,519,1},
{'L',520,521,1},{'L',522,523,1},{'L',524,525,1},{'L',526,527,1},{'L',528,529,1},{'L',530,531,1},{'L',532,533,1},{'L',534,535,1},
{'L',536,537,1},{'L',538,539,1},{'L',540,541,1},{'L',542,543,1},{'L',544,545,-130},{'L',546,547,1},{'L',548,549,1},{'L',550,551,1},
{'L',552,553,1},{'L',554,555,1},{'L',556,557,1},{'L',558,559,1},{'L',560,561,1},{'L',562,563,1},{'L',902,903,38},{'L',904,907,37},
{'L',908,909,64},{'L',910,912,63},{'L',913,930,32},{'L',931,940,32},{'L',984,985,1},{'L',986,987,1},{'L',988,989,1},{'L',990,991,1},
{'L',992,993,1},{'L',994,995,1},{'L',996,997,1},{'L',998,999,1},{'L',1000,1001,1},{'L',1002,1003,1},{'L',1004,1005,1},{'L',1006,1007,1},
{'L',1012,1013,-60},{'L',1024,1040,80},{'L',1040,1072,32},{'L',1120,1121,1},{'L',1122,1123,1},{'L',1124,1125,1},{'L',1126,1127,1},
{'L',1128,1129,1},{'L',1130,1131,1},{'L',1132,1133,1},{'L',1134,1135,1},{'L',1136,1137,1},{'L',1138,1139,1},{'L',1140,1141,1},
{'L',1142,1143,1},{'L',1144,1145,1},{'L',1146,1147,1},{'L',1148,1149,1},{'L',1150,1151,1},{'L',1152,1153,1},{'L',1162,1163,1},
{'L',1164,1165,1},{'L',1166,1167,1},{'L',1168,1169,1},{'L',1170,1171,1},{'L',1172,1173,1},{'L',1174,1175,1},{'L',1176,1177,1},
{'L',1178,1179,1},{'L',1180,1181,1},{'L',1182,1183,1},{'L',1184,1185,1},{'L',1186,1187,1},{'L',1188,1189,1},{'L',1190,1191,1},
{'L',1192,1193,1},{'L',1194,1195,1},{'L',1196,1197,1},{'L',1198,1199,1},{'L',1200,1201,1},{'L',1202,1203,1},{'L',1204,1205,1},
{'L',1206,1207,1},{'L',1208,1209,1},{'L',1210,1211,1},{'L',1212,1213,1},{'L',1214,1215,1},{'L',1217,1218,1},{'L',1219,1220,1},
{'L',1221,1222,1},{'L',1223,1224,1},{'L',1225,1226,1},{'L',1227,1228,1},{'L',1229,1230,1},{'L',1232,1233,1},{'L',1234,1235,1},
{'L',1236,1237,1},{'L',1238,1239,1},{'L',1240,1241,1},{'L',1242,1243,1},{'L',1244,1245,1},{'L',1246,1247,1},{'L',1248,1249,1},
{'L',1250,1251,1},{'L',1252,1253,1},{'L',1254,1255,1},{'L',1256,1257,1},{'L',1258,1259,1},{'L',1260,1261,1},{'L',1262,1263,1},
{'L',1264,1265,1},{'L',1266,1267,1},{'L',1268,1269,1},{'L',1272,1273,1},{'L',1280,1281,1},{'L',1282,1283,1},{'L',1284,1285,1},
{'L',1286,1287,1},{'L',1288,1289,1},{'L',1290,1291,1},{'L',1292,1293,1},{'L',1294,1295,1},{'L',1329,1367,48},{'L',7680,7681,1},
{'L',7682,7683,1},{'L',7684,7685,1},{'L',7686,7687,1},{'L',7688,7689,1},{'L',7690,7691,1},{'L',7692,7693,1},{'L',7694,7695,1},
{'L',7696,7697,1},{'L',7698,7699,1},{'L',7700,7701,1},{'L',7702,7703,1},{'L',7704,7705,1},{'L',7706,7707,1},{'L',7708,7709,1},
{'L',7710,7711,1},{'L',7712,7713,1},{'L',7714,7715,1},{'L',7716,7717,1},{'L',7718,7719,1},{'L',7720,7721,1},{'L',7722,7723,1},
{'L',7724,7725,1},{'L',7726,7727,1},{'L',7728,7729,1},{'L',7730,7731,1},{'L',7732,7733,1},{'L',7734,7735,1},{'L',7736,7737,1},
{'L',7738,7739,1},{'L',7740,7741,1},{'L',7742,7743,1},{'L',7744,7745,1},{'L',7746,7747,1},{'L',7748,7749,1},{'L',7750,7751,1},
{'L',7752,7753,1},{'L',7754,7755,1},{'L',7756,7757,1},{'L',7758,7759,1},{'L',7760,7761,1},{'L',7762,7763,1},{'L',7764,7765,1},
{'L',7766,7767,1},{'L',7768,7769,1},{'L',7770,7771,1},{'L',7772,7773,1},{'L',7774,7775,1},{'L',7776,7777,1},{'L',7778,7779,1},
{'L',7780,7781,1},{'L',7782,7783,1},{'L',7784,7785,1},{'L',7786,7787,1},{'L',7788,7789,1},{'L',7790,7791,1},{'L',7792,7793,1},
{'L',7794,7795,1},{'L',7796,7797,1},{'L',7798,7799,1},{'L',7800,7801,1},{'L',7802,7803,1},{'L',7804,7805,1},{'L',7806,7807,1},
{'L',7808,7809,1},{'L',7810,7811,1},{'L',7812,7813,1},{'L',7814,7815,1},{'L',7816,7817,1},{'L',7818,7819,1},{'L',7820,7821,1},
{'L',7822,7823,1},{'L',7824,7825,1},{'L',7826,7827,1},{'L',7828,7829,1},{'L',7840,7841,1},{'L',7842,7843,1},{'L',7844,7845,1},
{'L',7846,7847,1},{'L',7848,7849,1},{'L',7850,7851,1},{'L',7852,7853,1},{'L',7854,7855,1},{'L',7856,7857,1},{'L',7858,7859,1},
{'L',7860,7861,1},{'L',7862,7863,1},{'L',7864,7865,1},{'L',7866,7867,1},{'L',7868,7869,1},{'L',7870,7871,1},{'L',7872,7873,1},
{'L',7874,7875,1},{'L',7876,7877,1},{'L',7878,7879,1},{'L',7880,7881,1},{'L',7882,7883,1},{'L',7884,7885,1},{'L',7886,7887,1},
{'L',7888,7889,1},{'L',7890,7891,1},{'L',7892,7893,1},{'L',7894,7895,1},{'L',7896,7897,1},{'L',7898,7899,1},{'L',7900,7901,1},
{'L',7902,7903,1},{'L',7904,7905,1},{'L',7906,7907,1},{'L',7908,7909,1},{'L',7910,7911,1},{'L',7912,7913,1},{'L',7914,7915,1},
{'L',7916,7917,1},{'L',7918,7919,1},{'L',7920,7921,1},{'L',7922,7923,1},{'L',7924,7925,1},{'L',7926,7927,1},{'L',7928,7929,1},
{'L',7944,7952,-8},{'L',7960,7966,-8},{'L',7976,7984,-8},{'L',7992,8000,-8},{'L',8008,8014,-8},{'L',8025,8026,-8},{'L',8027,8028,-8},
{'L',8029,8030,-8},{'L',8031,8032,-8},{'L',8040,8048,-8},{'L',8072,8080,-8},{'L',8088,8096,-8},{'L',8104,8112,-8},{'L',8120,8122,-8},
{'L',8122,8124,-74},{'L',8124,8125,-9},{'L',8136,8140,-86},{'L',8140,8141,-9},{'L',8152,8154,-8},{'L',8154,8156,-100},{'L',8168,8170,-8},
{'L',8170,8172,-112},{'L',8172,8173,-7},{'L',8184,8186,-128},{'L',8186,8188,-126},{'L',8188,8189,-9},{'L',8486,8487,-7517},
{'L',8490,8491,-8383},{'L',8491,8492,-8262},{'L',8544,8560,16},{'L',9398,9424,26},{'L',65313,65339,32},{'L',66560,66598,40},
{'U',97,123,-32},{'U',181,182,743},{'U',224,247,-32},{'U',248,255,-32},{'U',255,256,121},{'U',257,258,-1},{'U',259,260,-1},{'U',261,262,-1},
{'U',263,264,-1},{'U',265,266,-1},{'U',267,268,-1},{'U',269,270,-1},{'U',271,272,-1},{'U',273,274,-1},{'U',275,276,-1},{'U',277,278,-1},
{'U',279,280,-1},{'U',281,282,-1},{'U',283,284,-1},{'U',285,286,-1},{'U',287,288,-1},{'U',289,290,-1},{'U',291,292,-1},{'U',293,294,-1},
{'U',295,296,-1},{'U',297,298,-1},{'U',299,300,-1},{'U',301,302,-1},{'U',303,304,-1},{'U',305,306,-232},{'U',307,308,-1},{'U',309,310,-1},
{'U',311,312,-1},{'U',314,315,-1},{'U',316,317,-1},{'U',318,319,-1},{'U',320,321,-1},{'U',322,323,-1},{'U',324,325,-1},{'U',326,327,-1},
{'U',328,329,-1},{'U',331,332,-1},{'U',333,334,-1},{'U',335,336,-1},{'U',337,338,-1},{'U',339,340,-1},{'U',341,342,-1},{'U',343,344,-1},
{'U',345,346,-1},{'U',347,348,-1},{'U',349,350,-1},{'U',351,352,-1},{'U',353,354,-1},{'U',355,356,-1},{'U',357,358,-1},{'U',359,360,-1},
{'U',361,362,-1},{'U',363,364,-1},{'U',365,366,-1},{'U',367,368,-1},{'U',369,370,-1},{'U',371,372,-1},{'U',373,374,-1},{'U',375,376,-1},
{'U',378,379,-1},{'U',380,381,-1},{'U',382,383,-1},{'U',383,384,-300},{'U',387,388,-1},{'U',389,390,-1},{'U',392,393,-1},{'U',396,397,-1},
{'U',402,403,-1},{'U',405,406,97},{'U',409,410,-1},{'U',414,415,130},{'U',417,418,-1},{'U',419,420,-1},{'U',421,422,-1},{'U',424,425,-1},
{'U',429,430,-1},{'U',432,433,-1},{'U',436,437,-1},{'U',438,439,-1},{'U',441,442,-1},{'U',445,446,-1},{'U',447,448,56},{'U',453,454,-1},
{'U',454,455,-2},{'U',456,457,-1},{'U',457,458,-2},{'U',459,460,-1},{'U',460,461,-2},{'U',462,463,-1},{'U',464,465,-1},{'U',466,467,-1},
{'U',468,469,-1},{'U',470,471,-1},{'U',472,473,-1},{'U',474,475,-1},{'U',476,477,-1},{'U',477,478,-79},{'U',479,480,-1},{'U',481,482,-1},
{'U',483,484,-1},{'U',485,486,-1},{'U',487,488,-1},{'U',489,490,-1},{'U',491,492,-1},{'U',493,494,-1},{'U',495,496,-1},{'U',498,499,-1},
{'U',499,500,-2},{'U',501,502,-1},{'U',505,506,-1},{'U',507,508,-1},{'U',509,510,-1},{'U',511,512,-1},{'U',513,514,-1},{'U',515,516,-1},
{'U',517,518,-1},{'U',519,520,-1},{'U',521,522,-1},{'U',523,524,-1},{'U',525,526,-1},{'U',527,528,-1},{'U',529,530,-1},{'U',531,532,-1},
{'U',533,534,-1},{'U',535,536,-1},{'U',537,538,-1},{'U',539,540,-1},{'U',541,542,-1},{'U',543,544,-1},{'U',547,548,-1},{'U',549,550,-1},
{'U',551,552,-1},{'U',553,554,-1},{'U',555,556,-1},{'U',557,558,-1},{'U',559,560,-1},{'U',561,562,-1},{'U',563,564,-1},{'U',595,596,-210},
{'U',596,597,-206},{'U',598,600,-205},{'U',601,602,-202},{'U',603,604,-203},{'U',608,609,-205},{'U',611,612,-207},{'U',616,617,-209},
{'U',617,618,-211},{'U',623,624,-211},{'U',626,627,-213},{'U',629,630,-214},{'U',640,641,-218},{'U',643,644,-218},{'U',648,649,-218},
{'U',650,652,-217},{'U',658,659,-219},{'U',837,838,84},{'U',940,941,-38},{'U',941,944,-37},{'U',945,962,-32},{'U',962,963,-31},
{'U',963,972,-32},{'U',972,973,-64},{'U',973,975,-63},{'U',976,977,-62},{'U',977,978,-57},{'U',981,982,-47},{'U',982,983,-54},
{'U',985,986,-1},{'U',987,988,-1},{'U',989,990,-1},{'U',991,992,-1},{'U',993,994,-1},{'U',995,996,-1},{'U',997,998,-1},{'U',999,1000,-1},
{'U',1001,1002,-1},{'U',1003,1004,-1},{'U',1005,1006,-1},{'U',1007,1008,-1},{'U',1008,1009,-86},{'U',1009,1010,-80},{'U',1013,1014,-96},
{'U',1072,1104,-32},{'U',1104,1120,-80},{'U',1121,1122,-1},{'U',1123,1124,-1},{'U',1125,1126,-1},{'U',1127,1128,-1},{'U',1129,1130,-1},
{'U',1131,1132,-1},{'U',1133,1134,-1},{'U',1135,1136,-1},{'U',1137,1138,-1},{'U',1139,1140,-1},{'U',1141,1142,-1},{'U',1143,1144,-1},
{'U',1145,1146,-1},{'U',1147,1148,-1},{'U',1149,1150,-1},{'U',1151,1152,-1},{'U',1153,1154,-1},{'U',1163,1164,-1},{'U',1165,1166,-1},
{'U',1167,1168,-1},{'U',1169,1170,-1},{'U',1171,1172,-1},{'U',1173,1174,-1},{'U',1175,1176,-1},{'U',1177,1178,-1},{'U',1179,1180,-1},
{'U',1181,1182,-1},{'U',1183,1184,-1},{'U',1185,1186,-1},{'U',1187,1188,-1},{'U',1189,1190,-1},{'U',1191,1192,-1},{'U',1193,1194,-1},
{'U',1195,1196,-1},{'U',1197,1198,-1},{'U',1199,1200,-1},{'U',1201,1202,-1},{'U',1203,1204,-1},{'U',1205,1206,-1},{'U',1207,1208,-1},
{'U',1209,1210,-1},{'U',1211,1212,-1},{'U',1213,1214,-1},{'U',1215,1216,-1},{'U',1218,1219,-1},{'U',1220,1221,-1},{'U',1222,1223,-1},
{'U',1224,1225,-1},{'U',1226,1227,-1},{'U',1228,1229,-1},{'U',1230,1231,-1},{'U',1233,1234,-1},{'U',1235,1236,-1},{'U',1237,1238,-1},
{'U',1239,1240,-1},{'U',1241,1242,-1},{'U',1243,1244,-1},{'U',1245,1246,-1},{'U',1247,1248,-1},{'U',1249,1250,-1},{'U',1251,1252,-1},
{'U',1253,1254,-1},{'U',1255,1256,-1},{'U',1257,1258,-1},{'U',1259,1260,-1},{'U',1261,1262,-1},{'U',1263,1264,-1},{'U',1265,1266,-1},
{'U',1267,1268,-1},{'U',1269,1270,-1},{'U',1273,1274,-1},{'U',1281,1282,-1},{'U',1283,1284,-1},{'U',1285,1286,-1},{'U',1287,1288,-1},
{'U',1289,1290,-1},{'U',1291,1292,-1},{'U',1293,1294,-1},{'U',1295,1296,-1},{'U',1377,1415,-48},{'U',7681,7682,-1},{'U',7683,7684,-1},
{'U',7685,7686,-1},{'U',7687,7688,-1},{'U',7689,7690,-1},{'U',7691,7692,-1},{'U',7693,7694,-1},{'U',7695,7696,-1},{'U',7697,7698,-1},
{'U',7699,7700,-1},{'U',7701,7702,-1},{'U',7703,7704,-1},{'U',7705,7706,-1},{'U',7707,7708,-1},{'U',7709,7710,-1},{'U',7711,7712,-1},
{'U',7713,7714,-1},{'U',7715,7716,-1},{'U',7717,7718,-1},{'U',7719,7720,-1},{'U',7721,7722,-1},{'U',7723,7724,-1},{'U',7725,7726,-1},
{'U',7727,7728,-1},{'U',7729,7730,-1},{'U',7731,7732,-1},{'U',7733,7734,-1},{'U',7735,7736,-1},{'U',7737,7738,-1},{'U',7739,7740,-1},
{'U',7741,7742,-1},{'U',7743,7744,-1},{'U',7745,7746,-1},{'U',7747,7748,-1},{'U',7749,7750,-1},{'U',7751,7752,-1},{'U',7753,7754,-1},
{'U',7755,7756,-1},{'U',7757,7758,-1},{'U',7759,7760,-1},{'U',7761,7762,-1},{'U',7763,7764,-1},{'U',7765,7766,-1},{'U',7767,7768,-1},
{'U',7769,7770,-1},{'U',7771,7772,-1},{'U',7773,7774,-1},{'U',7775,7776,-1},{'U',7777,7778,-1},{'U',7779,7780,-1},{'U',7781,7782,-1},
{'U',7783,7784,-1},{'U',7785,7786,-1},{'U',7787,7788,-1},{'U',7789,7790,-1},{'U',7791,7792,-1},{'U',7793,7794,-1},{'U',7795,7796,-1},
{'U',7797,7798,-1},{'U',7799,7800,-1},{'U',7801,7802,-1},{'U',7803,7804,-1},{'U',7805,7806,-1},{'U',7807,7808,-1},{'U',7809,7810,-1},
{'U',7811,7812,-1},{'U',7813,7814,-1},{'U',7815,7816,-1},{'U',7817,7818,-1},{'U',7819,7820,-1},{'U',7821,7822,-1},{'U',7823,7824,-1},
{'U',7825,7826,-1},{'U',7827,7828,-1},{'U',7829,7830,-1},{'U',7835,7836,-59},{'U',7841,7842,-1},{'U',7843,7844,-1},{'U',7845,7846,-1},
{'U',7847,7848,-1},{'U',7849,7850,-1},{'U',7851,7852,-1},{'U',7853,7854,-1},{'U',7855,7856,-1},{'U',7857,7858,-1},{'U',7859,7860,-1},
{'U',7861,7862,-1},{'U',7863,7864,-1},{'U',7865,7866,-1},{'U',7867,7868,-1},{'U',7869,7870,-1},{'U',7871,7872,-1},{'U',7873,7874,-1},
{'U',7875,7876,-1},{'U',7877,7878,-1},{'U',7879,7880,-1},{'U',7881,7882,-1},{'U',7883,7884,-1},{'U',7885,7886,-1},{'U',7887,7888,-1},
{'U',7889,7890,-1},{'U',7891,7892,-1},{'U',7893,7894,-1},{'U',7895,7896,-1},{'U',7897,7898,-1},{'U',7899,7900,-1},{'U',7901,7902,-1},
{'U',7903,7904,-1},{'U',7905,7906,-1},{'U',7907,7908,-1},{'U',7909,7910,-1},{'U',7911,7912,-1},{'U',7913,7914,-1},{'U',7915,7916,-1},
{'U',7917,7918,-1},{'U',7919,7920,-1},{'U',7921,7922,-1},{'U',7923,7924,-1},{'U',7925,7926,-1},{'U',7927,7928,-1},{'U',7929,7930,-1},
{'U',7936,7944,8},{'U',7952,7958,8},{'U',7968,7976,8},{'U',7984,7992,8},{'U',8000,8006,8},{'U',8017,8018,8},{'U',8019,8020,8},
{'U',8021,8022,8},{'U',8023,8024,8},{'U',8032,8040,8},{'U',8048,8050,74},{'U',8050,8054,86},{'U',8054,8056,100},{'U',8056,8058,128},
{'U',8058,8060,112},{'U',8060,8062,126},{'U',8112,8114,8},{'U',8126,8127,-7205},{'U',8144,8146,8},{'U',8160,8162,8},{'U',8165,8166,7},
{'U',8560,8576,-16},{'U',9424,9450,-26},{'U',65345,65371,-32},{'U',66600,66638,-40},
    };
}
#endif
