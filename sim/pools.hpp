// generated by tools/mkpools.py
static const int pool_canon[] = {192,193,194,195,196,197,199,200,201,202,203,204,205,206,207,209,210,211,212,213,214,217,218,219,220,221,224,225,226,227,228,229,231,232,233,234,235,236,237,238,239,241,242,243,244,245,246,249,250,251,252,253,255,256,257,258,259,260,261,262,263,264,265,266,267,268,269,270,271,274,275,276,277,278,279,280,281,282,283,284,285,286,287,288,289,290,291,292,293,296,297,298,299,300,301,302,303,304,308,309,310,311,313,314,315,316,317,318,323,324,325,326,327,328,332,333,334,335,336,337,340,341,342,343,344,345,346,347,348,349,350,351,352,353,354,355,356,357,360,361,362,363,364,365,366,367,368,369,370,371,372,373,374,375,376,377,378,379,380,381,382,416,417,431,432,461,462,463,464,465,466,467,468,469,470,471,472,473,474,475,476,478,479,480,481,482,483,486,487,488,489,490,491,492,493,494,495,496,500,501,504,505,506,507,508,509,510,511,512,513,514,515,516,517,518,519,520,521,522,523,524,525,526,527,528,529,530,531,532,533,534,535,536,537,538,539,542,543,550,551,552,553,554,555,556,557,558,559,560,561,562,563,832,833,835,836,884,894,901,902,903,904,905,906,908,910,911,912,938,939,940,941,942,943,944,970,971,972,973,974,979,980,1024,1025,1027,1031,1036,1037,1038,1049,1081,1104,1105,1107,1111,1116,1117,1118,1142,1143,1217,1218,1232,1233,1234,1235,1238,1239,1242,1243,1244,1245,1246,1247,1250,1251,1252,1253,1254,1255,1258,1259,1260,1261,1262,1263,1264,1265,1266,1267,1268,1269,1272,1273,1570,1571,1572,1573,1574,1728,1730,1747,2345,2353,2356,2392,2393,2394,2395,2396,2397,2398,2399,2507,2508,2524,2525,2527,2611,2614,2649,2650,2651,2654,2888,2891,2892,2908,2909,2964,3018,3019,3020,3144,3264,3271,3272,3274,3275,3402,3403,3404,3546,3548,3549,3550,3907,3917,3922,3927,3932,3945,3955,3957,3958,3960,3969,3987,3997,4002,4007,4012,4025,4134,6918,6920,6922,6924,6926,6930,6971,6973,6976,6977,6979,7680,7681,7682,7683,7684,7685,7686,7687,7688,7689,7690,7691,7692,7693,7694,7695,7696,7697,7698,7699,7700,7701,7702,7703,7704,7705,7706,7707,7708,7709,7710,7711,7712,7713,7714,7715,7716,7717,7718,7719,7720,7721,7722,7723,7724,7725,7726,7727,7728,7729,7730,7731,7732,7733,7734,7735,7736,7737,7738,7739,7740,7741,7742,7743,7744,7745,7746,7747,7748,7749,7750,7751,7752,7753,7754,7755,7756,7757,7758,7759,7760,7761,7762,7763,7764,7765,7766,7767,7768,7769,7770,7771,7772,7773,7774,7775,7776,7777,7778,7779,7780,7781,7782,7783,7784,7785,7786,7787,7788,7789,7790,7791,7792,7793,7794,7795,7796,7797,7798,7799,7800,7801,7802,7803,7804,7805,7806,7807,7808,7809,7810,7811,7812,7813,7814,7815,7816,7817,7818,7819,7820,7821,7822,7823,7824,7825,7826,7827,7828,7829,7830,7831,7832,7833,7835,7840,7841,7842,7843,7844,7845,7846,7847,7848,7849,7850,7851,7852,7853,7854,7855,7856,7857,7858,7859,7860,7861,7862,7863,7864,7865,7866,7867,7868,7869,7870,7871,7872,7873,7874,7875,7876,7877,7878,7879,7880,7881,7882,7883,7884,7885,7886,7887,7888,7889,7890,7891,7892,7893,7894,7895,7896,7897,7898,7899,7900,7901,7902,7903,7904,7905,7906,7907,7908,7909,7910,7911,7912,7913,7914,7915,7916,7917,7918,7919,7920,7921,7922,7923,7924,7925,7926,7927,7928,7929,7936,7937,7938,7939,7940,7941,7942,7943,7944,7945,7946,7947,7948,7949,7950,7951,7952,7953,7954,7955,7956,7957,7960,7961,7962,7963,7964,7965,7968,7969,7970,7971,7972,7973,7974,7975,7976,7977,7978,7979,7980,7981,7982,7983,7984,7985,7986,7987,7988,7989,7990,7991,7992,7993,7994,7995,7996,7997,7998,7999,8000,8001,8002,8003,8004,8005,8008,8009,8010,8011,8012,8013,8016,8017,8018,8019,8020,8021,8022,8023,8025,8027,8029,8031,8032,8033,8034,8035,8036,8037,8038,8039,8040,8041,8042,8043,8044,8045,8046,8047,8048,8049,8050,8051,8052,8053,8054,8055,8056,8057,8058,8059,8060,8061,8064,8065,8066,8067,8068,8069,8070,8071,8072,8073,8074,8075,8076,8077,8078,8079,8080,8081,8082,8083,8084,8085,8086,8087,8088,8089,8090,8091,8092,8093,8094,8095,8096,8097,8098,8099,8100,8101,8102,8103,8104,8105,8106,8107,8108,8109,8110,8111,8112,8113,8114,8115,8116,8118,8119,8120,8121,8122,8123,8124,8126,8129,8130,8131,8132,8134,8135,8136,8137,8138,8139,8140,8141,8142,8143,8144,8145,8146,8147,8150,8151,8152,8153,8154,8155,8157,8158,8159,8160,8161,8162,8163,8164,8165,8166,8167,8168,8169,8170,8171,8172,8173,8174,8175,8178,8179,8180,8182,8183,8184,8185,8186,8187,8188,8189,8192,8193,8486,8490,8491,8602,8603,8622,8653,8654,8655,8708,8713,8716,8740,8742,8769,8772,8775,8777,8800,8802,8813,8814,8815,8816,8817,8820,8821,8824,8825,8832,8833,8836,8837,8840,8841,8876,8877,8878,8879,8928,8929,8930,8931,8938,8939,8940,8941,9001,9002,10972,12364,12366,12368,12370,12372,12374,12376,12378,12380,12382,12384,12386,12389,12391,12393,12400,12401,12403,12404,12406,12407,12409,12410,12412,12413,12436,12446,12460,12462,12464,12466,12468,12470,12472,12474,12476,12478,12480,12482,12485,12487,12489,12496,12497,12499,12500,12502,12503,12505,12506,12508,12509,12532,12535,12536,12537,12538,12542,63744,63745,63746,63747,63748,63749,63750,63751,63752,63753,63754,63755,63756,63757,63758,63759,63760,63761,63762,63763,63764,63765,63766,63767,63768,63769,63770,63771,63772,63773,63774,63775,63776,63777,63778,63779,63780,63781,63782,63783,63784,63785,63786,63787,63788,63789,63790,63791,63792,63793,63794,63795,63796,63797,63798,63799,63800,63801,63802,63803,63804,63805,63806,63807,63808,63809,63810,63811,63812,63813,63814,63815,63816,63817,63818,63819,63820,63821,63822,63823,63824,63825,63826,63827,63828,63829,63830,63831,63832,63833,63834,63835,63836,63837,63838,63839,63840,63841,63842,63843,63844,63845,63846,63847,63848,63849,63850,63851,63852,63853,63854,63855,63856,63857,63858,63859,63860,63861,63862,63863,63864,63865,63866,63867,63868,63869,63870,63871,63872,63873,63874,63875,63876,63877,63878,63879,63880,63881,63882,63883,63884,63885,63886,63887,63888,63889,63890,63891,63892,63893,63894,63895,63896,63897,63898,63899,63900,63901,63902,63903,63904,63905,63906,63907,63908,63909,63910,63911,63912,63913,63914,63915,63916,63917,63918,63919,63920,63921,63922,63923,63924,63925,63926,63927,63928,63929,63930,63931,63932,63933,63934,63935,63936,63937,63938,63939,63940,63941,63942,63943,63944,63945,63946,63947,63948,63949,63950,63951,63952,63953,63954,63955,63956,63957,63958,63959,63960,63961,63962,63963,63964,63965,63966,63967,63968,63969,63970,63971,63972,63973,63974,63975,63976,63977,63978,63979,63980,63981,63982,63983,63984,63985,63986,63987,63988,63989,63990,63991,63992,63993,63994,63995,63996,63997,63998,63999,64000,64001,64002,64003,64004,64005,64006,64007,64008,64009,64010,64011,64012,64013,64016,64018,64021,64022,64023,64024,64025,64026,64027,64028,64029,64030,64032,64034,64037,64038,64042,64043,64044,64045,64046,64047,64048,64049,64050,64051,64052,64053,64054,64055,64056,64057,64058,64059,64060,64061,64062,64063,64064,64065,64066,64067,64068,64069,64070,64071,64072,64073,64074,64075,64076,64077,64078,64079,64080,64081,64082,64083,64084,64085,64086,64087,64088,64089,64090,64091,64092,64093,64094,64095,64096,64097,64098,64099,64100,64101,64102,64103,64104,64105,64106,64107,64108,64109,64112,64113,64114,64115,64116,64117,64118,64119,64120,64121,64122,64123,64124,64125,64126,64127,64128,64129,64130,64131,64132,64133,64134,64135,64136,64137,64138,64139,64140,64141,64142,64143,64144,64145,64146,64147,64148,64149,64150,64151,64152,64153,64154,64155,64156,64157,64158,64159,64160,64161,64162,64163,64164,64165,64166,64167,64168,64169,64170,64171,64172,64173,64174,64175,64176,64177,64178,64179,64180,64181,64182,64183,64184,64185,64186,64187,64188,64189,64190,64191,64192,64193,64194,64195,64196,64197,64198,64199,64200,64201,64202,64203,64204,64205,64206,64207,64208,64209,64210,64211,64212,64213,64214,64215,64216,64217,64285,64287,64298,64299,64300,64301,64302,64303,64304,64305,64306,64307,64308,64309,64310,64312,64313,64314,64315,64316,64318,64320,64321,64323,64324,64326,64327,64328,64329,64330,64331,64332,64333,64334,69786,69788,69803,69934,69935,70475,70476,70843,70844,70846,71098,71099,119134,119135,119136,119137,119138,119139,119140,119227,119228,119229,119230,119231,119232,194560,194561,194562,194563,194564,194565,194566,194567,194568,194569,194570,194571,194572,194573,194574,194575,194576,194577,194578,194579,194580,194581,194582,194583,194584,194585,194586,194587,194588,194589,194590,194591,194592,194593,194594,194595,194596,194597,194598,194599,194600,194601,194602,194603,194604,194605,194606,194607,194608,194609,194610,194611,194612,194613,194614,194615,194616,194617,194618,194619,194620,194621,194622,194623,194624,194625,194626,194627,194628,194629,194630,194631,194632,194633,194634,194635,194636,194637,194638,194639,194640,194641,194642,194643,194644,194645,194646,194647,194648,194649,194650,194651,194652,194653,194654,194655,194656,194657,194658,194659,194660,194661,194662,194663,194664,194665,194666,194667,194668,194669,194670,194671,194672,194673,194674,194675,194676,194677,194678,194679,194680,194681,194682,194683,194684,194685,194686,194687,194688,194689,194690,194691,194692,194693,194694,194695,194696,194697,194698,194699,194700,194701,194702,194703,194704,194705,194706,194707,194708,194709,194710,194711,194712,194713,194714,194715,194716,194717,194718,194719,194720,194721,194722,194723,194724,194725,194726,194727,194728,194729,194730,194731,194732,194733,194734,194735,194736,194737,194738,194739,194740,194741,194742,194743,194744,194745,194746,194747,194748,194749,194750,194751,194752,194753,194754,194755,194756,194757,194758,194759,194760,194761,194762,194763,194764,194765,194766,194767,194768,194769,194770,194771,194772,194773,194774,194775,194776,194777,194778,194779,194780,194781,194782,194783,194784,194785,194786,194787,194788,194789,194790,194791,194792,194793,194794,194795,194796,194797,194798,194799,194800,194801,194802,194803,194804,194805,194806,194807,194808,194809,194810,194811,194812,194813,194814,194815,194816,194817,194818,194819,194820,194821,194822,194823,194824,194825,194826,194827,194828,194829,194830,194831,194832,194833,194834,194835,194836,194837,194838,194839,194840,194841,194842,194843,194844,194845,194846,194847,194848,194849,194850,194851,194852,194853,194854,194855,194856,194857,194858,194859,194860,194861,194862,194863,194864,194865,194866,194867,194868,194869,194870,194871,194872,194873,194874,194875,194876,194877,194878,194879,194880,194881,194882,194883,194884,194885,194886,194887,194888,194889,194890,194891,194892,194893,194894,194895,194896,194897,194898,194899,194900,194901,194902,194903,194904,194905,194906,194907,194908,194909,194910,194911,194912,194913,194914,194915,194916,194917,194918,194919,194920,194921,194922,194923,194924,194925,194926,194927,194928,194929,194930,194931,194932,194933,194934,194935,194936,194937,194938,194939,194940,194941,194942,194943,194944,194945,194946,194947,194948,194949,194950,194951,194952,194953,194954,194955,194956,194957,194958,194959,194960,194961,194962,194963,194964,194965,194966,194967,194968,194969,194970,194971,194972,194973,194974,194975,194976,194977,194978,194979,194980,194981,194982,194983,194984,194985,194986,194987,194988,194989,194990,194991,194992,194993,194994,194995,194996,194997,194998,194999,195000,195001,195002,195003,195004,195005,195006,195007,195008,195009,195010,195011,195012,195013,195014,195015,195016,195017,195018,195019,195020,195021,195022,195023,195024,195025,195026,195027,195028,195029,195030,195031,195032,195033,195034,195035,195036,195037,195038,195039,195040,195041,195042,195043,195044,195045,195046,195047,195048,195049,195050,195051,195052,195053,195054,195055,195056,195057,195058,195059,195060,195061,195062,195063,195064,195065,195066,195067,195068,195069,195070,195071,195072,195073,195074,195075,195076,195077,195078,195079,195080,195081,195082,195083,195084,195085,195086,195087,195088,195089,195090,195091,195092,195093,195094,195095,195096,195097,195098,195099,195100,195101};
static const int n_pool_canon = 2060;
static const int pool_multi[] = {469,470,471,472,473,474,475,476,478,479,480,481,492,493,506,507,554,555,556,557,560,561,912,944,3275,3549,7688,7689,7700,7701,7702,7703,7708,7709,7726,7727,7736,7737,7756,7757,7758,7759,7760,7761,7762,7763,7772,7773,7780,7781,7782,7783,7784,7785,7800,7801,7802,7803,7844,7845,7846,7847,7848,7849,7850,7851,7852,7853,7854,7855,7856,7857,7858,7859,7860,7861,7862,7863,7870,7871,7872,7873,7874,7875,7876,7877,7878,7879,7888,7889,7890,7891,7892,7893,7894,7895,7896,7897,7898,7899,7900,7901,7902,7903,7904,7905,7906,7907,7912,7913,7914,7915,7916,7917,7918,7919,7920,7921,7938,7939,7940,7941,7942,7943,7946,7947,7948,7949,7950,7951,7954,7955,7956,7957,7962,7963,7964,7965,7970,7971,7972,7973,7974,7975,7978,7979,7980,7981,7982,7983,7986,7987,7988,7989,7990,7991,7994,7995,7996,7997,7998,7999,8002,8003,8004,8005,8010,8011,8012,8013,8018,8019,8020,8021,8022,8023,8027,8029,8031,8034,8035,8036,8037,8038,8039,8042,8043,8044,8045,8046,8047,8064,8065,8066,8067,8068,8069,8070,8071,8072,8073,8074,8075,8076,8077,8078,8079,8080,8081,8082,8083,8084,8085,8086,8087,8088,8089,8090,8091,8092,8093,8094,8095,8096,8097,8098,8099,8100,8101,8102,8103,8104,8105,8106,8107,8108,8109,8110,8111,8114,8116,8119,8130,8132,8135,8146,8147,8151,8162,8163,8167,8178,8180,8183,64300,64301,119136,119137,119138,119139,119140,119229,119230,119231,119232};
static const int n_pool_multi = 265;
static const int pool_single[] = {832,835,894,8126,8189,8193,8490,9002,63745,63747,63749,63751,63753,63755,63757,63759,63761,63763,63765,63767,63769,63771,63773,63775,63777,63779,63781,63783,63785,63787,63789,63791,63793,63795,63797,63799,63801,63803,63805,63807,63809,63811,63813,63815,63817,63819,63821,63823,63825,63827,63829,63831,63833,63835,63837,63839,63841,63843,63845,63847,63849,63851,63853,63855,63857,63859,63861,63863,63865,63867,63869,63871,63873,63875,63877,63879,63881,63883,63885,63887,63889,63891,63893,63895,63897,63899,63901,63903,63905,63907,63909,63911,63913,63915,63917,63919,63921,63923,63925,63927,63929,63931,63933,63935,63937,63939,63941,63943,63945,63947,63949,63951,63953,63955,63957,63959,63961,63963,63965,63967,63969,63971,63973,63975,63977,63979,63981,63983,63985,63987,63989,63991,63993,63995,63997,63999,64001,64003,64005,64007,64009,64011,64013,64018,64022,64024,64026,64028,64030,64034,64038,64043,64045,64047,64049,64051,64053,64055,64057,64059,64061,64063,64065,64067,64069,64071,64073,64075,64077,64079,64081,64083,64085,64087,64089,64091,64093,64095,64097,64099,64101,64103,64105,64107,64109,64113,64115,64117,64119,64121,64123,64125,64127,64129,64131,64133,64135,64137,64139,64141,64143,64145,64147,64149,64151,64153,64155,64157,64159,64161,64163,64165,64167,64169,64171,64173,64175,64177,64179,64181,64183,64185,64187,64189,64191,64193,64195,64197,64199,64201,64203,64205,64207,64209,64211,64213,64215,64217,194561,194563,194565,194567,194569,194571,194573,194575,194577,194579,194581,194583,194585,194587,194589,194591,194593,194595,194597,194599,194601,194603,194605,194607,194609,194611,194613,194615,194617,194619,194621,194623,194625,194627,194629,194631,194633,194635,194637,194639,194641,194643,194645,194647,194649,194651,194653,194655,194657,194659,194661,194663,194665,194667,194669,194671,194673,194675,194677,194679,194681,194683,194685,194687,194689,194691,194693,194695,194697,194699,194701,194703,194705,194707,194709,194711,194713,194715,194717,194719,194721,194723,194725,194727,194729,194731,194733,194735,194737,194739,194741,194743,194745,194747,194749,194751,194753,194755,194757,194759,194761,194763,194765,194767,194769,194771,194773,194775,194777,194779,194781,194783,194785,194787,194789,194791,194793,194795,194797,194799,194801,194803,194805,194807,194809,194811,194813,194815,194817,194819,194821,194823,194825,194827,194829,194831,194833,194835,194837,194839,194841,194843,194845,194847,194849,194851,194853,194855,194857,194859,194861,194863,194865,194867,194869,194871,194873,194875,194877,194879,194881,194883,194885,194887,194889,194891,194893,194895,194897,194899,194901,194903,194905,194907,194909,194911,194913,194915,194917,194919,194921,194923,194925,194927,194929,194931,194933,194935,194937,194939,194941,194943,194945,194947,194949,194951,194953,194955,194957,194959,194961,194963,194965,194967,194969,194971,194973,194975,194977,194979,194981,194983,194985,194987,194989,194991,194993,194995,194997,194999,195001,195003,195005,195007,195009,195011,195013,195015,195017,195019,195021,195023,195025,195027,195029,195031,195033,195035,195037,195039,195041,195043,195045,195047,195049,195051,195053,195055,195057,195059,195061,195063,195065,195067,195069,195071,195073,195075,195077,195079,195081,195083,195085,195087,195089,195091,195093,195095,195097,195099,195101};
static const int n_pool_single = 509;
static const int pool_compat[] = {168,175,180,181,184,306,307,319,320,329,383,452,453,454,455,456,457,458,459,460,497,498,499,728,729,730,731,732,733,890,900,976,977,978,981,982,1008,1009,1010,1012,1013,1017,1415,1653,1654,1655,1656,3635,3763,3804,3805,3959,3961,7834,8125,8127,8128,8190,8194,8195,8196,8197,8198,8200,8201,8202,8215,8228,8229,8230,8243,8244,8246,8247,8252,8254,8263,8264,8265,8279,8287,8360,8448,8449,8451,8453,8454,8455,8457,8470,8481,8501,8502,8503,8504,8507,8544,8545,8546,8547,8548,8549,8550,8551,8552,8553,8554,8555,8556,8557,8558,8559,8560,8561,8562,8563,8564,8565,8566,8567,8568,8569,8570,8571,8572,8573,8574,8575,8748,8749,8751,8752,9332,9333,9334,9335,9336,9337,9338,9339,9340,9341,9342,9343,9344,9345,9346,9347,9348,9349,9350,9351,9352,9353,9354,9355,9356,9357,9358,9359,9360,9361,9362,9363,9364,9365,9366,9367,9368,9369,9370,9371,9372,9373,9374,9375,9376,9377,9378,9379,9380,9381,9382,9383,9384,9385,9386,9387,9388,9389,9390,9391,9392,9393,9394,9395,9396,9397,10764,10868,10869,10870,11935,12019,12032,12033,12034,12035,12036,12037,12038,12039,12040,12041,12042,12043,12044,12045,12046,12047,12048,12049,12050,12051,12052,12053,12054,12055,12056,12057,12058,12059,12060,12061,12062,12063,12064,12065,12066,12067,12068,12069,12070,12071,12072,12073,12074,12075,12076,12077,12078,12079,12080,12081,12082,12083,12084,12085,12086,12087,12088,12089,12090,12091,12092,12093,12094,12095,12096,12097,12098,12099,12100,12101,12102,12103,12104,12105,12106,12107,12108,12109,12110,12111,12112,12113,12114,12115,12116,12117,12118,12119,12120,12121,12122,12123,12124,12125,12126,12127,12128,12129,12130,12131,12132,12133,12134,12135,12136,12137,12138,12139,12140,12141,12142,12143,12144,12145,12146,12147,12148,12149,12150,12151,12152,12153,12154,12155,12156,12157,12158,12159,12160,12161,12162,12163,12164,12165,12166,12167,12168,12169,12170,12171,12172,12173,12174,12175,12176,12177,12178,12179,12180,12181,12182,12183,12184,12185,12186,12187,12188,12189,12190,12191,12192,12193,12194,12195,12196,12197,12198,12199,12200,12201,12202,12203,12204,12205,12206,12207,12208,12209,12210,12211,12212,12213,12214,12215,12216,12217,12218,12219,12220,12221,12222,12223,12224,12225,12226,12227,12228,12229,12230,12231,12232,12233,12234,12235,12236,12237,12238,12239,12240,12241,12242,12243,12244,12245,12342,12344,12345,12346,12443,12444,12593,12594,12595,12596,12597,12598,12599,12600,12601,12602,12603,12604,12605,12606,12607,12608,12609,12610,12611,12612,12613,12614,12615,12616,12617,12618,12619,12620,12621,12622,12623,12624,12625,12626,12627,12628,12629,12630,12631,12632,12633,12634,12635,12636,12637,12638,12639,12640,12641,12642,12643,12644,12645,12646,12647,12648,12649,12650,12651,12652,12653,12654,12655,12656,12657,12658,12659,12660,12661,12662,12663,12664,12665,12666,12667,12668,12669,12670,12671,12672,12673,12674,12675,12676,12677,12678,12679,12680,12681,12682,12683,12684,12685,12686,12800,12801,12802,12803,12804,12805,12806,12807,12808,12809,12810,12811,12812,12813,12814,12815,12816,12817,12818,12819,12820,12821,12822,12823,12824,12825,12826,12827,12828,12829,12830,12832,12833,12834,12835,12836,12837,12838,12839,12840,12841,12842,12843,12844,12845,12846,12847,12848,12849,12850,12851,12852,12853,12854,12855,12856,12857,12858,12859,12860,12861,12862,12863,12864,12865,12866,12867,12992,12993,12994,12995,12996,12997,12998,12999,13000,13001,13002,13003,13144,13145,13146,13147,13148,13149,13150,13151,13152,13153,13154,13155,13156,13157,13158,13159,13160,13161,13162,13163,13164,13165,13166,13167,13168,13280,13281,13282,13283,13284,13285,13286,13287,13288,13289,13290,13291,13292,13293,13294,13295,13296,13297,13298,13299,13300,13301,13302,13303,13304,13305,13306,13307,13308,13309,13310,64256,64257,64258,64259,64260,64261,64262,64275,64276,64277,64278,64279,64335,65097,65098,65099,65100,65101,65102,65103,127232,127233,127234,127235,127236,127237,127238,127239,127240,127241,127242,127248,127249,127250,127251,127252,127253,127254,127255,127256,127257,127258,127259,127260,127261,127262,127263,127264,127265,127266,127267,127268,127269,127270,127271,127272,127273,127274,127552,127553,127554,127555,127556,127557,127558,127559,127560};
static const int n_pool_compat = 720;
static const int pool_pairs[] = {65,768,65,769,65,770,65,771,65,776,65,778,67,807,69,768,69,769,69,770,69,776,73,768,73,769,73,770,73,776,78,771,79,768,79,769,79,770,79,771,79,776,85,768,85,769,85,770,85,776,89,769,97,768,97,769,97,770,97,771,97,776,97,778,99,807,101,768,101,769,101,770,101,776,105,768,105,769,105,770,105,776,110,771,111,768,111,769,111,770,111,771,111,776,117,768,117,769,117,770,117,776,121,769,121,776,65,772,97,772,65,774,97,774,65,808,97,808,67,769,99,769,67,770,99,770,67,775,99,775,67,780,99,780,68,780,100,780,69,772,101,772,69,774,101,774,69,775,101,775,69,808,101,808,69,780,101,780,71,770,103,770,71,774,103,774,71,775,103,775,71,807,103,807,72,770,104,770,73,771,105,771,73,772,105,772,73,774,105,774,73,808,105,808,73,775,74,770,106,770,75,807,107,807,76,769,108,769,76,807,108,807,76,780,108,780,78,769,110,769,78,807,110,807,78,780,110,780,79,772,111,772,79,774,111,774,79,779,111,779,82,769,114,769,82,807,114,807,82,780,114,780,83,769,115,769,83,770,115,770,83,807,115,807,83,780,115,780,84,807,116,807,84,780,116,780,85,771,117,771,85,772,117,772,85,774,117,774,85,778,117,778,85,779,117,779,85,808,117,808,87,770,119,770,89,770,121,770,89,776,90,769,122,769,90,775,122,775,90,780,122,780,79,795,111,795,85,795,117,795,65,780,97,780,73,780,105,780,79,780,111,780,85,780,117,780,220,772,252,772,220,769,252,769,220,780,252,780,220,768,252,768,196,772,228,772,550,772,551,772,198,772,230,772,71,780,103,780,75,780,107,780,79,808,111,808,490,772,491,772,439,780,658,780,106,780,71,769,103,769,78,768,110,768,197,769,229,769,198,769,230,769,216,769,248,769,65,783,97,783,65,785,97,785,69,783,101,783,69,785,101,785,73,783,105,783,73,785,105,785,79,783,111,783,79,785,111,785,82,783,114,783,82,785,114,785,85,783,117,783,85,785,117,785,83,806,115,806,84,806,116,806,72,780,104,780,65,775,97,775,69,807,101,807,214,772,246,772,213,772,245,772,79,775,111,775,558,772,559,772,89,772,121,772,168,769,913,769,917,769,919,769,921,769,927,769,933,769,937,769,970,769,921,776,933,776,945,769,949,769,951,769,953,769,971,769,953,776,965,776,959,769,965,769,969,769,978,769,978,776,1045,768,1045,776,1043,769,1030,776,1050,769,1048,768,1059,774,1048,774,1080,774,1077,768,1077,776,1075,769,1110,776,1082,769,1080,768,1091,774,1140,783,1141,783,1046,774,1078,774,1040,774,1072,774,1040,776,1072,776,1045,774,1077,774,1240,776,1241,776,1046,776,1078,776,1047,776,1079,776,1048,772,1080,772,1048,776,1080,776,1054,776,1086,776,1256,776,1257,776,1069,776,1101,776,1059,772,1091,772,1059,776,1091,776,1059,779,1091,779,1063,776,1095,776,1067,776,1099,776,1575,1619,1575,1620,1608,1620,1575,1621,1610,1620,1749,1620,1729,1620,1746,1620,2344,2364,2352,2364,2355,2364,2325,2364,2326,2364,2327,2364,2332,2364,2337,2364,2338,2364,2347,2364,2351,2364,2503,2494,2503,2519,2465,2492,2466,2492,2479,2492,2610,2620,2616,2620,2582,2620,2583,2620,2588,2620,2603,2620,2887,2902,2887,2878,2887,2903,2849,2876,2850,2876,2962,3031,3014,3006,3015,3006,3014,3031,3142,3158,3263,3285,3270,3285,3270,3286,3270,3266,3274,3285,3398,3390,3399,3390,3398,3415,3545,3530,3545,3535,3548,3530,3545,3551,3906,4023,3916,4023,3921,4023,3926,4023,3931,4023,3904,4021,4018,3968,4019,3968,3986,4023,3996,4023,4001,4023,4006,4023,4011,4023,3984,4021,4133,4142,6917,6965,6919,6965,6921,6965,6923,6965,6925,6965,6929,6965,6970,6965,6972,6965,6974,6965,6975,6965,6978,6965,65,805,97,805,66,775,98,775,66,803,98,803,66,817,98,817,199,769,231,769,68,775,100,775,68,803,100,803,68,817,100,817,68,807,100,807,68,813,100,813,274,768,275,768,274,769,275,769,69,813,101,813,69,816,101,816,552,774,553,774,70,775,102,775,71,772,103,772,72,775,104,775,72,803,104,803,72,776,104,776,72,807,104,807,72,814,104,814,73,816,105,816,207,769,239,769,75,769,107,769,75,803,107,803,75,817,107,817,76,803,108,803,7734,772,7735,772,76,817,108,817,76,813,108,813,77,769,109,769,77,775,109,775,77,803,109,803,78,775,110,775,78,803,110,803,78,817,110,817,78,813,110,813,213,769,245,769,213,776,245,776,332,768,333,768,332,769,333,769,80,769,112,769,80,775,112,775,82,775,114,775,82,803,114,803,7770,772,7771,772,82,817,114,817,83,775,115,775,83,803,115,803,346,775,347,775,352,775,353,775,7778,775,7779,775,84,775,116,775,84,803,116,803,84,817,116,817,84,813,116,813,85,804,117,804,85,816,117,816,85,813,117,813,360,769,361,769,362,776,363,776,86,771,118,771,86,803,118,803,87,768,119,768,87,769,119,769,87,776,119,776,87,775,119,775,87,803,119,803,88,775,120,775,88,776,120,776,89,775,121,775,90,770,122,770,90,803,122,803,90,817,122,817,104,817,116,776,119,778,121,778,383,775,65,803,97,803,65,777,97,777,194,769,226,769,194,768,226,768,194,777,226,777,194,771,226,771,7840,770,7841,770,258,769,259,769,258,768,259,768,258,777,259,777,258,771,259,771,7840,774,7841,774,69,803,101,803,69,777,101,777,69,771,101,771,202,769,234,769,202,768,234,768,202,777,234,777,202,771,234,771,7864,770,7865,770,73,777,105,777,73,803,105,803,79,803,111,803,79,777,111,777,212,769,244,769,212,768,244,768,212,777,244,777,212,771,244,771,7884,770,7885,770,416,769,417,769,416,768,417,768,416,777,417,777,416,771,417,771,416,803,417,803,85,803,117,803,85,777,117,777,431,769,432,769,431,768,432,768,431,777,432,777,431,771,432,771,431,803,432,803,89,768,121,768,89,803,121,803,89,777,121,777,89,771,121,771,945,787,945,788,7936,768,7937,768,7936,769,7937,769,7936,834,7937,834,913,787,913,788,7944,768,7945,768,7944,769,7945,769,7944,834,7945,834,949,787,949,788,7952,768,7953,768,7952,769,7953,769,917,787,917,788,7960,768,7961,768,7960,769,7961,769,951,787,951,788,7968,768,7969,768,7968,769,7969,769,7968,834,7969,834,919,787,919,788,7976,768,7977,768,7976,769,7977,769,7976,834,7977,834,953,787,953,788,7984,768,7985,768,7984,769,7985,769,7984,834,7985,834,921,787,921,788,7992,768,7993,768,7992,769,7993,769,7992,834,7993,834,959,787,959,788,8000,768,8001,768,8000,769,8001,769,927,787,927,788,8008,768,8009,768,8008,769,8009,769,965,787,965,788,8016,768,8017,768,8016,769,8017,769,8016,834,8017,834,933,788,8025,768,8025,769,8025,834,969,787,969,788,8032,768,8033,768,8032,769,8033,769,8032,834,8033,834,937,787,937,788,8040,768,8041,768,8040,769,8041,769,8040,834,8041,834,945,768,949,768,951,768,953,768,959,768,965,768,969,768,7936,837,7937,837,7938,837,7939,837,7940,837,7941,837,7942,837,7943,837,7944,837,7945,837,7946,837,7947,837,7948,837,7949,837,7950,837,7951,837,7968,837,7969,837,7970,837,7971,837,7972,837,7973,837,7974,837,7975,837,7976,837,7977,837,7978,837,7979,837,7980,837,7981,837,7982,837,7983,837,8032,837,8033,837,8034,837,8035,837,8036,837,8037,837,8038,837,8039,837,8040,837,8041,837,8042,837,8043,837,8044,837,8045,837,8046,837,8047,837,945,774,945,772,8048,837,945,837,940,837,945,834,8118,837,913,774,913,772,913,768,913,837,168,834,8052,837,951,837,942,837,951,834,8134,837,917,768,919,768,919,837,8127,768,8127,769,8127,834,953,774,953,772,970,768,953,834,970,834,921,774,921,772,921,768,8190,768,8190,769,8190,834,965,774,965,772,971,768,961,787,961,788,965,834,971,834,933,774,933,772,933,768,929,788,168,768,8060,837,969,837,974,837,969,834,8182,837,927,768,937,768,937,837,8592,824,8594,824,8596,824,8656,824,8660,824,8658,824,8707,824,8712,824,8715,824,8739,824,8741,824,8764,824,8771,824,8773,824,8776,824,61,824,8801,824,8781,824,60,824,62,824,8804,824,8805,824,8818,824,8819,824,8822,824,8823,824,8826,824,8827,824,8834,824,8835,824,8838,824,8839,824,8866,824,8872,824,8873,824,8875,824,8828,824,8829,824,8849,824,8850,824,8882,824,8883,824,8884,824,8885,824,10973,824,12363,12441,12365,12441,12367,12441,12369,12441,12371,12441,12373,12441,12375,12441,12377,12441,12379,12441,12381,12441,12383,12441,12385,12441,12388,12441,12390,12441,12392,12441,12399,12441,12399,12442,12402,12441,12402,12442,12405,12441,12405,12442,12408,12441,12408,12442,12411,12441,12411,12442,12358,12441,12445,12441,12459,12441,12461,12441,12463,12441,12465,12441,12467,12441,12469,12441,12471,12441,12473,12441,12475,12441,12477,12441,12479,12441,12481,12441,12484,12441,12486,12441,12488,12441,12495,12441,12495,12442,12498,12441,12498,12442,12501,12441,12501,12442,12504,12441,12504,12442,12507,12441,12507,12442,12454,12441,12527,12441,12528,12441,12529,12441,12530,12441,12541,12441,1497,1460,1522,1463,1513,1473,1513,1474,64329,1473,64329,1474,1488,1463,1488,1464,1488,1468,1489,1468,1490,1468,1491,1468,1492,1468,1493,1468,1494,1468,1496,1468,1497,1468,1498,1468,1499,1468,1500,1468,1502,1468,1504,1468,1505,1468,1507,1468,1508,1468,1510,1468,1511,1468,1512,1468,1513,1468,1514,1468,1493,1465,1489,1471,1499,1471,1508,1471,69785,69818,69787,69818,69797,69818,69937,69927,69938,69927,70471,70462,70471,70487,70841,70842,70841,70832,70841,70845,71096,71087,71097,71087,119127,119141,119128,119141,119135,119150,119135,119151,119135,119152,119135,119153,119135,119154,119225,119141,119226,119141,119227,119150,119228,119150,119227,119151,119228,119151};
static const int n_pool_pairs = 2042;
static const int pool_marks[] = {820,821,822,823,824,7380,7394,7395,7396,7397,7398,7399,7400,8402,8403,8408,8409,8410,8421,8422,8426,8427,68153,92912,92913,92914,92915,92916,113822,119143,119144,119145,2364,2492,2620,2748,2876,3260,4151,6964,7142,7223,43443,69818,70003,70090,70198,70377,70460,70726,70851,71104,71351,125258,12441,12442,2381,2509,2637,2765,2893,3021,3149,3277,3405,3530,3642,3972,4153,4154,5908,5940,6098,6752,6980,7082,7083,7154,7155,11647,43014,43204,43347,43456,43766,44013,68159,69702,69759,69817,69939,69940,70080,70197,70378,70477,70722,70850,71103,71231,71350,71467,72767,1456,1457,1458,1459,1460,1461,1462,1463,1464,1479,1465,1466,1467,1468,1469,1471,1473,1474,64286,1611,2288,1612,2289,1613,2290,1560,1614,1561,1615,1562,1616,1617,1618,1648,1809,3157,3158,3640,3641,3656,3657,3658,3659,3768,3769,3784,3785,3786,3787,3953,3954,3962,3963,3964,3965,3968,3956,801,802,807,808,7632,7630,795,3897,119141,119142,119150,119151,119152,119153,119154,12330,790,791,792,793,796,797,798,799,800,803,804,805,806,809,810,811,812,813,814,815,816,817,818,819,825,826,827,828,839,840,841,845,846,851,852,853,854,857,858,1425,1430,1435,1442,1443,1444,1445,1446,1447,1450,1477,1621,1622,1628,1631,1763,1770,1773,1841,1844,1847,1848,1849,1851,1852,1854,1858,1860,1862,1864,2034,2137,2138,2139,2275,2278,2281,2285,2286,2287,2294,2297,2298,2386,3864,3865,3893,3895,4038,4237,6459,6680,6783,6837,6838,6839,6840,6841,6842,6845,7020,7381,7382,7383,7384,7385,7388,7389,7390,7391,7405,7618,7626,7631,7677,7679,8424,8428,8429,8430,8431,43307,43308,43309,43700,65063,65064,65065,65066,65067,65068,65069,66045,66272,68109,68154,68326,119163,119164,119165,119166,119167,119168,119169,119170,119178,119179,125136,125137,125138,125139,125140,125141,125142,1434,1453,6457,12333,12334,12335,119149,1454,6313,12331,768,769,770,771,772,773,774,775,776,777,778,779,780,781,782,783,784,785,786,787,788,829,830,831,832,833,834,835,836,838,842,843,844,848,849,850,855,859,867,868,869,870,871,872,873,874,875,876,877,878,879,1155,1156,1157,1158,1159,1426,1427,1428,1429,1431,1432,1433,1436,1437,1438,1439,1440,1441,1448,1449,1451,1452,1455,1476,1552,1553,1554,1555,1556,1557,1558,1559,1619,1620,1623,1624,1625,1626,1627,1629,1630,1750,1751,1752,1753,1754,1755,1756,1759,1760,1761,1762,1764,1767,1768,1771,1772,1840,1842,1843,1845,1846,1850,1853,1855,1856,1857,1859,1861,1863,1865,1866,2027,2028,2029,2030,2031,2032,2033,2035,2070,2071,2072,2073,2075,2076,2077,2078,2079,2080,2081,2082,2083,2085,2086,2087,2089,2090,2091,2092,2093,2260,2261,2262,2263,2264,2265,2266,2267,2268,2269,2270,2271,2272,2273,2276,2277,2279,2280,2282,2283,2284,2291,2292,2293,2295,2296,2299,2300,2301,2302,2303,2385,2387,2388,3970,3971,3974,3975,4957,4958,4959,6109,6458,6679,6773,6774,6775,6776,6777,6778,6779,6780,6832,6833,6834,6835,6836,6843,6844,7019,7021,7022,7023,7024,7025,7026,7027,7376,7377,7378,7386,7387,7392,7412,7416,7417,7616,7617,7619,7620,7621,7622,7623,7624,7625,7627,7628,7633,7634,7635,7636,7637,7638,7639,7640,7641,7642,7643,7644,7645,7646,7647,7648,7649,7650,7651,7652,7653,7654,7655,7656,7657,7658,7659,7660,7661,7662,7663,7664,7665,7666,7667,7668,7669,7675,7678,8400,8401,8404,8405,8406,8407,8411,8412,8417,8423,8425,8432,11503,11504,11505,11744,11745,11746,11747,11748,11749,11750,11751,11752,11753,11754,11755,11756,11757,11758,11759,11760,11761,11762,11763,11764,11765,11766,11767,11768,11769,11770,11771,11772,11773,11774,11775,42607,42612,42613,42614,42615,42616,42617,42618,42619,42620,42621,42654,42655,42736,42737,43232,43233,43234,43235,43236,43237,43238,43239,43240,43241,43242,43243,43244,43245,43246,43247,43248,43249,43696,43698,43699,43703,43704,43710,43711,43713,65056,65057,65058,65059,65060,65061,65062,65070,65071,66422,66423,66424,66425,66426,68111,68152,68325,69888,69889,69890,70502,70503,70504,70505,70506,70507,70508,70512,70513,70514,70515,70516,92976,92977,92978,92979,92980,92981,92982,119173,119174,119175,119176,119177,119210,119211,119212,119213,119362,119363,119364,122880,122881,122882,122883,122884,122885,122886,122888,122889,122890,122891,122892,122893,122894,122895,122896,122897,122898,122899,122900,122901,122902,122903,122904,122907,122908,122909,122910,122911,122912,122913,122915,122916,122918,122919,122920,122921,122922,125252,125253,125254,125255,125256,125257,789,794,856,12332,860,863,866,7676,861,862,864,865,7629,837};
static const int n_pool_marks = 814;
static const int pool_marks_idx[] = {0,32,32,22,54,2,56,47,103,1,104,1,105,1,106,1,107,1,108,1,109,1,110,1,111,2,113,2,115,1,116,1,117,1,118,1,119,1,120,1,121,1,122,2,124,2,126,2,128,2,130,2,132,2,134,1,135,1,136,1,137,1,138,1,139,1,140,2,142,4,146,2,148,4,152,1,153,6,159,1,160,5,165,1,166,9,175,1,176,153,329,4,333,2,335,1,336,3,339,461,800,4,804,4,808,5,813,1};
static const int n_pool_marks_idx = 108;
static const int pool_zeromarks[] = {847,1160,1161,1958,1959,1960,1961,1962,1963,1964,1965,1966,1967,1968,2304,2305,2306,2362,2369,2370,2371,2372,2373,2374,2375,2376,2389,2390,2391,2402,2403,2433,2494,2497,2498,2499,2500,2519,2530,2531,2561,2562,2625,2626,2631,2632,2635,2636,2641,2672,2673,2677,2689,2690,2753,2754,2755,2756,2757,2759,2760,2786,2787,2817,2878,2879,2881,2882,2883,2884,2902,2903,2914,2915,2946,3006,3008,3031,3072,3134,3135,3136,3142,3143,3144,3146,3147,3148,3170,3171,3201,3263,3266,3270,3276,3285,3286,3298,3299,3329,3390,3393,3394,3395,3396,3415,3426,3427,3535,3538,3539,3540,3542,3551,3633,3636,3637,3638,3639,3655,3660,3661,3662,3761,3764,3765,3766,3767,3771,3772,3788,3789,3955,3957,3958,3959,3960,3961,3966,3969,3981,3982,3983,3984,3985,3986,3987,3988,3989,3990,3991,3993,3994,3995,3996,3997,3998,3999,4000,4001,4002,4003,4004,4005,4006,4007,4008,4009,4010,4011,4012,4013,4014,4015,4016,4017,4018,4019,4020,4021,4022,4023,4024,4025,4026,4027,4028,4141,4142,4143,4144,4146,4147,4148,4149,4150,4157,4158,4184,4185,4190,4191,4192,4209,4210,4211,4212,4226,4229,4230,4253,5906,5907,5938,5939,5970,5971,6002,6003,6068,6069,6071,6072,6073,6074,6075,6076,6077,6086,6089,6090,6091,6092,6093,6094,6095,6096,6097,6099,6155,6156,6157,6277,6278,6432,6433,6434,6439,6440,6450,6683,6742,6744,6745,6746,6747,6748,6749,6750,6754,6757,6758,6759,6760,6761,6762,6763,6764,6771,6772,6846,6912,6913,6914,6915,6966,6967,6968,6969,6970,6972,6978,7040,7041,7074,7075,7076,7077,7080,7081,7084,7085,7144,7145,7149,7151,7152,7153,7212,7213,7214,7215,7216,7217,7218,7219,7222,8204,8413,8414,8415,8416,8418,8419,8420,42608,42609,42610,43010,43019,43045,43046,43205,43302,43303,43304,43305,43306,43335,43336,43337,43338,43339,43340,43341,43342,43343,43344,43345,43392,43393,43394,43446,43447,43448,43449,43452,43493,43561,43562,43563,43564,43565,43566,43569,43570,43573,43574,43587,43596,43644,43756,43757,44005,44008,65024,65025,65026,65027,65028,65029,65030,65031,65032,65033,65034,65035,65036,65037,65038,65039,65438,65439,68097,68098,68099,68101,68102,68108,68110,69633,69688,69689,69690,69691,69692,69693,69694,69695,69696,69697,69698,69699,69700,69701,69760,69761,69811,69812,69813,69814,69927,69928,69929,69930,69931,69933,69934,69935,69936,69937,69938,70016,70017,70070,70071,70072,70073,70074,70075,70076,70077,70078,70091,70092,70191,70192,70193,70196,70199,70206,70367,70371,70372,70373,70374,70375,70376,70400,70401,70462,70464,70487,70712,70713,70714,70715,70716,70717,70718,70719,70723,70724,70832,70835,70836,70837,70838,70839,70840,70842,70845,70847,70848,71087,71090,71091,71092,71093,71100,71101,71132,71133,71219,71220,71221,71222,71223,71224,71225,71226,71229,71232,71339,71341,71344,71345,71346,71347,71348,71349,71453,71454,71455,71458,71459,71460,71461,71463,71464,71465,71466,72752,72753,72754,72755,72756,72757,72758,72760,72761,72762,72763,72764,72765,72850,72851,72852,72853,72854,72855,72856,72857,72858,72859,72860,72861,72862,72863,72864,72865,72866,72867,72868,72869,72870,72871,72874,72875,72876,72877,72878,72879,72880,72882,72883,72885,72886,94095,94096,94097,94098,113821,121344,121345,121346,121347,121348,121349,121350,121351,121352,121353,121354,121355,121356,121357,121358,121359,121360,121361,121362,121363,121364,121365,121366,121367,121368,121369,121370,121371,121372,121373,121374,121375,121376,121377,121378,121379,121380,121381,121382,121383,121384,121385,121386,121387,121388,121389,121390,121391,121392,121393,121394,121395,121396,121397,121398,121403,121404,121405,121406,121407,121408,121409,121410,121411,121412,121413,121414,121415,121416,121417,121418,121419,121420,121421,121422,121423,121424,121425,121426,121427,121428,121429,121430,121431,121432,121433,121434,121435,121436,121437,121438,121439,121440,121441,121442,121443,121444,121445,121446,121447,121448,121449,121450,121451,121452,121461,121476,121499,121500,121501,121502,121503,121505,121506,121507,121508,121509,121510,121511,121512,121513,121514,121515,121516,121517,121518,121519,917536,917537,917538,917539,917540,917541,917542,917543,917544,917545,917546,917547,917548,917549,917550,917551,917552,917553,917554,917555,917556,917557,917558,917559,917560,917561,917562,917563,917564,917565,917566,917567,917568,917569,917570,917571,917572,917573,917574,917575,917576,917577,917578,917579,917580,917581,917582,917583,917584,917585,917586,917587,917588,917589,917590,917591,917592,917593,917594,917595,917596,917597,917598,917599,917600,917601,917602,917603,917604,917605,917606,917607,917608,917609,917610,917611,917612,917613,917614,917615,917616,917617,917618,917619,917620,917621,917622,917623,917624,917625,917626,917627,917628,917629,917630,917631,917760,917761,917879,917999};
static const int n_pool_zeromarks = 790;
static const int pool_PREPEND[] = {1536,1537,1538,1539,1540,1541,1757,1807,2274,3406,69821,70082,70083};
static const int n_pool_PREPEND = 13;
static const int pool_SPACINGMARK[] = {2307,2363,2366,2367,2368,2377,2378,2379,2380,2382,2383,2434,2435,2495,2496,2503,2504,2507,2508,2563,2622,2623,2624,2691,2750,2751,2752,2761,2763,2764,2818,2819,2880,2887,2888,2891,2892,3007,3009,3010,3014,3015,3016,3018,3019,3020,3073,3074,3075,3137,3138,3139,3140,3202,3203,3262,3264,3265,3267,3268,3271,3272,3274,3275,3330,3331,3391,3392,3398,3399,3400,3402,3403,3404,3458,3459,3536,3537,3544,3545,3546,3547,3548,3549,3550,3570,3571,3635,3763,3902,3903,3967,4145,4155,4156,4182,4183,4228,6070,6078,6079,6080,6081,6082,6083,6084,6085,6087,6088,6435,6436,6437,6438,6441,6442,6443,6448,6449,6451,6452,6453,6454,6455,6456,6681,6682,6741,6743,6765,6766,6767,6768,6769,6770,6916,6965,6971,6973,6974,6975,6976,6977,6979,6980,7042,7073,7078,7079,7082,7143,7146,7147,7148,7150,7154,7155,7204,7205,7206,7207,7208,7209,7210,7211,7220,7221,7393,7410,7411,43043,43044,43047,43136,43137,43188,43189,43190,43191,43192,43193,43194,43195,43196,43197,43198,43199,43200,43201,43202,43203,43346,43347,43395,43444,43445,43450,43451,43453,43454,43455,43456,43567,43568,43571,43572,43597,43755,43758,43759,43765,44003,44004,44006,44007,44009,44010,44012,69632,69634,69762,69808,69809,69810,69815,69816,69932,70018,70067,70068,70069,70079,70080,70188,70189,70190,70194,70195,70197,70368,70369,70370,70402,70403,70463,70465,70466,70467,70468,70471,70472,70475,70476,70477,70498,70499,70709,70710,70711,70720,70721,70725,70833,70834,70841,70843,70844,70846,70849,71088,71089,71096,71097,71098,71099,71102,71216,71217,71218,71227,71228,71230,71340,71342,71343,71350,71456,71457,71462,72751,72766,72873,72881,72884,94033,94034,94035,94036,94037,94038,94039,94040,94041,94042,94043,94044,94045,94046,94047,94048,94049,94050,94051,94052,94053,94054,94055,94056,94057,94058,94059,94060,94061,94062,94063,94064,94065,94066,94067,94068,94069,94070,94071,94072,94073,94074,94075,94076,94077,94078,119142,119149};
static const int n_pool_SPACINGMARK = 341;
static const int pool_CONTROL[] = {0,1,2,3,4,5,6,7,8,9,11,12,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,127,128,129,130,131,132,133,134,135,136,137,138,139,140,141,142,143,144,145,146,147,148,149,150,151,152,153,154,155,156,157,158,159,173,1564,6158,8203,8206,8207,8232,8233,8234,8235,8236,8237,8238,8288,8289,8290,8291,8292,8293,8294,8295,8296,8297,8298,8299,8300,8301,8302,8303,65279,65520,65521,65522,65523,65524,65525,65526,65527,65528,65529,65530,65531,113824,113825,113826,113827,119155,119156,119157,119158,119159,119160,119161,119162,917504,917505,917506,917507,917508,917509,917510,917511,917512,917513,917514,917515,917516,917517,917518,917519,917520,917521,917522,917523,917524,917525,917526,917527,917528,917529,917530,917531,917532,917533,917534,917535,917632,917633,917634,917635,917636,917637,917638,917639,917640,917641,917642,917643,917644,917645,917646,917647,917648,917649,917650,917651,917652,917653,917654,917655,917656,917657,917658,917659,917660,917661,917662,917663,917664,917665,917666,917667,917668,917669,917670,917671,917672,917673,917674,917675,917676,917677,917678,917679,917680,917681,917682,917683,917684,917685,917686,917687,917688,917689,917690,917691,917692,917693,917694,917695,917696,917697,917698,917699,917700,917701,917702,917703,917704,917705,917706,917707,917708,917709,917710,917711,917712,917713,917714,917715,917716,917717,917718,917719,917720,917721,917722,917723,917724,917725,917726,917727,917728,917729,917730,917731,917732,917733,917734,917735,917736,917737,917738,917739,917740,917741,917742,917743,917744,917745,917746,917747,917748,917749,917750,917751,917752,917753,917754,917755,917756,917757,917758,917759,918000,918001,919799,921599};
static const int n_pool_CONTROL = 281;
static const int pool_E_BASE[] = {9757,9977,9994,9995,9996,9997,127877,127939,127940,127946,127947,128066,128067,128070,128071,128072,128073,128074,128075,128076,128077,128078,128079,128080,128110,128112,128113,128114,128115,128116,128117,128118,128119,128120,128124,128129,128130,128131,128133,128134,128135,128170,128373,128378,128400,128405,128406,128581,128582,128583,128587,128588,128589,128590,128591,128675,128692,128693,128694,128704,129304,129305,129306,129307,129308,129309,129310,129318,129328,129331,129332,129333,129334,129335,129336,129337,129340,129341,129342};
static const int n_pool_E_BASE = 79;
static const int pool_E_MODIFIER[] = {127995,127996,127997,127998,127999};
static const int n_pool_E_MODIFIER = 5;
static const int pool_ZWJ[] = {8205};
static const int n_pool_ZWJ = 1;
static const int pool_GLUE_AFTER_ZWJ[] = {10084,128139,128488};
static const int n_pool_GLUE_AFTER_ZWJ = 3;
static const int pool_E_BASE_GAZ[] = {128102,128103,128104,128105};
static const int n_pool_E_BASE_GAZ = 4;
static const int pool_REGIONAL_INDICATOR[] = {127462,127463,127464,127465,127466,127467,127468,127469,127470,127471,127472,127473,127474,127475,127476,127477,127478,127479,127480,127481,127482,127483,127484,127485,127486,127487};
static const int n_pool_REGIONAL_INDICATOR = 26;
static const int pool_L[] = {4352,4353,4354,4355,4356,4357,4358,4359,4360,4361,4362,4363,4364,4365,4366,4367,4368,4369,4370,4371,4372,4373,4374,4375,4376,4377,4378,4379,4380,4381,4382,4383,4384,4385,4386,4387,4388,4389,4390,4391,4392,4393,4394,4395,4396,4397,4398,4399,4400,4401,4402,4403,4404,4405,4406,4407,4408,4409,4410,4411,4412,4413,4414,4415,4416,4417,4418,4419,4420,4421,4422,4423,4424,4425,4426,4427,4428,4429,4430,4431,4432,4433,4434,4435,4436,4437,4438,4439,4440,4441,4442,4443,4444,4445,4446,4447,43360,43361,43362,43363,43364,43365,43366,43367,43368,43369,43370,43371,43372,43373,43374,43375,43376,43377,43378,43379,43380,43381,43382,43383,43384,43385,43386,43387,43388};
static const int n_pool_L = 125;
static const int pool_V[] = {4448,4449,4450,4451,4452,4453,4454,4455,4456,4457,4458,4459,4460,4461,4462,4463,4464,4465,4466,4467,4468,4469,4470,4471,4472,4473,4474,4475,4476,4477,4478,4479,4480,4481,4482,4483,4484,4485,4486,4487,4488,4489,4490,4491,4492,4493,4494,4495,4496,4497,4498,4499,4500,4501,4502,4503,4504,4505,4506,4507,4508,4509,4510,4511,4512,4513,4514,4515,4516,4517,4518,4519,55216,55217,55218,55219,55220,55221,55222,55223,55224,55225,55226,55227,55228,55229,55230,55231,55232,55233,55234,55235,55236,55237,55238};
static const int n_pool_V = 95;
static const int pool_T[] = {4520,4521,4522,4523,4524,4525,4526,4527,4528,4529,4530,4531,4532,4533,4534,4535,4536,4537,4538,4539,4540,4541,4542,4543,4544,4545,4546,4547,4548,4549,4550,4551,4552,4553,4554,4555,4556,4557,4558,4559,4560,4561,4562,4563,4564,4565,4566,4567,4568,4569,4570,4571,4572,4573,4574,4575,4576,4577,4578,4579,4580,4581,4582,4583,4584,4585,4586,4587,4588,4589,4590,4591,4592,4593,4594,4595,4596,4597,4598,4599,4600,4601,4602,4603,4604,4605,4606,4607,55243,55244,55245,55246,55247,55248,55249,55250,55251,55252,55253,55254,55255,55256,55257,55258,55259,55260,55261,55262,55263,55264,55265,55266,55267,55268,55269,55270,55271,55272,55273,55274,55275,55276,55277,55278,55279,55280,55281,55282,55283,55284,55285,55286,55287,55288,55289,55290,55291};
static const int n_pool_T = 137;
static const int pool_LV[] = {44032,44060,44088,44116,44144,44172,44200,44228,44256,44284,44312,44340,44368,44396,44424,44452,44480,44508,44536,44564,44592,44620,44648,44676,44704,44732,44760,44788,44816,44844,44872,44900,44928,44956,44984,45012,45040,45068,45096,45124,45152,45180,45208,45236,45264,45292,45320,45348,45376,45404,45432,45460,45488,45516,45544,45572,45600,45628,45656,45684,45712,45740,45768,45796,45824,45852,45880,45908,45936,45964,45992,46020,46048,46076,46104,46132,46160,46188,46216,46244,46272,46300,46328,46356,46384,46412,46440,46468,46496,46524,46552,46580,46608,46636,46664,46692,46720,46748,46776,46804,46832,46860,46888,46916,46944,46972,47000,47028,47056,47084,47112,47140,47168,47196,47224,47252,47280,47308,47336,47364,47392,47420,47448,47476,47504,47532,47560,47588,47616,47644,47672,47700,47728,47756,47784,47812,47840,47868,47896,47924,47952,47980,48008,48036,48064,48092,48120,48148,48176,48204,48232,48260,48288,48316,48344,48372,48400,48428,48456,48484,48512,48540,48568,48596,48624,48652,48680,48708,48736,48764,48792,48820,48848,48876,48904,48932,48960,48988,49016,49044,49072,49100,49128,49156,49184,49212,49240,49268,49296,49324,49352,49380,49408,49436,49464,49492,49520,49548,49576,49604,49632,49660,49688,49716,49744,49772,49800,49828,49856,49884,49912,49940,49968,49996,50024,50052,50080,50108,50136,50164,50192,50220,50248,50276,50304,50332,50360,50388,50416,50444,50472,50500,50528,50556,50584,50612,50640,50668,50696,50724,50752,50780,50808,50836,50864,50892,50920,50948,50976,51004,51032,51060,51088,51116,51144,51172,51200,51228,51256,51284,51312,51340,51368,51396,51424,51452,51480,51508,51536,51564,51592,51620,51648,51676,51704,51732,51760,51788,51816,51844,51872,51900,51928,51956,51984,52012,52040,52068,52096,52124,52152,52180,52208,52236,52264,52292,52320,52348,52376,52404,52432,52460,52488,52516,52544,52572,52600,52628,52656,52684,52712,52740,52768,52796,52824,52852,52880,52908,52936,52964,52992,53020,53048,53076,53104,53132,53160,53188,53216,53244,53272,53300,53328,53356,53384,53412,53440,53468,53496,53524,53552,53580,53608,53636,53664,53692,53720,53748,53776,53804,53832,53860,53888,53916,53944,53972,54000,54028,54056,54084,54112,54140,54168,54196,54224,54252,54280,54308,54336,54364,54392,54420,54448,54476,54504,54532,54560,54588,54616,54644,54672,54700,54728,54756,54784,54812,54840,54868,54896,54924,54952,54980,55008,55036,55064,55092,55120,55148,55176};
static const int n_pool_LV = 399;
static const int pool_LVT[] = {44033,44034,44035,44036,44037,44038,44039,44040,44041,44042,44043,44044,44045,44046,44047,44048,44049,44050,44051,44052,44053,44054,44055,44056,44057,44058,44059,44061,44062,44063,44064,44065,44066,44067,44068,44069,44070,44071,44072,44073,44074,44075,44076,44077,44078,44079,44080,44081,44082,44083,44084,44085,44086,44087,44089,44090,44091,44092,44093,44094,44095,44096,44097,44098,44099,44100,44101,44102,44103,44104,44105,44106,44107,44108,44109,44110,44111,44112,44113,44114,44115,44117,44118,44119,44120,44121,44122,44123,44124,44125,44126,44127,44128,44129,44130,44131,44132,44133,44134,44135,44136,44137,44138,44139,44140,44141,44142,44143,44145,44146,44147,44148,44149,44150,44151,44152,44153,44154,44155,44156,44157,44158,44159,44160,44161,44162,44163,44164,44165,44166,44167,44168,44169,44170,44171,44173,44174,44175,44176,44177,44178,44179,44180,44181,44182,44183,44184,44185,44186,44187,44188,44189,44190,44191,44192,44193,44194,44195,44196,44197,44198,44199,44201,44202,44203,44204,44205,44206,44207,44208,44209,44210,44211,44212,44213,44214,44215,44216,44217,44218,44219,44220,44221,44222,44223,44224,44225,44226,44227,44229,44230,44231,44232,44233,44234,44235,44236,44237,44238,44239,44240,44241,44242,44243,44244,44245,44246,44247,44248,44249,44250,44251,44252,44253,44254,44255,44257,44258,44259,44260,44261,44262,44263,44264,44265,44266,44267,44268,44269,44270,44271,44272,44273,44274,44275,44276,44277,44278,44279,44280,44281,44282,44283,44285,44286,44287,44288,44289,44290,44291,44292,44293,44294,44295,44296,44297,44298,44299,44300,44301,44302,44303,44304,44305,44306,44307,44308,44309,44310,44311,44313,44314,44315,44316,44317,44318,44319,44320,44321,44322,44323,44324,44325,44326,44327,44328,44329,44330,44331,44332,44333,44334,44335,44336,44337,44338,44339,44341,44342,44343,44344,44345,44346,44347,44348,44349,44350,44351,44352,44353,44354,44355,44356,44357,44358,44359,44360,44361,44362,44363,44364,44365,44366,44367,44369,44370,44371,44372,44373,44374,44375,44376,44377,44378,44379,44380,44381,44382,44383,44384,44385,44386,44387,44388,44389,44390,44391,44392,44393,44394,44395,44397,44398,44399,44400,44401,44402,44403,44404,44405,44406,44407,44408,44409,44410,44411,44412,44413,44414,44415,44416,44417,44418,44419,44420,44421,44422,44423,44425,44426,44427,44428,44429,44430,44431,44432,44433,44434,44435,44436,44437,44438,44439,44440,44441,44442,44443,44444,44445,44446};
static const int n_pool_LVT = 400;
