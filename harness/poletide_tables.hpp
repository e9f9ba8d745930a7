// Load Love numbers k'n (Gegout model, CM frame), degrees 0-360.
#pragma once
static const double KN[361] = {
    -1, -1, -0.3054020195, -0.1960294041, -0.1336652689, -0.1047066267, -0.09033564429, -0.08206984804,
    -0.07655494644, -0.07243844815, -0.06913401466, -0.06635869819, -0.06395689877, -0.06183296641, -0.05992172201, -0.05817772516,
    -0.05656704205, -0.0550647411, -0.05365205058, -0.05231479422, -0.05104204279, -0.0498256267, -0.04865919131, -0.04753764652,
    -0.04645728556, -0.04541483359, -0.04440818528, -0.04343487603, -0.04249347823, -0.04158232061, -0.04070034557, -0.03984645832,
    -0.03901937759, -0.03821827509, -0.03744217649, -0.03669034206, -0.03596186474, -0.03525594412, -0.03457187576, -0.03390882631,
    -0.03326609909, -0.03264299923, -0.03203883174, -0.0314529328, -0.03088463896, -0.03033334191, -0.02979842108, -0.02927929373,
    -0.02877539004, -0.02828615868, -0.02781108192, -0.02734963353, -0.02690133637, -0.02646570945, -0.02604229418, -0.0256306663,
    -0.02523039452, -0.02484107774, -0.02446233127, -0.02409377795, -0.02373506405, -0.0233858453, -0.02304579309, -0.0227145903,
    -0.02239193633, -0.02207753919, -0.02177111937, -0.02147240908, -0.0211811517, -0.02089710139, -0.02062002059, -0.0203496822,
    -0.02008586807, -0.01982836895, -0.01957698319, -0.01933151728, -0.01909178544, -0.01885760922, -0.01862881706, -0.01840524275,
    -0.01818672781, -0.01797312161, -0.01776427277, -0.01756004164, -0.01736029175, -0.01716489163, -0.01697371498, -0.01678663942,
    -0.01660354744, -0.0164243256, -0.01624886478, -0.01607705911, -0.01590880688, -0.01574400976, -0.01558257306, -0.01542440486,
    -0.01526941673, -0.01511752309, -0.01496864146, -0.01482269168, -0.01467959656, -0.01453928135, -0.01440167387, -0.01426670401,
    -0.01413430411, -0.01400440861, -0.01387695416, -0.01375187918, -0.01362912416, -0.01350863142, -0.01339034516, -0.01327421107,
    -0.01316017669, -0.01304819106, -0.01293820488, -0.01283017014, -0.01272404038, -0.0126197705, -0.01251731678, -0.01241663664,
    -0.01231768886, -0.01222043336, -0.01212483127, -0.01203084476, -0.0119384371, -0.0118475726, -0.01175821983, -0.01167033892,
    -0.01158389997, -0.01149887118, -0.01141522155, -0.01133292103, -0.01125194019, -0.01117225053, -0.01109382428, -0.01101663454,
    -0.01094065488, -0.01086585976, -0.01079222424, -0.01071972412, -0.0106483357, -0.01057803597, -0.0105088025, -0.01044061352,
    -0.01037344765, -0.01030728418, -0.01024210288, -0.0101778841, -0.01011460854, -0.01005225749, -0.009990812687, -0.009930256346,
    -0.009870571027, -0.009811739803, -0.009753746115, -0.009696573861, -0.009640207245, -0.009584630905, -0.009529829829, -0.009475790189,
    -0.009422496073, -0.009369934305, -0.009318091242, -0.00926695358, -0.009216508278, -0.009166742633, -0.009117644217, -0.00906920089,
    -0.009021400853, -0.008974232435, -0.008927684326, -0.008881745447, -0.008836405029, -0.008791653407, -0.008747481667, -0.008703874181,
    -0.008660824198, -0.008618321971, -0.008576358051, -0.008534923154, -0.008494008256, -0.008453604422, -0.008413702992, -0.008374295452,
    -0.008335373508, -0.008296928978, -0.008258953895, -0.008221440446, -0.00818438101, -0.008147768058, -0.008111594272, -0.008075852456,
    -0.008040535598, -0.008005636771, -0.007971149225, -0.007937066335, -0.007903381636, -0.00787008875, -0.007837181442, -0.007804653597,
    -0.007772499254, -0.007740712516, -0.007709287634, -0.007678218959, -0.007647500968, -0.007617128214, -0.007587095379, -0.007557397242,
    -0.007528028665, -0.007498984668, -0.007470260263, -0.007441850636, -0.007413751027, -0.007385956807, -0.007358463369, -0.007331266234,
    -0.007304360991, -0.007277743343, -0.007251409005, -0.007225353835, -0.007199573711, -0.007174064656, -0.007148822685, -0.007123843938,
    -0.007099129566, -0.007074666551, -0.007050455306, -0.00702649249, -0.00700277454, -0.006979298005, -0.006956059431, -0.006933055469,
    -0.006910282814, -0.006887738228, -0.006865418504, -0.006843320529, -0.006821441187, -0.006799777491, -0.006778326425, -0.006757085071,
    -0.006736050549, -0.006715220049, -0.006694590762, -0.006674159952, -0.006653925199, -0.006633883871, -0.006614032563, -0.006594369232,
    -0.006574891356, -0.006555596461, -0.006536482218, -0.006517546015, -0.006498785614, -0.006480198683, -0.006461782835, -0.006443535971,
    -0.006425455846, -0.006407540263, -0.006389786969, -0.006372194033, -0.00635475931, -0.006337480778, -0.006320356275, -0.00630338401,
    -0.00628656198, -0.006269888285, -0.006253360871, -0.006236978078, -0.006220737994, -0.006204638851, -0.006188678733, -0.006172856062,
    -0.006157169047, -0.006141616004, -0.006126195168, -0.006110905001, -0.006095743854, -0.006080714363, -0.006065808661, -0.006051025499,
    -0.00603636515, -0.006021826113, -0.006007406839, -0.005993105878, -0.005978921847, -0.005964853301, -0.005950898825, -0.005937057006,
    -0.005923326579, -0.005909706151, -0.005896194416, -0.005882789995, -0.005869491718, -0.005856298304, -0.005843208448, -0.005830220904,
    -0.005817334546, -0.005804548161, -0.005791860577, -0.005779270522, -0.005766776986, -0.005754378816, -0.005742074899, -0.005729864025,
    -0.005717745257, -0.005705717481, -0.005693779662, -0.005681930652, -0.005670169557, -0.005658495321, -0.005646906981, -0.005635403426,
    -0.005623983856, -0.005612647214, -0.005601392619, -0.005590219039, -0.00557912564, -0.005568111507, -0.005557175755, -0.005546317422,
    -0.005535535712, -0.005524829768, -0.005514198739, -0.005503641734, -0.005493157962, -0.005482746632, -0.005472406939, -0.005462138054,
    -0.00545193917, -0.005441809594, -0.005431748532, -0.005421755212, -0.005411828857, -0.005401975569, -0.005392181719, -0.005382453176,
    -0.00537278821, -0.005363186748, -0.005353648059, -0.005344171504, -0.00533475631, -0.005325401926, -0.00531610768, -0.00530687292,
    -0.005297696936, -0.005288579215, -0.005279519432, -0.005270516389, -0.005261569543, -0.005252678535, -0.005243842709, -0.005235061516,
    -0.005226334273, -0.005217660524, -0.005209039665, -0.005200471169, -0.005191954431, -0.005183488963, -0.005175074221, -0.005166709698,
    -0.005158394787,
};
