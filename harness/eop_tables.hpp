// Published models, as oracles: RG_ZONT2 (IERS Conventions 2010, Table 8.1), and the
// spectrum/orthoweights of ORTHO_EOP with CNMTX, from which each tidal line is derived.
#pragma once
struct Zont { int k[5]; double us, uc, ls, lc, os, oc; }; // UT1 1e-4 s (sin,cos), LOD 1e-5 s/d (cos,sin), omega 1e-14 rad/s (cos,sin)
static const Zont ZONT[62] = {
  {{1,0,2,2,2},-0.0235,0,0.2617,0,-0.2209,0},
  {{2,0,2,0,1},-0.0404,0,0.3706,0,-0.3128,0},
  {{2,0,2,0,2},-0.0987,0,0.9041,0,-0.763,0},
  {{0,0,2,2,1},-0.0508,0,0.4499,0,-0.3797,0},
  {{0,0,2,2,2},-0.1231,0,1.0904,0,-0.9203,0},
  {{1,0,2,0,0},-0.0385,0,0.2659,0,-0.2244,0},
  {{1,0,2,0,1},-0.4108,0,2.8298,0,-2.3884,0},
  {{1,0,2,0,2},-0.9926,0,6.8291,0,-5.7637,0},
  {{3,0,0,0,0},-0.0179,0,0.1222,0,-0.1031,0},
  {{-1,0,2,2,1},-0.0818,0,0.5384,0,-0.4544,0},
  {{-1,0,2,2,2},-0.1974,0,1.2978,0,-1.0953,0},
  {{1,0,0,2,0},-0.0761,0,0.4976,0,-0.42,0},
  {{2,0,2,-2,2},0.0216,0,-0.106,0,0.0895,0},
  {{0,1,2,0,2},0.0254,0,-0.1211,0,0.1022,0},
  {{0,0,2,0,0},-0.2989,0,1.3804,0,-1.165,0},
  {{0,0,2,0,1},-3.1873,0.201,14.689,0.9266,-12.3974,-0.782},
  {{0,0,2,0,2},-7.8468,0.532,36.091,2.4469,-30.4606,-2.0652},
  {{2,0,0,0,-1},0.0216,0,-0.0988,0,0.0834,0},
  {{2,0,0,0,0},-0.3384,0,1.5433,0,-1.3025,0},
  {{2,0,0,0,1},0.0179,0,-0.0813,0,0.0686,0},
  {{0,-1,2,0,2},-0.0244,0,0.1082,0,-0.0913,0},
  {{0,0,0,2,-1},0.047,0,-0.2004,0,0.1692,0},
  {{0,0,0,2,0},-0.7341,0,3.124,0,-2.6367,0},
  {{0,0,0,2,1},-0.0526,0,0.2235,0,-0.1886,0},
  {{0,-1,0,2,0},-0.0508,0,0.2073,0,-0.1749,0},
  {{1,0,2,-2,1},0.0498,0,-0.1312,0,0.1107,0},
  {{1,0,2,-2,2},0.1006,0,-0.264,0,0.2228,0},
  {{1,1,0,0,0},0.0395,0,-0.0968,0,0.0817,0},
  {{-1,0,2,0,0},0.047,0,-0.1099,0,0.0927,0},
  {{-1,0,2,0,1},0.1767,0,-0.4115,0,0.3473,0},
  {{-1,0,2,0,2},0.4352,0,-1.0093,0,0.8519,0},
  {{1,0,0,0,-1},0.5339,0,-1.2224,0,1.0317,0},
  {{1,0,0,0,0},-8.4046,0.25,19.1647,0.5701,-16.1749,-0.4811},
  {{1,0,0,0,1},0.5443,0,-1.236,0,1.0432,0},
  {{0,0,0,1,0},0.047,0,-0.1,0,0.0844,0},
  {{1,-1,0,0,0},-0.0555,0,0.1169,0,-0.0987,0},
  {{-1,0,0,2,-1},0.1175,0,-0.2332,0,0.1968,0},
  {{-1,0,0,2,0},-1.8236,0,3.6018,0,-3.0399,0},
  {{-1,0,0,2,1},0.1316,0,-0.2587,0,0.2183,0},
  {{1,0,-2,2,-1},0.0179,0,-0.0344,0,0.029,0},
  {{-1,-1,0,2,0},-0.0855,0,0.1542,0,-0.1302,0},
  {{0,2,2,-2,2},-0.0573,0,0.0395,0,-0.0333,0},
  {{0,1,2,-2,1},0.0329,0,-0.0173,0,0.0146,0},
  {{0,1,2,-2,2},-1.8847,0,0.9726,0,-0.8209,0},
  {{0,0,2,-2,0},0.251,0,-0.091,0,0.0768,0},
  {{0,0,2,-2,1},1.1703,0,-0.4135,0,0.349,0},
  {{0,0,2,-2,2},-49.7174,0.433,17.1056,0.149,-14.437,-0.1257},
  {{0,2,0,0,0},-0.1936,0,0.0666,0,-0.0562,0},
  {{2,0,0,-2,-1},0.0489,0,-0.0154,0,0.013,0},
  {{2,0,0,-2,0},-0.5471,0,0.167,0,-0.1409,0},
  {{2,0,0,-2,1},0.0367,0,-0.0108,0,0.0092,0},
  {{0,-1,2,-2,1},-0.0451,0,0.0082,0,-0.0069,0},
  {{0,1,0,0,-1},0.0921,0,-0.0167,0,0.0141,0},
  {{0,-1,2,-2,2},0.8281,0,-0.1425,0,0.1202,0},
  {{0,1,0,0,0},-15.8887,0.153,2.7332,0.0263,-2.3068,-0.0222},
  {{0,1,0,0,1},-0.1382,0,0.0225,0,-0.019,0},
  {{1,0,0,-1,0},0.0348,0,-0.0053,0,0.0045,0},
  {{2,0,-2,0,0},-0.1372,0,-0.0079,0,0.0066,0},
  {{-2,0,2,0,1},0.4211,0,-0.0203,0,0.0171,0},
  {{-1,1,0,1,0},-0.0404,0,0.0008,0,-0.0007,0},
  {{0,0,0,0,2},7.8998,0,0.146,0,-0.1232,0},
  {{0,0,0,0,1},-1617.2681,0,-14.9471,0,12.6153,0},
};
struct Cnm { int m; double hs, ph, fr; int n[6]; };
static const Cnm CNM[71] = {
  {1,-1.94,9.0899831,5.1868805,{1,-4,2,1,0,0}},
  {1,-1.25,8.8234208,5.38346657,{1,-3,0,2,-1,0}},
  {1,-6.64,12.1189598,5.38439079,{1,-3,0,2,0,0}},
  {1,-1.51,1.44257,5.41398343,{1,-3,2,0,-1,0}},
  {1,-8.02,4.738109,5.41490765,{1,-3,2,0,0,0}},
  {1,-9.47,4.4715466,5.61149372,{1,-2,0,1,-1,0}},
  {1,-50.2,7.7670857,5.61241794,{1,-2,0,1,0,0}},
  {1,-1.8,-2.9093042,5.64201057,{1,-2,2,-1,-1,0}},
  {1,-9.54,0.3862349,5.64293479,{1,-2,2,-1,0,0}},
  {1,1.52,-3.1758666,5.83859664,{1,-1,0,0,-2,0}},
  {1,-49.45,0.1196725,5.83952086,{1,-1,0,0,-1,0}},
  {1,-262.21,3.4152116,5.84044508,{1,-1,0,0,0,0}},
  {1,1.7,12.8946194,5.84433381,{1,-1,0,2,0,0}},
  {1,3.43,5.5137686,5.87485066,{1,-1,2,0,0,0}},
  {1,1.94,6.4441883,6.03795537,{1,0,-2,1,0,0}},
  {1,1.37,-4.2322016,6.06754801,{1,0,0,-1,-1,0}},
  {1,7.41,-0.9366625,6.06847223,{1,0,0,-1,0,0}},
  {1,20.62,8.5427453,6.07236095,{1,0,0,1,0,0}},
  {1,4.14,11.8382843,6.07328517,{1,0,0,1,1,0}},
  {1,3.94,1.1618945,6.10287781,{1,0,2,-1,0,0}},
  {1,-7.14,5.9693878,6.24878055,{1,1,-3,0,0,1}},
  {1,1.37,-1.2032249,6.2650583,{1,1,-2,0,-1,0}},
  {1,-122.03,2.0923141,6.26598252,{1,1,-2,0,0,0}},
  {1,1.02,-1.7847596,6.28318449,{1,1,-1,0,0,-1}},
  {1,2.89,8.0679449,6.28318613,{1,1,-1,0,0,1}},
  {1,-7.3,0.8953321,6.29946388,{1,1,0,0,-1,0}},
  {1,368.78,4.1908712,6.3003881,{1,1,0,0,0,0}},
  {1,50.01,7.4864102,6.30131232,{1,1,0,0,1,0}},
  {1,-1.08,10.7819493,6.30223654,{1,1,0,0,2,0}},
  {1,2.93,0.3137975,6.31759007,{1,1,1,0,0,-1}},
  {1,5.25,6.2894282,6.33479368,{1,1,2,0,0,0}},
  {1,3.95,7.2198478,6.49789839,{1,2,-2,1,0,0}},
  {1,20.62,-0.161003,6.52841524,{1,2,0,-1,0,0}},
  {1,4.09,3.1345361,6.52933946,{1,2,0,-1,1,0}},
  {1,3.42,2.8679737,6.72592553,{1,3,-2,0,0,0}},
  {1,1.69,-4.5128771,6.75644239,{1,3,0,-2,0,0}},
  {1,11.29,4.9665307,6.76033111,{1,3,0,0,0,0}},
  {1,7.23,8.2620698,6.76125533,{1,3,0,0,1,0}},
  {1,1.51,11.5576089,6.76217955,{1,3,0,0,2,0}},
  {1,2.16,0.6146566,6.98835826,{1,4,0,-1,0,0}},
  {1,1.38,3.9101957,6.98928248,{1,4,0,-1,1,0}},
  {2,1.8,20.6617051,11.45675174,{2,-3,0,3,0,0}},
  {2,4.67,13.2808543,11.4872686,{2,-3,2,1,0,0}},
  {2,16.01,16.309831,11.68477889,{2,-2,0,2,0,0}},
  {2,19.32,8.9289802,11.71529575,{2,-2,2,0,0,0}},
  {2,1.3,5.0519065,11.73249771,{2,-2,3,0,0,-1}},
  {2,-1.02,15.8350306,11.89560406,{2,-1,-1,1,0,1}},
  {2,-4.51,8.6624178,11.91188181,{2,-1,0,1,-1,0}},
  {2,120.99,11.9579569,11.91280603,{2,-1,0,1,0,0}},
  {2,1.13,8.0808832,11.930008,{2,-1,1,1,0,-1}},
  {2,22.98,4.5771061,11.94332289,{2,-1,2,-1,0,0}},
  {2,1.06,0.7000324,11.96052486,{2,-1,3,-1,0,-1}},
  {2,-1.9,14.9869335,12.11031632,{2,0,-2,2,0,0}},
  {2,-2.18,11.4831564,12.12363121,{2,0,-1,0,0,1}},
  {2,-23.58,4.3105437,12.13990896,{2,0,0,0,-1,0}},
  {2,631.92,7.6060827,12.14083318,{2,0,0,0,0,0}},
  {2,1.92,3.729009,12.15803515,{2,0,1,0,0,-1}},
  {2,-4.66,10.6350594,12.33834347,{2,1,-2,1,0,0}},
  {2,-17.86,3.2542086,12.36886033,{2,1,0,-1,0,0}},
  {2,4.47,12.7336164,12.37274905,{2,1,0,1,0,0}},
  {2,1.97,16.0291555,12.37367327,{2,1,0,1,1,0}},
  {2,17.2,10.160259,12.54916865,{2,2,-3,0,0,1}},
  {2,294.0,6.2831853,12.56637061,{2,2,-2,0,0,0}},
  {2,-2.46,2.4061116,12.58357258,{2,2,-1,0,0,-1}},
  {2,-1.02,5.0862033,12.59985198,{2,2,0,0,-1,0}},
  {2,79.96,8.3817423,12.6007762,{2,2,0,0,0,0}},
  {2,23.83,11.6772814,12.60170041,{2,2,0,0,1,0}},
  {2,2.59,14.9728205,12.60262463,{2,2,0,0,2,0}},
  {2,4.47,4.0298682,12.82880334,{2,3,0,-1,0,0}},
  {2,1.95,7.3254073,12.82972756,{2,3,0,-1,1,0}},
  {2,1.17,9.1574019,13.06071921,{2,4,0,0,0,0}},
};
static const double ORTHO_SP[2][6] = {{0.0298,0.1408,0.0805,0.6002,0.3025,0.1517},{0.02,0.0905,0.0638,0.3476,0.1645,0.0923}};
static const double ORTHO_W[36] = {-6.77832,-14.86323,0.47884,-1.45303,0.16406,0.4203,0.09398,25.73054,-4.77974,0.2808,1.94539,-0.73089,14.86283,-6.77846,1.45234,0.47888,-0.42056,0.16469,15.30276,-4.30615,0.07564,2.28321,-0.45717,-1.6201,-1.76335,1.03364,-0.27553,0.34569,-0.12343,-0.10146,-0.47119,1.28997,-0.19336,0.02724,0.08955,0.04726};
// libration, IERS Conventions 2010 Tables 5.1a (diurnal) and 5.1b: multipliers of GMST+pi, l, l', F, D, Om
struct Libr { int k[6]; double xs, xc, ys, yc, us, uc, ls, lc; };
static const Libr LIBR[21] = {
  {{1,-1,0,-2,0,-1},-.4,.3,-.3,-.4,0,0,0,0},
  {{1,-1,0,-2,0,-2},-2.3,1.3,-1.3,-2.3,0,0,0,0},
  {{1,1,0,-2,-2,-2},-.4,.3,-.3,-.4,0,0,0,0},
  {{1,0,0,-2,0,-1},-2.1,1.2,-1.2,-2.1,0,0,0,0},
  {{1,0,0,-2,0,-2},-11.4,6.5,-6.5,-11.4,0,0,0,0},
  {{1,-1,0,0,0,0},.8,-.5,.5,.8,0,0,0,0},
  {{1,0,0,-2,2,-2},-4.8,2.7,-2.7,-4.8,0,0,0,0},
  {{1,0,0,0,0,0},14.3,-8.2,8.2,14.3,0,0,0,0},
  {{1,0,0,0,0,-1},1.9,-1.1,1.1,1.9,0,0,0,0},
  {{1,1,0,0,0,0},.8,-.4,.4,.8,0,0,0,0},
  {{2,-2,0,-2,0,-2},0,0,0,0,.05,-.03,-.3,-.6},
  {{2,0,0,-2,-2,-2},0,0,0,0,.06,-.03,-.4,-.7},
  {{2,-1,0,-2,0,-2},0,0,0,0,.35,-.20,-2.4,-4.2},
  {{2,1,0,-2,-2,-2},0,0,0,0,.07,-.04,-.5,-.8},
  {{2,0,0,-2,0,-1},0,0,0,0,-.07,.04,.5,.8},
  {{2,0,0,-2,0,-2},0,0,0,0,1.75,-1.01,-12.2,-21.3},
  {{2,1,0,-2,0,-2},0,0,0,0,-.05,.03,.3,.6},
  {{2,0,-1,-2,2,-2},0,0,0,0,.05,-.03,-.3,-.6},
  {{2,0,0,-2,2,-2},0,0,0,0,.76,-.44,-5.5,-9.5},
  {{2,0,0,0,0,0},0,0,0,0,.21,-.12,-1.5,-2.6},
  {{2,0,0,0,0,-1},0,0,0,0,.06,-.04,-.4,-.8},
};
