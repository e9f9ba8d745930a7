// Tables 5.2a and 5.2b of the IERS Conventions 2010 (X and Y of the CIP), in microarcseconds:
// sine and cosine amplitude, multipliers of l l' F D Om L_Me .. L_Ne p_A (trailing zeros left out), by power of t.
#pragma once
struct XyTerm { double s, c; signed char n[14]; };
static const XyTerm X0[] = {
{-6844318.44,1328.67,{0,0,0,0,1}},{-523908.04,-544.75,{0,0,2,-2,2}},{-90552.22,111.23,{0,0,2,0,2}},
{82168.76,-27.64,{0,0,0,0,2}},{58707.02,470.05,{0,1}},{28288.28,-34.69,{1}},{-20557.78,-20.84,{0,1,2,-2,2}},
{-15406.85,15.12,{0,0,2,0,1}},{-11991.74,32.46,{1,0,2,0,2}},{-8584.95,4.42,{0,1,-2,2,-2}},{-6245.02,-6.68,{1,0,0,-2}},
{5095.50,7.19,{0,0,2,-2,1}},{-4910.93,0.76,{1,0,-2,0,-2}},{2521.07,-5.97,{0,0,0,2}},{2511.85,1.07,{1,0,0,0,1}},
{2372.58,5.93,{1,0,-2,-2,-2}},{2307.58,-7.52,{1,0,0,0,-1}},{-2053.16,5.13,{1,0,2,0,1}},{1898.27,-0.72,{2,0,0,-2}},
{-1825.49,1.23,{2,0,-2,0,-1}},{-1534.09,6.29,{0,0,2,2,2}},{-1292.02,0.00,{0,2,-2,2,-2}},{-1234.96,5.21,{2,0,2,0,2}},
{1163.22,-2.94,{2}},{1137.48,-0.04,{1,0,2,-2,2}},{1029.70,-2.63,{0,0,2}},{-866.48,0.52,{0,0,2,-2}},
{-813.13,0.40,{1,0,-2,0,-1}},{664.57,-0.40,{0,2}},{-628.24,-0.64,{0,2,2,-2,2}},{-603.52,0.44,{1,0,0,-2,-1}},
{-556.26,3.16,{0,1,0,0,1}},{-512.37,-1.47,{1,0,0,-2,1}},{506.65,2.54,{0,1,0,0,-1}},{438.51,-0.56,{2,0,-2}},
{405.91,0.99,{1,0,-2,-2,-1}},{-122.67,203.78,{0,0,1,-1,1,0,0,-1,0,-2,5}},{-305.78,1.75,{1,0,2,2,2}},
{300.99,-0.44,{0,1,2,0,2}},{-292.37,-0.32,{1,1,0,-2}},{284.09,0.32,{0,1,-2,0,-2}},{-264.02,0.99,{0,0,2,2,1}},
{261.54,-0.95,{1,0,0,2}},{256.30,-0.28,{2,0,2,-2,2}},{-250.54,0.08,{0,0,0,2,1}},{230.72,0.08,{1,0,2,-2,1}},
{229.78,-0.60,{2,0,0,-2,-1}},{-212.82,0.84,{2,0,2,0,1}},{196.64,-0.84,{0,0,0,2,-1}},{188.95,-0.12,{0,1,-2,2,-1}},
{187.95,-0.24,{1,-1}},{-160.15,-14.04,{1,0,0,-1}},{-172.95,-0.40,{0,1,0,-2}},{-168.26,0.20,{0,0,0,1}},
{161.79,0.24,{2,0,0,-2,1}},{161.34,0.20,{1,0,-2}},{57.44,95.82,{0,0,0,0,0,0,0,0,0,2,-5,0,0,-1}},{142.16,0.20,{0,1,2,-2,1}},
{-134.81,0.20,{1,1}},{132.81,-0.52,{1,0,2}},{-130.31,0.04,{1,-1,0,-1}},{121.98,-0.08,{2,0,-2,0,-2}},
{-115.40,0.60,{3,0,2,0,2}},{-114.49,0.32,{1,-1,2,0,2}},{112.14,0.28,{1,1,-2,-2,-2}},{105.29,0.44,{0,1,-2,-2,-2}},
{98.69,-0.28,{1,1,2,0,2}},{91.31,-0.40,{2,0,0,0,-1}},{86.74,-0.08,{2,0,0,0,1}},{-18.38,63.80,{0,0,0,0,0,0,0,4,-8,3}},
{82.14,0.00,{0,0,0,0,0,0,3,-5,0,0,0,0,0,-2}},{79.03,-0.24,{1,0,-2,2,-1}},{0.00,-79.08,{0,1,-1,1,-1}},
{-78.56,0.00,{1,0,0,0,2}},{47.73,23.79,{0,0,1,-1,1,0,-8,12}},{66.03,-0.20,{0,0,2,1,2}},{62.65,-0.24,{3}},
{60.50,0.36,{1,0,-2,-4,-2}},{59.07,0.00,{0,0,0,0,0,0,1,-1}},{57.28,0.00,{0,0,0,0,0,0,0,8,-16,4,5}},
{-55.66,0.16,{1,0,0,0,-2}},{-54.81,-0.08,{2,0,-2,-2,-2}},{-53.22,-0.20,{1,0,0,-4}},{-52.95,0.32,{1,0,2,2,1}},
{-52.27,0.00,{1,-1,0,-1,-1}},{51.32,0.00,{1,1,2,-2,2}},{-51.00,-0.12,{2,0,0,-4}},{51.02,0.00,{0,2,-2,2,-1}},
{-48.65,-1.15,{0,0,0,0,0,0,0,1,0,-1}},{48.29,0.20,{2,0,-2,-4,-2}},{-46.38,0.00,{0,0,0,0,0,0,0,0,0,2,0,0,0,2}},
{-45.59,-0.12,{1,0,-4,0,-2}},{-43.76,0.36,{2,0,2,2,2}},{-40.58,-1.00,{1,0,0,-1,-1}},{0.00,-41.53,{1,0,-1,0,-1}},
{40.54,-0.04,{2,0,2,-2,1}},{40.33,-0.04,{2,1,0,-2}},{-38.57,0.08,{1,0,0,2,1}},{37.75,0.04,{1,-1,0,-2}},
{37.15,-0.12,{3,0,2,-2,2}},{36.68,-0.04,{0,0,4,-2,2}},{-18.30,-17.30,{0,0,0,0,1,0,0,-1,2}},
{-17.86,17.10,{0,0,0,0,0,0,0,1,-2}},{-34.81,0.04,{0,1,-2,2}},{-33.22,0.08,{0,0,2,-2,-1}},{32.43,-0.04,{0,1,2,0,1}},
{-30.47,0.04,{1,0,2,-2}},{-29.53,0.04,{1,1,0,-2,-1}},{28.50,-0.08,{2,0,-2,0,1}},{28.35,-0.16,{0,1,0,0,2}},
{-28.00,0.00,{0,0,2,-1,2}},{-27.61,0.20,{0,0,2,4,2}},{-26.77,0.08,{0,1,0,2}},{26.54,-0.12,{0,0,2,0,-1}},
{26.54,0.04,{0,1,-2,0,-1}},{-26.17,0.00,{0,1,2,-2}},{-25.42,-0.08,{1,0,-2,-2}},
{-16.91,8.43,{0,0,0,0,0,0,8,-13,0,0,0,0,0,-1}},{0.32,24.42,{0,0,0,0,0,0,2,-3}},{-19.53,5.09,{0,0,0,0,0,0,0,0,0,2,-5}},
{-23.79,0.00,{0,0,0,0,0,0,2,-2}},{23.66,0.00,{1,-1,0,-1,-2}},{-23.47,0.16,{1,-1,2,2,2}},{23.39,-0.12,{2,0,0,2}},
{-23.49,0.00,{0,1,0,0,-2}},{-23.28,-0.08,{1,1,0,-2,1}},{-22.99,0.04,{1,0,-2,2}},{-22.67,-0.08,{1,-1,-2,-2,-2}},
{9.35,13.29,{0,0,0,0,0,0,8,-13}},{22.47,-0.04,{0,1,0,1}},{4.89,-16.55,{0,0,0,0,0,0,0,2,-8,3,0,0,0,-2}},
{4.89,-16.51,{0,0,0,0,0,0,0,6,-8,3,0,0,0,2}},{21.28,-0.08,{0,1,2,2,2}},{20.57,0.64,{0,0,0,0,0,0,0,3,0,-1,0,0,0,2}},
{21.01,0.00,{1,-1,0,0,1}},{1.23,-19.13,{0,0,1,-1,1,0,0,-1,0,2,-5}},{-19.97,0.12,{3,0,2,0,1}},{19.65,-0.08,{0,0,0,4}},
{19.58,-0.12,{1,0,0,2,-1}},{19.61,-0.08,{1,-1,0,2}},{-19.41,0.08,{2,-1,2,0,2}},{-19.49,0.00,{0,0,0,0,0,0,4,-6,0,0,0,0,0,-2}},
{-18.64,0.00,{0,0,0,2,2}},{18.58,0.04,{1,1,-2,-2,-1}},{-18.42,0.00,{1,-1,-2,0,-2}},
{18.22,0.00,{0,0,0,0,0,0,2,-4,0,0,0,0,0,-2}},{-0.72,-17.34,{0,0,2,-2,1,0,-5,6}},{-18.02,-0.04,{1,0,2,-4,1}},
{17.74,0.08,{0,1,-2,-2,-1}},{17.46,0.00,{2,0,0,-2,0,0,0,-2,0,2}},{-17.42,0.00,{0,3,2,-2,2}},
{-6.60,10.70,{0,0,0,0,0,0,0,1,0,-2}},{16.43,0.52,{0,0,0,0,0,0,0,2,0,-2}},{-16.75,0.04,{1,-1,2,0,1}},{16.55,-0.08,{0,0,2,2}},
{16.39,-0.08,{2,1,2,0,2}},{13.88,-2.47,{2,0,0,-2,0,0,0,-2,0,3}},{15.69,0.00,{1,0,0,-2,-2}},{-15.52,0.00,{0,0,0,1,1}},
{3.34,11.86,{0,0,0,0,1,0,0,-4,8,-3}},{14.72,-0.32,{0,0,0,0,0,0,2,0,0,0,0,0,0,2}},{14.92,-0.04,{2,-1}},
{-3.26,11.62,{0,0,0,0,1,0,0,4,-8,3}},{-14.64,0.00,{0,0,0,0,0,0,0,2,-2}},{0.00,14.47,{1,0,-1,0,-2}},{-14.37,0.00,{1,1,0,0,1}},
{14.32,-0.04,{1,1,2,0,1}},{-14.10,0.04,{1,0,-2,2,-2}},{10.86,3.18,{0,0,1,-1,1,0,0,0,-2}},
{-10.58,-3.10,{0,0,1,-1,0,0,0,0,-2}},{-3.62,9.86,{0,0,0,0,0,0,0,0,0,1}},{-13.48,0.00,{0,0,0,0,0,0,1,1,0,0,0,0,0,2}},
{13.41,-0.04,{1,0,2,1,2}},{13.32,-0.08,{2,0,2}},{-13.33,-0.04,{0,1,0,-2,1}},{-13.29,0.00,{1,0,2,-1,2}},
{-0.20,13.05,{0,0,0,0,0,0,3,-4}},{0.00,13.13,{1,0,-1}},{-8.99,4.02,{1,0,0,0,0,0,-18,16}},{-12.93,0.04,{1,0,0,1}},
{2.03,10.82,{0,0,0,0,0,0,0,0,0,2,0,0,0,1}},{-12.78,0.04,{0,0,0,1,-1}},{12.24,0.04,{1,0,0,-2,2}},
{8.71,3.54,{1,0,0,0,0,0,-10,3}},{11.98,-0.04,{1,-1,0,0,-1}},{-11.38,0.04,{2,1}},{-11.30,0.00,{2,0,0,-2,-1,0,0,-2,0,2}},
{11.14,-0.04,{0,0,2,1,1}},{10.98,0.00,{0,3}},{-10.98,0.00,{1,2,0,-2}},{0.44,-10.38,{0,0,0,0,0,0,5,-8,0,0,0,0,0,-2}},
{10.46,0.08,{1,0,-2,-4,-1}},{-10.42,0.00,{0,0,0,0,0,0,0,1,0,1,0,0,0,2}},{-10.30,0.08,{4,0,2,0,2}},
{6.92,3.34,{0,0,1,-1,1,0,0,-1,0,0,-1}},{10.07,0.04,{1,0,-2,0,1}},{10.02,0.00,{2,1,2,-2,2}},{-9.75,0.04,{0,1,2,1,2}},
{9.75,0.00,{1,1,2,-2,1}},{9.67,-0.04,{1,0,4,-2,2}},{-1.99,7.72,{0,0,1,-1,1,0,0,-1,0,-1}},{0.40,9.27,{0,0,2,-2,0,0,-5,6}},
{-3.42,6.09,{0,0,0,0,0,0,0,2,-4}},{0.56,-8.67,{0,0,0,0,0,0,0,0,0,2,-5,0,0,1}},{-9.19,0.00,{2,0,-2,-2,-1}},
{9.11,0.00,{1,0,-2,1,-1}},{9.07,0.00,{2,-2,0,-2}},{1.63,6.96,{0,0,0,0,0,0,8,-13,0,0,0,0,0,-2}},{-8.47,0.00,{0,2,0,-2}},
{-8.28,0.04,{1,1,0,0,-1}},{8.27,0.04,{2,0,-2,-4,-1}},{-8.04,0.00,{0,0,0,0,0,0,5,-7,0,0,0,0,0,-2}},{7.91,0.00,{0,1,0,2,1}},
{-7.84,-0.04,{1,0,-4,0,-1}},{-7.64,0.08,{2,0,2,2,1}},{5.21,-2.51,{1,0,2,0,2,0,0,1}},{-5.77,1.87,{0,0,0,0,0,0,3,-5}},
{5.01,-2.51,{1,0,-2,0,-2,0,0,4,-8,3}},{-7.48,0.00,{0,0,2,-3,2}},{-7.32,-0.12,{0,0,0,0,0,0,0,4,0,-2,0,0,0,2}},
{7.40,-0.04,{0,0,4,0,2}},{7.44,0.00,{1,0,0,-4,-1}},{6.32,-1.11,{1,0,0,-1,1}},{-6.13,-1.19,{0,0,0,0,0,0,0,2,0,-1,0,0,0,2}},
{0.20,-6.88,{0,0,0,0,0,0,2,-1,0,0,0,0,0,2}},{6.92,0.04,{1,1,-2,-4,-2}},{6.48,-0.48,{0,0,0,0,0,0,0,2,0,1,0,0,0,2}},
{-6.94,0.00,{2,0,0,-2,-2}},{2.47,-4.46,{0,0,0,0,0,0,8,-11,0,0,0,0,0,-2}},{-2.23,-4.65,{0,0,0,0,0,0,0,8,-16,4,5,0,0,-2}},
{-1.07,-5.69,{0,0,1,-1,1,0,0,-1,0,2}},{4.97,-1.71,{0,0,0,0,0,0,0,8,-16,4,5,0,0,2}},{5.57,1.07,{0,0,1,-1,1,0,-5,7}},
{-6.48,0.08,{1,0,2,4,2}},{2.03,4.53,{0,0,0,0,0,0,0,0,0,0,2,0,0,1}},{4.10,-2.39,{1,0,0,-2,0,0,19,-21,3}},
{0.00,-6.44,{0,0,1,0,1}},{-6.40,0.00,{3,0,0,-4}},{6.32,0.00,{1,1,-2,0,-2}},{2.67,-3.62,{0,0,0,0,0,0,0,3,0,-2,0,0,0,2}},
{-1.91,-4.38,{0,0,1,-1,1,0,0,-1,0,0,2}},{-2.43,-3.82,{0,0,0,0,0,0,8,-15,0,0,0,0,0,-2}},{6.20,0.00,{0,1,0,-2,-1}},
{-3.38,-2.78,{0,0,0,0,0,0,0,1,2,0,0,0,0,2}},{-6.12,0.04,{0,0,0,4,1}},{-6.09,-0.04,{0,0,2,-4,1}},{-6.01,-0.04,{1,1,0,-4}},
{3.18,-2.82,{0,0,0,0,0,0,0,3,-2,0,0,0,0,2}},{-5.05,0.84,{0,0,0,0,0,0,0,0,0,3,0,0,0,2}},{5.85,0.00,{3,0,2,-2,1}},
{5.69,-0.12,{0,0,0,0,0,0,0,4,-2,0,0,0,0,2}},{5.73,-0.04,{1,1,2,2,2}},{5.61,0.00,{0,0,4,-2,1}},
{5.49,0.00,{2,0,0,-2,0,0,-3,3}},{-5.33,0.04,{3,0,2,2,2}},{-5.29,0.00,{0,0,0,0,0,0,0,0,0,0,2,0,0,2}},
{5.25,0.00,{2,1,0,-2,-1}},{0.99,4.22,{0,0,0,0,0,0,4,-6,0,0,0,0,0,-1}},{-0.99,4.22,{0,0,0,0,0,0,1,-1,0,0,0,0,0,-1}},
{0.00,5.21,{1,0,0,-1,0,0,-3,4}},{5.13,0.04,{0,2,-2,-2,-2}},{-4.90,0.00,{2,0,0,-4,-1}},{-3.10,1.79,{0,0,0,0,0,0,0,3,-4}},
{-4.81,0.04,{0,0,2,4,1}},{-4.75,0.00,{0,0,0,2,-2}},{4.70,-0.04,{3,0,0,0,-1}},{-4.69,0.00,{0,0,0,0,0,0,0,1,0,-3,0,0,0,-2}},
{-4.65,0.00,{0,0,0,0,0,0,6,-8,0,0,0,0,0,-2}},{4.65,0.00,{0,0,2,-2,1,0,-3,3}},{-4.57,0.00,{2,1,0,-4}},
{4.49,-0.04,{4,0,2,-2,2}},{-4.53,0.00,{0,0,1,-1,1,0,0,3,-8,3}},{0.00,-4.53,{0,0,0,0,0,0,3,-2,0,0,0,0,0,2}},
{0.00,-4.53,{0,0,0,0,0,0,2,-5,0,0,0,0,0,-2}},{-4.53,0.00,{2,0,0,2,1}},{4.50,0.00,{1,-1,0,-2,-1}},
{-4.49,0.00,{0,0,0,0,0,0,1,-3,0,0,0,0,0,-2}},{1.83,2.63,{0,0,0,0,1,0,8,-13}},{4.38,0.00,{2,1,-2,-4,-2}},
{0.88,-3.46,{0,0,0,0,0,0,1,-2}},{-2.70,1.55,{0,0,0,0,0,0,0,2,-3}},{-4.22,0.00,{0,0,2,-1,1}},{-4.10,-0.12,{1,1,0,2}},
{3.54,-0.64,{2,0,0,-2,1,0,0,-2,0,3}},{-3.50,0.68,{0,0,0,0,0,0,5,-8,0,0,0,0,0,-1}},{4.18,0.00,{1,-1,-2,2,-1}},
{4.14,0.00,{1,2,-2,-2,-2}},{4.10,0.00,{1,0,0,-3}},{-4.06,0.00,{2,0,0,-4,1}},{2.70,-1.35,{1,0,0,0,-1,0,-18,16}},
{-4.04,0.00,{2,0,0,-2,2}},{-3.98,-0.04,{1,0,0,-4,1}},{-3.98,0.04,{1,-1,2,2,1}},{4.02,0.00,{2,0,2,-4,1}},
{3.94,0.00,{0,0,1,-1,1,0,0,-5,8,-3}},{0.84,-3.10,{0,0,1,-1,0,0,0,-1,0,-1}},{3.30,0.60,{0,0,0,0,0,0,0,2,0,-3}},
{-1.59,2.27,{0,0,0,0,1,0,-8,13}},{-3.66,-0.20,{2,-1,0,-2}},{-3.10,-0.72,{2,0,0,-2,0,0,-6,8}},{-3.82,0.00,{1,-1,-2,0,-1}},
{-3.62,-0.16,{2,1,-2,0,-1}},{-3.74,0.00,{0,1,-2,1,-2}},{3.74,0.00,{4}},{-3.74,0.00,{0,2,-2,2}},{-3.71,0.00,{0,2,0,0,1}},
{3.02,0.68,{0,0,0,0,1,0,0,0,0,-2,5}},{3.70,0.00,{1,0,-4,2,-2}},{3.30,0.40,{0,2,-2,0,-2}},{-3.66,0.04,{2,-1,2,2,2}},
{3.66,0.04,{0,1,-2,-4,-2}},{-3.62,0.00,{1,0,-2,-3,-2}},{-3.61,0.00,{2,0,0,0,2}},{-2.90,0.68,{0,0,0,0,1,0,0,0,0,2,-5}},
{0.80,-2.78,{0,0,0,0,1,0,0,0,0,1}},{3.54,0.00,{0,0,0,0,0,0,3,-3}},{-3.54,0.00,{0,0,0,0,0,0,0,2,0,0,0,0,0,2}},
{-3.50,0.00,{2,0,2,-2}},{3.45,0.00,{0,2,2,-2,1}},{0.00,-3.42,{0,0,0,0,0,0,0,6,-16,4,5,0,0,-2}},{3.38,0.00,{1,-2}},
{2.27,-1.11,{1,0,0,0,1,0,-18,16}},{-3.34,0.00,{1,-1,-2,-2,-1}},{3.34,0.00,{0,1,2,2,1}},{-3.30,0.01,{0,0,2,0,3}},
{3.31,0.00,{1,0,2,0,-1}},{3.30,0.00,{3,0,0,0,1}},{-3.30,0.00,{1,0,-2,-1,-2}},{-1.39,-1.91,{0,0,0,0,0,0,0,1,0,2,0,0,0,2}},
{3.30,0.00,{0,0,0,0,0,0,4,-4}},{3.26,0.00,{2,1,0,-2,1}},{3.26,0.00,{1,0,0,4}},{3.22,-0.04,{1,0,2,2}},
{-3.26,0.00,{2,-1,-2,0,-1}},{2.51,-0.64,{0,0,0,0,0,0,3,-7,0,0,0,0,0,-2}},{3.14,0.00,{2,0,-4,0,-2}},
{-2.63,-0.48,{0,0,1,-1,1,0,0,-1,0,0,1}},{3.10,0.00,{3,0,-2,0,-1}},{-3.06,0.00,{2,-1,2,0,1}},{2.94,-0.12,{1,-2,0,-2}},
{3.06,0.00,{2,0,-2,2,-1}},{0.00,2.98,{0,0,1}},{2.98,0.00,{1,0,2,-4}},{-2.98,0.00,{0,0,0,0,0,0,0,1,0,0,-1}},
{2.07,0.91,{0,0,0,0,0,0,0,0,0,1,0,0,0,2}},{2.94,0.00,{0,2,2,0,2}},{-2.94,0.00,{0,0,0,0,0,0,7,-9,0,0,0,0,0,-2}},
{-2.94,0.00,{0,0,0,0,0,0,0,0,2,0,0,0,0,2}},{-2.90,0.00,{1,-1,2,-2,2}},{-0.56,-2.35,{0,0,0,0,0,0,2,-4,0,0,0,0,0,-1}},
{-1.47,1.39,{0,0,0,0,1,0,0,1,-2}},{2.80,0.00,{1,0,2,-4,2}},{-2.74,0.00,{2,0,2,-1,2}},
{2.15,-0.60,{0,0,0,0,0,0,3,-3,0,0,0,0,0,2}},{-0.12,2.63,{0,0,0,0,0,0,4,-7,0,0,0,0,0,-2}},{-2.70,0.00,{1,1,-2,1,-1}},
{1.79,-0.88,{0,0,0,0,0,0,0,8,-15}},{-0.48,2.19,{0,0,0,0,0,0,2,-2,0,0,0,0,0,-1}},{0.44,2.23,{0,0,0,0,0,0,0,0,0,0,1}},
{0.52,2.07,{0,0,0,0,0,0,0,0,0,1,0,0,0,-1}},{-2.59,0.00,{0,1,0,-4}},{2.55,0.00,{2,1,2,0,1}},
{-1.11,1.43,{0,0,0,0,0,0,0,1,0,-3}},{-2.51,0.00,{3,-1,2,0,2}},{-2.51,0.00,{2,1,-2,-2,-2}},{2.51,0.00,{1,1,-2,0,-1}},
{0.00,-2.50,{1,0,-1,0,-3}},{2.47,0.00,{1,-1,0,-2,1}},{2.11,-0.36,{2,0,0,-2,-1,0,0,-2,0,3}},
{1.67,0.80,{0,0,1,-1,0,0,0,-1,0,0,-1}},{2.46,0.00,{0,2,0,0,-1}},{-2.43,0.00,{1,0,-2,1}},{-2.39,0.00,{1,0,2,-3,2}},
{0.24,2.15,{0,0,0,0,0,0,0,0,0,1,0,0,0,1}},{-0.44,-1.95,{0,0,0,0,0,0,3,-5,0,0,0,0,0,-1}},{-1.83,0.56,{0,0,0,0,0,0,4,-6}},
{2.39,0.00,{2,0,-2,-2}},{2.35,0.00,{0,0,0,0,0,0,5,-5}},{2.27,0.00,{1,0,2,1,1}},{-2.22,0.00,{2,0,0,0,-2}},
{-1.03,-1.15,{1,0,0,-1,1,0,0,-1,0,2}},{1.87,0.32,{0,0,0,0,0,0,0,0,0,0,1,0,0,1}},{-0.32,-1.87,{0,0,1,-1,1,0,0,-2,2}},
{2.15,0.00,{2,0,0,-2,1,0,0,-2,0,2}},{-0.80,1.35,{0,0,0,0,0,0,0,3,-5}},{2.11,0.00,{3,1,2,0,2}},{-2.11,0.00,{1,1,2,1,2}},
{-0.56,-1.55,{0,0,0,0,0,0,5,-8}},{2.11,0.00,{1,0,0,-1,0,0,0,-1,0,1}},{-0.84,-1.27,{0,0,0,0,0,0,0,0,4,0,0,0,0,2}},
{-1.99,0.12,{0,0,0,0,0,0,8,-10,0,0,0,0,0,-2}},{-0.24,1.87,{0,0,0,0,0,0,0,1,-2,0,0,0,0,-1}},
{-0.24,-1.87,{0,0,1,-1,1,0,0,-1,0,1}},{-2.03,0.00,{1,-2,2,0,2}},{2.03,0.00,{2,-1,2,-2,2}},{2.03,0.00,{2,0,0,-3}},
{2.03,0.00,{0,0,0,0,0,0,0,2,-4,0,0,0,0,-2}},{-0.40,1.59,{0,0,1,-1,1,0,-3,4}},{1.99,0.00,{0,0,2,-2,1,0,0,-2,0,2}},
{1.95,0.00,{0,1,0,1,1}},{1.95,0.00,{3,0,0,2}},{1.91,0.00,{0,1,0,1,-1}},{1.19,-0.72,{0,0,0,0,0,0,0,5,-4,0,0,0,0,2}},
{1.87,0.00,{2,0,2,1,2}},{1.87,0.00,{1,1,0,1}},{-1.27,0.60,{0,0,0,0,0,0,0,0,0,0,1,0,0,-1}},
{0.72,-1.15,{0,0,0,0,0,0,0,4,-4,0,0,0,0,2}},{-0.99,0.88,{0,0,0,0,0,0,0,0,0,2}},{1.87,0.00,{2,-1,0,2}},
{-1.87,0.00,{1,1,-2,2,-1}},{-1.83,0.00,{2,0,-4,-2,-2}},{-1.79,0.00,{0,1,0,2,-1}},{-1.79,0.00,{4,0,2,0,1}},
{1.79,0.00,{1,2,2,-2,2}},{0.00,-1.79,{0,0,0,0,0,0,6,-9,0,0,0,0,0,-2}},{-1.79,0.00,{1,1,2,-4,1}},{-1.75,0.00,{0,0,4,-4,2}},
{-1.75,0.00,{3,0,-2,-2,-2}},{1.75,0.00,{2,1,-2}},{-1.47,-0.28,{0,0,0,0,0,0,0,4,0,-3,0,0,0,2}},{-1.71,0.00,{1,0,2,-3,1}},
{1.71,0.00,{2,0,-2,-6,-2}},{0.32,1.39,{0,0,0,0,0,0,5,-7,0,0,0,0,0,-1}},{-0.52,-1.19,{0,0,0,0,0,0,0,1,0,2,-5}},
{0.28,-1.43,{0,0,0,0,0,0,0,2,0,0,0,0,0,1}},{1.67,0.00,{2,0,0,2,-1}},{-1.67,0.00,{0,1,2,1,1}},
{-0.32,1.35,{0,0,0,0,0,0,3,-3,0,0,0,0,0,-1}},{0.76,-0.91,{0,0,0,0,0,0,2,1,0,0,0,0,0,2}},{-1.39,-0.28,{0,0,1,-1,0,0,-5,7}},
{1.63,0.00,{2,1,2,-2,1}},{-1.59,0.00,{1,0,2,-1,1}},{1.03,-0.56,{0,0,0,0,0,0,0,4,-3,0,0,0,0,2}},
{1.59,0.00,{0,0,0,0,0,0,6,-6}},{1.55,0.00,{1,0,4,-2,1}},{-0.28,-1.27,{0,0,0,0,0,0,1,-1,0,0,0,0,0,1}},
{-0.32,-1.23,{0,0,0,0,0,0,1,-3,0,0,0,0,0,-1}},{-0.64,0.91,{0,0,0,0,0,0,0,4,-6}},{-1.55,0.00,{1,-1,2,-2,1}},
{-1.51,0.00,{1,0,2,-2,-1}},{1.51,0.00,{2,-2,0,-2,-1}},{-1.51,0.00,{2,-1,0,-2,1}},{1.51,0.00,{2,0,0,-1}},
{1.47,0.00,{2,0,4,-2,2}},{1.47,0.00,{0,0,2,3,2}},{1.23,-0.24,{0,0,0,0,0,0,3,-1,0,0,0,0,0,2}},
{0.95,-0.52,{0,0,0,0,0,0,0,3,-6,0,0,0,0,-2}},{0.60,0.88,{2,0,0,-2,0,0,0,-6,8}},{-1.47,0.00,{1,-1,0,2,1}},
{-1.43,0.00,{1,0,-2,2,1}},{1.43,0.00,{1,-1,0,2,-1}},{1.43,0.00,{0,1,4,-2,2}},{-1.19,-0.24,{0,0,0,0,0,0,0,1,0,-4,0,0,0,-2}},
{0.36,-1.07,{0,0,1,-1,1,0,0,-1,0,-4,10}},{-0.68,-0.76,{0,0,1,-1,1,0,0,-1,0,0,0,0,2}},{0.95,-0.48,{2,0,2,0,2,0,0,2,0,-3}},
{-0.95,-0.48,{0,0,2,0,2,0,0,1}},{0.95,0.48,{2,0,0,-2,0,0,0,-5,6}},{1.43,0.00,{1,1,0,-1}},{1.39,0.00,{0,0,0,4,-1}},
{1.39,0.00,{2,-1,0,0,1}},{-1.39,0.00,{1,-2,-2,-2,-2}},{-1.39,0.00,{1,2}},{0.00,1.39,{0,0,0,0,0,0,0,2,0,-1}},
{-0.12,-1.27,{0,0,0,0,0,0,0,4,0,-1,0,0,0,2}},{0.32,-1.07,{0,0,0,0,0,0,0,1}},{0.56,0.84,{0,0,0,0,0,0,0,2,-4,0,0,0,0,-1}},
{-0.44,-0.95,{0,0,0,0,0,0,0,0,0,2,-5,0,0,-2}},{1.03,-0.36,{2,0,-1,-1,0,0,0,3,-7}},{-0.28,1.11,{0,0,1,-1,1,0,-4,5}},
{0.44,0.95,{0,0,1,-1,2,0,0,-1,0,0,2}},{-1.35,0.00,{1,-1,-2,2}},{-1.35,0.00,{0,0,0,0,0,0,9,-11,0,0,0,0,0,-2}},
{0.88,0.48,{0,0,0,0,0,0,0,1,-8,3,0,0,0,-2}},{1.35,0.00,{1,0,0,-2,0,0,0,-2,0,2}},{1.35,0.00,{1,0,0,-1,-2}},
{-1.31,0.00,{0,1,-2,2,1}},{1.31,0.00,{1,0,-2,1,-2}},{-1.19,-0.12,{0,0,0,0,0,0,2,-3,0,0,0,0,0,-1}},{1.27,0.00,{0,0,4,0,1}},
{0.40,-0.88,{0,0,2,-2,1,0,0,-9,13}},{1.27,0.00,{1,0,-2,-6,-2}},{1.27,0.00,{3,1,2,-2,2}},{-0.16,-1.11,{0,0,0,0,0,0,1}},
{-0.84,0.44,{2,0,0,0,0,0,0,-2,0,3}},{0.84,-0.44,{1,0,2,0,1,0,0,-2,0,3}},{0.84,-0.44,{1,0,-2,0,-1,0,0,-1}},
{-1.27,0.00,{1,0,-4,-2,-2}},{-1.27,0.00,{1,0,0,4,1}},{1.27,0.00,{1,1,0,2,1}},{-0.44,-0.84,{0,0,0,0,1,0,0,-2,4}},
{0.00,-1.27,{0,0,0,0,1,0,2,-3}},{-1.27,0.00,{2,0,2,-4,2}},{-1.23,0.00,{1,-1,-2,-4,-2}},{-1.23,0.00,{1,-2,2,2,2}},
{1.23,0.00,{0,0,2,-1}},{0.00,1.23,{0,0,0,0,0,0,0,3,-6}},{-0.12,1.11,{0,0,1,1,1,0,0,1}},{1.22,0.00,{0,0,2,-4,2}},
{1.19,0.00,{1,1,-2,-4,-1}},{-0.24,0.95,{0,0,0,0,0,0,4,-4,0,0,0,0,0,-1}},{-0.76,-0.44,{0,0,0,0,0,0,0,3,-8,3}},
{0.91,0.28,{0,0,0,0,0,0,0,1,-2,0,0,0,0,1}},{1.19,0.00,{1,1,-2,1}},{1.19,0.00,{3,0,2}},{0.00,1.19,{0,0,1,0,2}},
{1.15,0.00,{2,-1,0,0,-1}},{0.00,1.15,{1,0,0,-1,1,0,-3,4}},{-1.15,0.00,{1,0,2,4,1}},{1.15,0.00,{2,-1,-2}},
{-1.15,0.00,{2,0,-2,2}},{1.15,0.00,{3,-1}},{1.15,0.00,{0,0,0,0,0,0,0,3,0,0,-1,0,0,2}},
{-0.95,0.20,{0,0,0,0,0,0,6,-10,0,0,0,0,0,-2}},{0.24,0.91,{0,0,0,0,0,0,0,0,0,3,0,0,0,1}},{-1.15,0.00,{1,1,2,-2}},
{-1.12,0.00,{0,1,2,-2,-1}},{-1.11,0.00,{1,0,0,1,-1}},{-1.11,0.00,{1,2,0,-2,-1}},{0.16,0.95,{0,0,0,0,1,0,0,0,0,0,1}},
{-1.11,0.00,{2,0,2,-4}},{1.11,0.00,{0,0,0,0,0,0,7,-7}},{0.20,-0.91,{0,0,0,0,0,0,1,1,0,0,0,0,0,1}},
{-0.72,-0.40,{0,0,0,0,0,0,0,0,3,0,0,0,0,2}},{-1.11,0.00,{1,1,-2,-2}},{-1.11,0.00,{0,0,0,0,1,0,1,-1}},
{1.07,0.00,{2,-1,-2,-2,-2}},{-1.07,0.00,{2,0,2,4,2}},{0.00,-1.07,{0,0,0,0,0,0,3,-6,0,0,0,0,0,-2}},
{1.07,0.00,{0,0,0,0,0,0,0,3,-3}},{0.76,-0.32,{0,0,0,0,0,0,0,1,-4,0,0,0,0,-2}},{1.07,0.00,{0,0,2,-2,1,0,-4,4}},
{-1.07,0.00,{0,1,-2,-2}},{1.07,0.00,{0,0,2,-3,1}},{-0.84,-0.24,{0,0,0,0,1,0,-3,5}},{0.00,-1.03,{0,0,3,0,3}},
{1.03,0.00,{2,1,2,2,2}},{-1.03,0.00,{3,0,2,-4,2}},{-0.24,0.80,{0,0,0,0,0,0,0,1,0,0,-2}},{0.20,0.84,{0,0,1,-1,1,0,-1}},
{-1.03,0.00,{3,0,-2,-2,-1}},{-1.03,0.00,{0,0,0,0,3}},{-0.99,0.00,{2,0,0,1}},{0.24,0.76,{0,0,0,0,0,0,2,-1}},
{-0.99,0.00,{0,0,0,0,0,0,0,7,-8,3,0,0,0,2}},{-0.16,0.84,{0,0,0,0,0,0,0,2,0,-2,0,0,0,1}},{-0.99,0.00,{0,0,0,0,0,0,0,1,-1}},
{-0.64,0.36,{0,0,0,0,0,0,0,4,-7,0,0,0,0,-2}},{0.99,0.00,{1,-2,0,2}},{0.36,-0.64,{0,0,1,-1,0,0,0,-1,0,-2,5}},
{-0.95,0.00,{3,0,2,2,1}},{-0.95,0.00,{1,-1,2,4,2}},{0.00,0.95,{0,0,1,-1,0,0,0,-1,0,-1,1}},{0.64,0.32,{1,0,0,-1,0,0,0,-3,4}},
{0.84,0.12,{0,0,0,0,0,0,0,5,-8,3}},{0.00,-0.95,{0,0,0,0,0,0,7,-10,0,0,0,0,0,-2}},{0.20,0.76,{0,0,0,0,0,0,6,-8,0,0,0,0,0,-1}},
{-0.95,0.00,{3,0,-2}},{0.95,0.00,{1,0,4,0,2}},{-0.95,0.00,{1,-1,-2,2,-2}},{0.00,0.92,{1,0,0,-1,-1,0,-3,4}},
{0.91,0.00,{1,1,2,2,1}},{0.91,0.00,{3,0,-2,-6,-2}},{0.40,0.52,{1,-2,2,-2,1}},{-0.91,0.00,{5,0,2,0,2}},
{-0.56,0.36,{0,0,0,0,0,0,3,-9,4,0,0,0,0,-2}},{0.44,-0.48,{0,0,1,-1,1,0,8,-14}},{-0.91,0.00,{2,0,0,-6}},{-0.91,0.00,{3,1}},
{-0.36,-0.56,{0,0,1,-1,1,0,3,-6}},{0.91,0.00,{1,0,0,2,2}},{-0.88,0.00,{1,2,0,-2,1}},{-0.88,0.00,{2,1,0,0,-1}},
{0.60,-0.28,{0,0,0,0,1,0,0,8,-15}},{0.88,0.00,{0,2,-2,-2,-1}},{0.56,0.32,{0,0,0,0,0,0,0,8,-15,0,0,0,0,-2}},
{0.00,0.88,{0,0,0,0,0,0,0,4,-7}},{0.36,-0.52,{0,0,1,-1,1,0,0,-3,4}},{-0.52,0.36,{0,0,0,0,0,0,3,-5,4,0,0,0,0,2}},
{0.52,0.36,{0,0,0,0,0,0,0,6,0,0,0,0,0,2}},{0.64,-0.24,{0,0,0,0,0,0,0,4,-5}},{0.88,0.00,{1,-1,0,-4}},{0.88,0.00,{1,-1,2}},
{0.88,0.00,{1,-1,2,-1,2}},{0.84,0.00,{0,1,0,-2,-2}},{-0.68,-0.16,{2,0,0,-2,1,0,-6,8}},{0.84,0.00,{1,2,2,0,2}},
{0.56,0.28,{0,0,1,-1,0,0,-8,12}},{-0.16,0.68,{0,0,0,0,0,0,5,-5,0,0,0,0,0,-1}},{0.16,0.68,{0,0,0,0,0,0,1,2,0,0,0,0,0,2}},
{0.72,-0.12,{0,0,0,0,0,0,0,3,0,-3}},{0.64,-0.20,{0,0,0,0,0,0,5,-7}},{-0.83,0.00,{2,0,-2,0,2}},{-0.80,0.00,{2,1,0,0,1}},
{0.80,0.00,{2,2,0,-2}},{-0.80,0.00,{4,0,0,-2}},{0.68,-0.12,{0,0,0,0,0,0,3,0,0,0,0,0,0,2}},
{-0.32,0.48,{0,0,0,0,0,0,0,5,-9,0,0,0,0,-2}},{0.00,-0.80,{0,0,0,0,0,0,0,2,0,0,-1,0,0,2}},{0.28,0.52,{0,0,0,0,0,0,0,5,-9}},
{0.36,-0.44,{0,0,0,0,0,0,0,3,0,-3,0,0,0,2}},{-0.36,-0.44,{0,0,0,0,0,0,0,0,0,0,0,0,2,1}},{-0.80,0.00,{0,1,2}},
{0.79,0.00,{1,1,0,-2,-2}},{0.74,-0.04,{0,0,2,-2,3}},{-0.76,0.00,{0,0,0,0,1,0,-1,1}},{0.00,0.76,{0,0,0,0,1,0,-2,3}},
{0.16,0.60,{0,0,0,0,1,0,0,0,0,-1}},{-0.76,0.00,{1,0,0,1,1}},{-0.76,0.00,{3,0,0,-4,-1}},{0.76,0.00,{2,1,-2,-4,-1}},
{-0.76,0.00,{2,-1,-2,-4,-2}},{0.76,0.00,{1,0,-4,2,-1}},{0.12,0.64,{0,0,1,-1,0,0,0,-1,0,2}},{0.76,0.00,{1,0,0,-2,0,0,-3,3}},
{0.00,0.76,{0,0,1,-1,1,0,0,-9,15}},{0.76,0.00,{0,0,0,0,0,0,8,-8}},{0.64,-0.12,{0,0,0,0,0,0,7,-11,0,0,0,0,0,-2}},
{0.16,-0.60,{0,0,0,0,0,0,2,0,0,0,0,0,0,1}},{0.28,-0.48,{0,0,0,0,0,0,0,5,-5,0,0,0,0,2}},
{0.76,0.00,{0,0,0,0,0,0,0,3,-1,0,0,0,0,2}},{0.00,-0.76,{0,0,0,0,0,0,0,2,0,0,1,0,0,2}},{0.32,0.44,{0,0,0,0,0,0,0,1,0,1}},
{-0.76,0.00,{1,1,2}},{0.72,0.00,{4,0,2,-2,1}},{0.72,0.00,{1,-1,-2}},{0.48,-0.24,{0,0,0,0,0,0,0,2,0,-2,5,0,0,2}},
{-0.72,0.00,{0,1,2,-4,1}},{0.72,0.00,{0,0,1,-1,1,0,-2,2}},{-0.72,0.00,{0,0,2,1}},{-0.72,0.00,{3,0,-2,0,-2}},
{-0.71,0.00,{1,-1,0,0,2}},{-0.68,0.00,{1,0,-2,-2,1}},{-0.68,0.00,{0,2,0,-2,1}},{0.68,0.00,{0,1,-4,2,-2}},
{0.68,0.00,{0,1,2,4,2}},{0.68,0.00,{1,0,-2,4,-1}},{-0.68,0.00,{0,2,2,-2}},{0.56,-0.12,{0,0,0,0,0,0,5,-3,0,0,0,0,0,2}},
{-0.68,0.00,{0,0,0,0,0,0,0,3,-5,0,0,0,0,-2}},{-0.68,0.00,{0,0,0,0,0,0,0,2,0,-4,0,0,0,-2}},
{0.20,0.48,{0,0,0,0,0,0,0,3,0,2,-5,0,0,2}},{-0.44,-0.24,{0,0,0,0,0,0,0,2,0,2,-5,0,0,2}},{-0.68,0.00,{1,1,-2}},
{0.64,0.00,{2,0,0,-2,1,0,-3,3}},{0.64,0.00,{3,0,0,-2,-1}},{-0.64,0.00,{2,-1,2,2,1}},{0.64,0.00,{0,1,-2,-4,-1}},
{-0.64,0.00,{1,0,-2,-3,-1}},{-0.12,0.52,{0,0,0,0,0,0,6,-6,0,0,0,0,0,-1}},{-0.12,-0.52,{0,0,0,0,0,0,2,-2,0,0,0,0,0,1}},
{-0.20,-0.44,{0,0,0,0,0,0,2,-3,0,0,0,0,0,-2}},{-0.44,0.20,{0,0,0,0,0,0,0,11,0,0,0,0,0,2}},
{-0.44,0.20,{0,0,0,0,0,0,0,6,-15,0,0,0,0,-2}},{0.24,-0.40,{0,0,0,0,0,0,0,4,-8,0,0,0,0,-2}},
{-0.20,-0.44,{0,0,0,0,0,0,0,3,0,1,0,0,0,2}},{-0.16,-0.48,{0,0,0,0,0,0,0,3,0,-2}},{-0.64,0.00,{1,0,0,-6}},
{0.40,-0.24,{0,0,0,0,1,0,3,-7,4}},{-0.64,0.00,{1,0,-2,-4}},{0.64,0.00,{0,1,0,-4,-1}},{-0.63,0.00,{2,0,-2,2,-2}},
{-0.60,0.00,{0,1,-2,1,-1}},{0.00,0.60,{0,0,2,-2,2,0,-8,11}},{-0.60,0.00,{2,0,-2,-3,-2}},{-0.60,0.00,{4,0,2,2,2}},
{0.12,0.48,{0,0,0,0,0,0,7,-9,0,0,0,0,0,-1}},{0.48,-0.12,{0,0,0,0,0,0,4,-7,0,0,0,0,0,-1}},
{0.12,0.48,{0,0,0,0,0,0,3,-3,0,0,0,0,0,1}},{0.12,0.48,{0,0,0,0,0,0,0,5,0,-2,0,0,0,2}},{0.60,0.00,{0,0,0,0,0,0,0,2,0,0,-2}},
{0.00,0.60,{0,0,0,0,0,0,0,0,0,0,3,0,0,2}},{0.24,-0.36,{2,0,0,-2,0,0,0,-2,0,4,-3}},
{0.24,-0.36,{0,0,0,0,0,0,0,6,-6,0,0,0,0,2}},{0.36,0.24,{0,0,0,0,0,0,0,6,-11}},{0.44,0.16,{0,0,0,0,0,0,0,2,0,-4}},
{-0.60,0.00,{0,0,0,3}},{-0.60,0.00,{2,0,0,-2,0,0,0,-2,0,3,-1}},{0.60,0.00,{2,-1,0,-4}},{0.00,0.60,{0,0,1,-1,2,0,0,-2,2}},
{0.59,0.00,{0,0,0,0,1,0,0,1,0,-1}},{-0.56,0.00,{3,0,0,-4,1}},{-0.44,-0.12,{2,0,0,-2,-1,0,-6,8}},{0.56,0.00,{1,2,-2,-2,-1}},
{0.00,0.56,{0,0,1,-1,1,0,0,-1,0,-1,1}},{-0.56,0.00,{3,1,0,-4}},{-0.56,0.00,{3,0,0,-6}},
{0.16,0.40,{0,0,0,0,0,1,0,-4,0,0,0,0,0,-2}},{0.44,-0.12,{0,0,0,0,0,0,4,-4,0,0,0,0,0,2}},{0.56,0.00,{0,0,0,0,0,0,0,6}},
{-0.56,0.00,{0,0,0,0,0,0,0,1,0,0,1,0,0,2}},{0.20,-0.36,{0,0,0,0,0,0,0,1,-5,0,0,0,0,-2}},{-0.36,-0.20,{0,0,0,0,1,0,-3,7,-4}},
{-0.56,0.00,{0,0,4,-4,1}},{0.55,0.00,{1,1,0,-2,2}},{0.52,0.00,{1,0,0,-4,-2}},{-0.52,0.00,{1,1,0,-4,1}},
{0.52,0.00,{0,0,0,0,1,0,3,-5,0,2}},{0.52,0.00,{0,1,0,-1}},{0.16,0.36,{0,0,1,-1,0,0,0,-1,0,0,2}},
{-0.52,0.00,{0,0,2,-2,0,0,-3,3}},{0.12,0.40,{0,0,0,0,0,0,5,-6,0,0,0,0,0,2}},{-0.52,0.00,{1,0,0,-2,0,0,0,-2,0,3}},
{-0.52,0.00,{1,0,-2,-2,-2,0,0,-2,0,2}},{-0.52,0.00,{0,0,2,6,2}},{0.00,-0.52,{0,0,1,-1,1,0,2,-4,0,-3}},
{0.52,0.00,{0,0,0,0,0,0,9,-9}},{-0.52,0.00,{0,0,0,0,0,0,0,1,1,0,0,0,0,2}},{0.52,0.00,{1,0,-4}},{-0.52,0.00,{2,0,-2,-4}},
{0.00,-0.52,{1,0,1,0,1}},{0.52,0.00,{1,1,0,0,2}},{0.52,0.00,{0,0,0,1,2}},{-0.51,0.00,{1,0,0,2,-2}},{-0.51,0.00,{1,0,2,0,3}},
{0.48,0.00,{0,1,0,2,2}},{0.48,0.00,{0,0,2,2,-1}},{-0.16,0.32,{0,0,0,0,1,0,0,2,-4}},{-0.48,0.00,{1,-2,2,-2,2}},
{-0.48,0.00,{0,1,-2,-1,-2}},{0.48,0.00,{3,-1,2,-2,2}},{0.48,0.00,{4,0,0,-4}},{-0.48,0.00,{3,-1,2,2,2}},
{-0.12,-0.36,{0,0,1,-1,1,0,0,-1,0,3}},{-0.32,0.16,{0,0,1,-1,1,0,0,-1,0,0,3}},{0.32,-0.16,{0,0,0,0,0,0,4,-2,0,0,0,0,0,2}},
{-0.12,-0.36,{0,0,0,0,0,0,3,-5,0,0,0,0,0,1}},{0.16,0.32,{0,0,0,0,0,0,0,7,-13,0,0,0,0,-2}},{0.20,-0.28,{0,0,0,0,0,0,0,5,-7}},
{-0.20,-0.28,{0,0,0,0,0,0,0,1,0,3,0,0,0,2}},{-0.36,0.12,{0,0,0,0,0,0,0,0,0,4,0,0,0,2}},
{-0.48,0.00,{0,0,0,0,0,0,0,0,0,2,-5,0,0,2}},{0.32,-0.16,{0,0,0,0,0,0,0,0,0,0,3,0,0,1}},{0.48,0.00,{1,-1,0,4}},
{-0.48,0.00,{2,1,0,2}},{-0.48,0.00,{2,0,0,-2,-1,0,0,-2,0,0,5}},{-0.48,0.00,{3,0,0,2,1}},{0.00,-0.48,{1,0,1,-2,1}},
{0.48,0.00,{1,1,0,-4,-1}},{-0.48,0.00,{0,0,2,-2,2,0,-3,3}},{-0.48,0.00,{1,0,0,-1,2}},{0.00,0.48,{0,0,2,-2,2,0,-5,6}},
{0.44,0.00,{0,0,0,0,1,0,0,-1,0,1}},{-0.32,-0.12,{0,0,1,-1,-1,0,0,0,-2}},{-0.44,0.00,{0,1,-2}},
{0.20,-0.24,{0,0,0,0,0,0,0,9,-17}},{0.12,0.32,{0,0,0,0,0,0,5,-10,0,0,0,0,0,-2}},{0.32,-0.12,{0,0,0,0,0,0,1,-3}},
{0.44,0.00,{3,-1,-2,-1,-2}},{-0.44,0.00,{1,-1,0,-3}},{0.44,0.00,{0,0,2,-2,1,0,-2,2}},
{0.20,-0.24,{0,0,0,0,0,0,8,-13,0,0,0,0,0,1}},{-0.20,0.24,{0,0,0,0,0,0,1,0,0,0,0,0,0,2}},
{0.00,0.44,{0,0,0,0,0,0,0,6,-11,0,0,0,0,-2}},{0.00,0.44,{0,0,0,0,0,0,0,5,-8}},{0.44,0.00,{0,0,0,0,0,0,0,1,-3,0,0,0,0,-2}},
{-0.44,0.00,{1,2,0,-4}},{-0.44,0.00,{0,1,0,4}},{-0.44,0.00,{3,0,2,-2}},{0.44,0.00,{1,-1,2,-4,1}},{0.44,0.00,{2,0,2,2}},
{0.40,0.00,{2,0,2,0,-1}},{-0.40,0.00,{2,1,0,-4,-1}},{-0.40,0.00,{2,1,0,-4,1}},{-0.40,0.00,{1,0,4,-4,2}},
{0.40,0.00,{2,0,-4,0,-1}},{0.24,0.16,{2,0,0,-2,-1,0,0,-5,6}},{0.00,-0.40,{0,0,3,0,2}},{0.12,0.28,{2,0,-1,-1,-1,0,0,-1,0,3}},
{0.40,0.00,{1,2,-2,-4,-2}},{-0.40,0.00,{0,0,4,-1,2}},{0.40,0.00,{0,0,0,0,0,0,0,7,-13}},
{-0.12,-0.28,{0,0,0,0,0,0,0,4,-8,1,5,0,0,-2}},{0.40,0.00,{5,0,2,-2,2}},{0.00,-0.40,{0,0,0,0,0,0,9,-12,0,0,0,0,0,-2}},
{-0.40,0.00,{0,0,0,0,0,0,5,-9,0,0,0,0,0,-2}},{0.00,-0.40,{0,0,0,0,0,0,4,-4,0,0,0,0,0,1}},
{0.00,-0.40,{0,0,0,0,0,0,3,-1,0,0,0,0,0,1}},{0.20,-0.20,{0,0,0,0,0,0,2,-4}},{-0.40,0.00,{0,0,0,0,0,0,1,-2,0,0,0,0,0,1}},
{-0.40,0.00,{0,0,0,0,0,0,0,5,-3,0,0,0,0,2}},{0.40,0.00,{0,0,0,0,0,0,3,-5,0,2}},{0.40,0.00,{1,1,-2,2}},{0.40,0.00,{2,0,0,4}},
{0.40,0.00,{0,0,0,3,1}},{0.40,0.00,{4,0,-2,-2,-1}},{0.00,0.40,{0,0,1,-1,2,0,0,-1,0,2}},{-0.20,-0.16,{0,0,0,0,2,0,0,-1,2}},
{0.36,0.00,{1,0,0,-3,1}},{0.36,0.00,{1,-2,0,0,1}},{0.24,-0.12,{0,2,-2,0,-1}},{0.20,-0.16,{2,0,-1,-1,-1,0,0,3,-7}},
{0.00,0.36,{0,0,2,0,2,0,0,-4,8,-3}},{0.00,0.36,{0,0,2,0,2,0,0,4,-8,3}},{-0.36,0.00,{2,1,-2,-2,-1}},{0.12,0.24,{1,0,1}},
{-0.36,0.00,{2,-2,2,0,2}},{-0.36,0.00,{0,3,0,-2}},{-0.36,0.00,{2,-1,0,-1}},{-0.36,0.00,{1,3,0,-2}},
{0.36,0.00,{1,-1,-2,-3,-2}},{0.00,0.36,{0,0,1,-1,1,0,-2,3}},{0.00,0.36,{0,0,0,0,0,0,7,-7,0,0,0,0,0,-1}},
{0.00,0.36,{0,0,0,0,0,0,6,-7}},{-0.36,0.00,{0,0,0,0,0,0,6,-9,0,0,0,0,0,-1}},{0.00,0.36,{0,0,0,0,0,0,4,-3,0,0,0,0,0,2}},
{0.12,-0.24,{0,0,0,0,0,0,1,-2,0,0,0,0,0,-2}},{-0.24,0.12,{0,0,0,0,0,0,0,6,-5,0,0,0,0,2}},
{-0.36,0.00,{0,0,0,0,0,0,0,5,0,-3,0,0,0,2}},{0.00,0.36,{0,0,0,0,0,0,0,3,-2}},{0.36,0.00,{0,0,0,0,0,0,0,3,-6,0,0,0,0,-1}},
{0.24,-0.12,{0,0,0,0,0,0,0,2,-5,0,0,0,0,-2}},{0.00,-0.36,{0,0,1,-1,1,0,0,1}},{-0.36,0.00,{1,-2,-2,0,-2}},
{0.36,0.00,{2,0,0,2,2}},{0.36,0.00,{0,1,0,-2,2}},{-0.36,0.00,{0,0,2,0,-2}},{0.36,0.00,{0,0,2,-2,-2}},
{-0.13,0.22,{0,0,1,-1,2,0,0,-1,0,-2,5}},{-0.32,0.00,{0,0,0,0,1,0,3,-5}},{-0.32,0.00,{1,1,0,2,-1}},{0.32,0.00,{4,0,0,0,-1}},
{-0.20,-0.12,{0,0,0,0,1,0,0,-8,15}},{0.32,0.00,{0,2,2,0,1}},{0.12,0.20,{2,0,0,-2,1,0,0,-6,8}},{-0.32,0.00,{3,-1,2,0,1}},
{0.32,0.00,{0,0,2,0,2,0,1,-1}},{-0.32,0.00,{0,0,2,0,2,0,-1,1}},{-0.32,0.00,{2,0,2,-1,1}},
{0.00,-0.32,{2,0,-1,-1,-2,0,0,-1,0,2}},{0.32,0.00,{1,2,2,-2,1}},{0.32,0.00,{2,2,2,-2,2}},{0.12,-0.20,{0,0,2,-2,0,0,0,-9,13}},
{-0.32,0.00,{3,0,2,-1,2}},{0.00,-0.32,{1,0,0,-2,0,0,20,-21}},{0.32,0.00,{0,0,2,-2,1,0,0,-2,0,0,2}},
{0.00,0.32,{0,0,2,-2,1,0,0,-8,11}},{0.00,-0.32,{0,0,1,-1,1,0,0,-1,0,0,0,2}},{0.00,-0.32,{0,0,1,-1,1,0,0,-1,0,-1,2}},
{0.20,0.12,{0,0,1,-1,1,0,0,-1,0,-2,4}},{0.20,0.12,{0,0,0,0,0,1,0,-4}},{0.32,0.00,{0,0,0,0,0,0,8,-12}},
{-0.32,0.00,{0,0,0,0,0,0,5,-5,0,0,0,0,0,2}},{0.00,0.32,{0,0,0,0,0,0,5,-6}},{0.32,0.00,{0,0,0,0,0,0,2,-6,0,0,0,0,0,-2}},
{0.00,0.32,{0,0,0,0,0,0,0,8,-15,0,0,0,0,-1}},{0.00,-0.32,{0,0,0,0,0,0,0,5,-2,0,0,0,0,2}},
{-0.20,0.12,{0,0,0,0,0,0,0,5,-8,0,0,0,0,-2}},{0.32,0.00,{0,0,0,0,0,0,0,4,-4}},{0.12,0.20,{0,0,0,0,0,0,0,4,-8}},
{0.12,-0.20,{0,0,0,0,0,0,0,2,-6,0,0,0,0,-2}},{0.00,0.32,{0,0,0,0,0,0,0,0,0,0,1,0,0,2}},
{-0.16,0.16,{0,0,0,0,0,0,0,2,2,0,0,0,0,2}},{-0.16,0.16,{0,0,0,0,0,0,0,1,0,-4}},{0.00,0.32,{0,0,2,-2,1,-1,0,2}},
{-0.32,0.00,{0,0,4,-2}},{0.32,0.00,{0,0,0,1,-2}},{0.28,0.00,{2,0,-4,2,-2}},{-0.28,0.00,{0,0,0,4,2}},{0.28,0.00,{1,0,0,4,-1}},
{0.28,0.00,{1,-2,0,-2,-1}},{0.28,0.00,{1,1,0,-1,1}},{0.16,0.12,{1,0,0,-1,1,0,0,-3,4}},{0.28,0.00,{3,1,2,0,1}},
{-0.28,0.00,{1,1,2,1,1}},{-0.12,-0.16,{0,0,0,0,1,0,0,-9,17}},{0.28,0.00,{1,1,4,-2,2}},{-0.28,0.00,{4,0,2,-4,2}},
{-0.28,0.00,{0,2,0,2}},{0.28,0.00,{1,0,2,-3}},{0.28,0.00,{3,0,-2,-2}},{0.28,0.00,{2,-2}},{0.28,0.00,{1,1,0,-3}},
{0.28,0.00,{1,0,2,3,2}},{0.28,0.00,{1,0,0,-2,0,0,0,1,0,-1}},{-0.28,0.00,{1,0,-2,-2,-2,0,-3,3}},
{0.28,0.00,{0,0,2,-2,1,0,0,-2,0,3}},{0.00,0.28,{0,0,0,0,0,0,8,-8,0,0,0,0,0,-1}},{0.00,0.28,{0,0,0,0,0,0,8,-10,0,0,0,0,0,-1}},
{0.00,-0.28,{0,0,0,0,0,0,4,-2,0,0,0,0,0,1}},{-0.28,0.00,{0,0,0,0,0,0,3,-4,0,0,0,0,0,-1}},
{0.28,0.00,{0,0,0,0,0,0,3,-6,0,0,0,0,0,-1}},{-0.12,-0.16,{0,0,0,0,0,0,1,-4,0,0,0,0,0,-2}},
{0.00,0.28,{0,0,0,0,0,0,0,6,0,0,0,0,0,1}},{0.00,-0.28,{0,0,0,0,0,0,0,6,-7,0,0,0,0,2}},{0.12,-0.16,{0,0,0,0,0,0,0,4}},
{-0.28,0.00,{0,0,0,0,0,0,0,4,0,0,-2,0,0,2}},{0.00,-0.28,{0,0,0,0,0,0,0,3,0,0,-2,0,0,2}},
{0.00,0.28,{0,0,0,0,0,0,0,1,0,-1,0,0,0,1}},{0.00,-0.28,{0,0,0,0,0,0,0,1,-6,0,0,0,0,-2}},
{0.28,0.00,{0,0,0,0,0,0,0,0,0,4,-5,0,0,2}},{-0.28,0.00,{0,0,0,0,0,0,0,0,0,0,0,2,0,2}},{-0.28,0.00,{0,0,0,0,0,0,3,-7,4}},
{0.28,0.00,{1,-1,2,-2}},{0.28,0.00,{1,1,2,-4}},{0.12,-0.16,{0,0,1,-1,1,0,0,-1,0,0,-2}},{0.28,0.00,{0,0,2,4}},
{0.28,0.00,{2,-1,-2,0,-2}},{-0.28,0.00,{0,0,1,-1,2,0,0,0,-2}},{0.00,-0.28,{0,0,0,0,2,0,0,4,-8,3}},
{0.00,-0.28,{0,0,0,0,2,0,0,-4,8,-3}},{0.28,0.00,{1,1,2,-4,2}},{0.00,0.24,{0,0,2,-2,-1,0,-5,6}},{0.24,0.00,{1,-2,0,-2,1}},
{-0.24,0.00,{0,1,0,-4,1}},{-0.24,0.00,{1,-2,2,0,1}},{0.24,0.00,{0,0,2,0,2,0,0,-1,0,1}},{-0.24,0.00,{0,0,2,0,2,0,0,1,0,-1}},
{-0.24,0.00,{2,0,-4,-2,-1}},{0.24,0.00,{2,0,2,1,1}},{0.24,0.00,{2,0,-2,-6,-1}},{0.00,-0.24,{2,0,-1,-1,-1,0,0,-1,0,2}},
{-0.24,0.00,{4,-1,2,0,2}},{0.12,-0.12,{0,0,0,0,0,0,2,-3,0,0,0,0,0,1}},{0.24,0.00,{5}},{-0.24,0.00,{3,0,0,-3}},
{-0.24,0.00,{2,2,0,-4}},{0.24,0.00,{2,2,-2,-4,-2}},{-0.24,0.00,{2,1,2,1,2}},{-0.24,0.00,{1,0,2,-2,2,0,0,-2,0,2}},
{-0.24,0.00,{1,0,0,0,0,0,0,-2,0,2}},{0.24,0.00,{1,0,0,-2,0,0,2,-2}},{0.00,-0.24,{1,0,-1,1,-1,0,-18,17}},
{0.24,0.00,{0,2,-2,-4,-2}},{-0.24,0.00,{0,1,2,3,2}},{0.24,0.00,{0,0,0,0,0,0,8,-12,0,0,0,0,0,-2}},
{0.24,0.00,{0,0,0,0,0,0,8,-16,0,0,0,0,0,-2}},{0.00,0.24,{0,0,0,0,0,0,7,-8}},{0.00,-0.24,{0,0,0,0,0,0,0,5,-6,0,0,0,0,2}},
{-0.24,0.00,{0,0,0,0,0,0,0,4,-6,0,0,0,0,-2}},{0.00,0.24,{0,0,0,0,0,0,0,4,-8,1,5,0,0,2}},
{-0.24,0.00,{0,0,0,0,0,0,0,2,0,-2,0,0,0,2}},{0.00,-0.24,{0,0,0,0,0,0,0,2,-7,0,0,0,0,-2}},{0.24,0.00,{0,0,0,0,0,0,0,0,2}},
{-0.24,0.00,{0,0,0,0,0,0,0,0,0,0,5,0,0,2}},{-0.24,0.00,{0,0,0,0,0,0,0,0,0,0,0,0,2,2}},{0.24,0.00,{0,1,0,3}},
{0.24,0.00,{0,2,2,2,2}},{0.24,0.00,{2,-1,2,-1,2}},{0.24,0.00,{1,-1,2,2}},{0.24,0.00,{2,1,2,-4,1}},
{-0.24,0.00,{2,0,0,-2,-2,0,-3,3}},{-0.24,0.00,{1,-1,0,-4,-1}},{0.00,0.24,{0,0,1,-1,2,0,0,-1,0,1}},
{0.00,-0.24,{0,0,1,-1,2,0,0,-1,0,-1}},{0.24,0.00,{0,0,0,0,1,0,2,-2}},{0.00,0.20,{1,0,-1,0,1}},{0.20,0.00,{2,-2,0,-2,1}},
{-0.20,0.00,{0,0,1,-1,2,0,0,-1,0,0,1}},{0.20,0.00,{2,0,0,-2,-1,0,-3,3}},{0.20,0.00,{1,-2,0,0,-1}},
{0.00,0.20,{0,0,0,0,1,0,0,0,0,0,-1}},{-0.20,0.00,{1,0,-2,1,1}},{0.20,0.00,{2,0,0,-3,-1}},{0.20,0.00,{2,1,-2,0,1}},
{0.20,0.00,{2,0,0,-1,1}},{0.20,0.00,{2,-1,2,-2,1}},{0.20,0.00,{1,-1,-4,2,-2}},{-0.20,0.00,{1,-2,-2,-2,-1}},
{0.20,0.00,{2,0,4,-2,1}},{0.20,0.00,{0,0,2,3,1}},{0.20,0.00,{0,1,4,-2,1}},{0.20,0.00,{1,0,-2,0,-2,0,-10,3}},
{0.00,0.20,{1,0,1,-2}},{0.20,0.00,{1,-1,2,1,2}},{0.20,0.00,{4,1,2,0,2}},{0.20,0.00,{0,0,2,-2,1,0,0,-1,0,1}},
{0.20,0.00,{1,0,0,-1,0,0,0,-2,2}},{-0.20,0.00,{0,0,2,-2,0,0,0,-2,0,2}},{0.00,-0.20,{1,0,0,0,0,0,0,4,-8,3}},
{-0.20,0.00,{4,-1,-2,-2,-2}},{0.20,0.00,{2,1,-2,-6,-2}},{-0.20,0.00,{2,0,0,-2,0,0,0,-4,8,-3}},
{0.20,0.00,{2,0,0,-2,0,0,-2,2}},{0.20,0.00,{2,0,0,-2,-1,0,0,-2,0,4,-5}},{0.00,-0.20,{2,0,-1,-1,-1,0,0,-1}},
{-0.20,0.00,{1,1,-2,-3,-2}},{0.00,-0.20,{1,0,3,0,3}},{0.00,0.20,{1,0,1,-1,1,0,0,-1}},{0.00,-0.20,{1,0,0,0,0,0,0,-4,8,-3}},
{0.20,0.00,{1,0,0,0,0,0,-1,1}},{0.00,0.20,{1,0,0,-2,0,0,17,-16,0,-2}},{-0.20,0.00,{1,0,-1,-1,-1,0,20,-20}},
{0.20,0.00,{1,0,-2,-2,-2,0,0,-2,0,3}},{0.20,0.00,{0,3,-2,-2,-2}},{0.00,0.20,{0,0,1,-1,1,0,1,-2}},
{0.00,0.20,{0,0,1,-1,1,0,-2,1}},{-0.20,0.00,{0,0,1,-1}},{0.00,0.20,{0,0,0,0,0,0,9,-9,0,0,0,0,0,-1}},
{0.00,0.20,{0,0,0,0,0,0,9,-11,0,0,0,0,0,-1}},{0.00,0.20,{0,0,0,0,0,0,6,-10,0,0,0,0,0,-1}},
{0.00,-0.20,{0,0,0,0,0,0,5,-3,0,0,0,0,0,1}},{-0.20,0.00,{0,0,0,0,0,0,4,-5,0,0,0,0,0,-1}},
{0.00,-0.20,{0,0,0,0,0,0,3,-4,0,0,0,0,0,-2}},{0.00,-0.20,{0,0,0,0,0,0,0,6,-9}},{0.00,-0.20,{0,0,0,0,0,0,0,5,-10,0,0,0,0,-2}},
{-0.20,0.00,{0,0,0,0,0,0,0,4,0,-4,0,0,0,2}},{0.20,0.00,{0,0,0,0,0,0,0,3,0,-4}},{-0.20,0.00,{0,0,0,0,0,0,0,2}},
{-0.20,0.00,{0,0,0,0,0,0,0,2,0,-5,0,0,0,-2}},{0.00,0.20,{0,0,0,0,0,0,0,1,0,-2,5,0,0,2}},
{0.20,0.00,{0,0,0,0,0,0,0,1,0,-2,0,0,0,-2}},{0.00,-0.20,{0,0,0,0,0,0,0,1,0,-3,0,0,0,-1}},
{-0.20,0.00,{0,0,0,0,0,0,0,1,0,-5,0,0,0,-2}},{0.00,-0.20,{0,0,0,0,0,0,0,0,0,0,0,2,0,1}},
{0.00,0.20,{0,0,0,0,0,0,0,0,0,0,0,1,-2,-2}},{-0.20,0.00,{0,2,0,-4}},{0.20,0.00,{0,0,0,6}},{-0.20,0.00,{3,0,0,-2}},
{0.20,0.00,{2,-1,-2,2,-1}},{0.00,-0.20,{1,0,-1,1,-1,0,0,1}},{-0.20,0.00,{0,0,2,-4}},{-0.20,0.00,{1,0,0,-1,-1,0,0,-2,2}},
{0.20,0.00,{0,1,0,4,1}},{0.20,0.00,{1,0,0,-6,-1}},{0.00,0.20,{0,0,0,0,1,0,5,-8}},{0.20,0.00,{0,0,4,2,2}},
{0.20,0.00,{3,0,0,-2,1}},{-0.20,0.00,{0,0,2,-2,2,0,0,-2,0,2}},{-0.20,0.00,{1,-1,0,-2,-2}},{-0.20,0.00,{0,0,1,-1,2,0,-5,7}},
{-0.20,0.00,{2,1,0,-2,-2}},{0.20,0.00,{0,0,0,0,1,0,0,2,-2}},{-0.20,0.00,{1,0,-2,0,2}},{-0.20,0.00,{1,-1,0,0,-2}},
{0.20,0.00,{1,1,-2,2,-2}},{0.16,0.00,{0,0,0,0,1,0,-2,2}},{0.16,0.00,{1,0,0,-3,-1}},{0.00,-0.16,{0,0,1,-1,-1,0,0,-1,0,-1}},
{0.16,0.00,{2,0,-2,-2,1}},{0.16,0.00,{1,0,0,-1,1,0,0,-1,0,1}},{0.16,0.00,{2,0,0,-3,1}},{0.16,0.00,{3,0,0,2,-1}},
{0.16,0.00,{1,1,0,1,1}},{-0.16,0.00,{0,2,0,0,-2}},{0.16,0.00,{2,-1,0,2,-1}},{0.16,0.00,{1,1,0,1,-1}},
{-0.16,0.00,{1,0,-4,-2,-1}},{-0.16,0.00,{1,-1,-2,-4,-1}},{-0.16,0.00,{1,-2,2,2,1}},{0.16,0.00,{3,1,2,-2,1}},
{0.16,0.00,{1,0,-2,-6,-1}},{-0.16,0.00,{2,0,4,-4,2}},{-0.04,0.12,{2,-2,2,-2,2}},{0.16,0.00,{3,0,4,-2,2}},
{0.00,0.16,{0,0,1,-1,0,0,3,-6}},{0.16,0.00,{1,1,2,4,2}},{0.16,0.00,{0,0,2,-3}},{0.00,-0.16,{0,0,1,1,0,0,0,1}},
{0.00,-0.16,{0,0,1,-1,0,0,-4,5}},{0.00,0.16,{0,0,1,-1,0,0,0,-2,2}},{0.16,0.00,{0,0,1,-1,0,0,0,-1,0,0,1}},
{0.00,0.16,{0,0,1,-1,0,0,0,-1,0,1}},{-0.16,0.00,{0,1,-2,4,-1}},{0.00,-0.16,{1,0,0,-2,0,0,0,4,-8,3}},{0.16,0.00,{3,0,2,1,2}},
{0.16,0.00,{3,0,0,-1}},{0.16,0.00,{2,1,0,1}},{0.16,0.00,{2,0,2,0,1,0,0,1}},{-0.16,0.00,{2,0,0,-2,0,0,0,-2,0,2,2}},
{0.16,0.00,{2,0,0,-2,0,0,0,-4,4}},{-0.16,0.00,{2,-2,2,2,2}},{0.16,0.00,{1,1,-2,-6,-2}},{-0.16,0.00,{1,0,0,0,0,0,1,-1}},
{-0.16,0.00,{1,0,0,0,0,0,0,-1,0,1}},{-0.16,0.00,{1,0,0,0,0,0,-3,3}},{-0.16,0.00,{1,0,0,-2,0,0,1,-1}},
{0.00,-0.16,{1,0,0,-2,0,0,0,-4,8,-3}},{-0.16,0.00,{1,0,0,-2,0,0,-2,2}},{-0.16,0.00,{0,0,2,-2,1,0,0,1,0,-1}},
{0.16,0.00,{0,0,2,-2,1,0,0,-3,0,3}},{0.16,0.00,{0,0,2,-2,1,0,-5,5}},{-0.16,0.00,{0,0,1,-1,1,0,1,-3}},
{0.00,0.16,{0,0,1,-1,1,0,0,-1,0,0,0,-1}},{0.16,0.00,{0,0,1,-1,1,0,0,-4,6}},{0.00,0.16,{0,0,1,-1,1,0,-5,6}},
{-0.16,0.00,{0,0,0,2,0,0,0,-1,0,1}},{0.00,0.16,{0,0,0,0,0,0,8,-9}},{-0.16,0.00,{0,0,0,0,0,0,7,-10,0,0,0,0,0,-1}},
{0.00,-0.16,{0,0,0,0,0,0,5,-5,0,0,0,0,0,1}},{0.00,-0.16,{0,0,0,0,0,0,4,-5,0,0,0,0,0,-2}},{0.00,-0.16,{0,0,0,0,0,0,3,-6}},
{0.00,0.16,{0,0,0,0,0,0,3,-8,0,0,0,0,0,-2}},{0.16,0.00,{0,0,0,0,0,0,2,-5,0,0,0,0,0,-1}},{-0.16,0.00,{0,0,0,0,0,0,1,1}},
{0.16,0.00,{0,0,0,0,0,0,1,-2,0,0,0,0,0,-1}},{0.00,-0.16,{0,0,0,0,0,0,0,7,-8,0,0,0,0,2}},
{0.00,-0.16,{0,0,0,0,0,0,0,7,-9,0,0,0,0,2}},{0.00,0.16,{0,0,0,0,0,0,0,6,-10,0,0,0,0,-2}},
{0.00,0.16,{0,0,0,0,0,0,0,3,0,0,0,0,0,2}},{0.16,0.00,{0,0,0,0,0,0,0,3,-8,3,0,0,0,-2}},
{0.00,0.16,{0,0,0,0,0,0,0,2,0,0,-2,0,0,1}},{0.16,0.00,{0,0,0,0,0,0,0,2,-4,0,0,0,0,1}},
{0.16,0.00,{0,0,0,0,0,0,0,1,0,0,0,0,0,-1}},{0.00,-0.16,{0,0,0,0,0,0,0,1,0,-1,0,0,0,-1}},
{0.00,-0.16,{0,0,0,0,0,0,0,0,0,3,-5}},{-0.16,0.00,{0,0,0,0,0,0,0,0,0,2,-2}},{-0.16,0.00,{2,1,0,-6}},{-0.16,0.00,{1,-1,0,1}},
{0.00,-0.16,{0,0,1,-1,0,0,-3,4}},{0.16,0.00,{3,-1,0,2}},{0.16,0.00,{4,0,0,2}},{-0.16,0.00,{0,0,2,-2,0,0,-4,4}},
{0.16,0.00,{1,0,2,-1}},{0.16,0.00,{1,-2,-2,2,-1}},{0.16,0.00,{1,-1,-2,-2}},{-0.16,0.00,{2,0,2,-3,2}},{-0.16,0.00,{0,1,2,2}},
{0.00,0.16,{0,0,2,-2,1,0,0,-4,8,-3}},{0.00,0.16,{0,0,2,-2,1,0,0,4,-8,3}},{0.16,0.00,{3,0,-2,2,-1}},{0.16,0.00,{2,-1,2}},
{-0.16,0.00,{2,0,0,4,1}},{0.16,0.00,{2,0,-4,2,-1}},{-0.16,0.00,{2,-1,0,2,1}},{-0.16,0.00,{2,-2,0,-2,-2}},
{0.00,-0.16,{0,0,0,0,1,0,0,1,0,-2}},{-0.16,0.00,{3,0,0,0,2}},{0.00,-0.16,{0,0,0,0,1,0,3,-4}},{0.16,0.00,{0,2,0,0,2}},
{0.16,0.00,{0,1,2,-4,2}},{-0.15,0.00,{0,0,1,-1,2,0,-8,12}},{0.00,0.12,{0,0,0,0,1,0,0,-1,0,2}},
{0.12,0.00,{0,0,0,0,1,0,0,-2,2}},{0.00,0.12,{0,0,0,0,1,0,-3,4}},{0.12,0.00,{1,0,0,0,-1,0,-10,3}},
{0.12,0.00,{1,0,0,0,1,0,-10,3}},{0.00,-0.12,{0,0,0,0,2,0,0,0,0,1}},{-0.12,0.00,{0,1,4,-4,2}},{-0.12,0.00,{2,0,2,-2,-1}},
{0.12,0.00,{1,0,2,-4,-1}},{-0.12,0.00,{1,2,0,0,1}},{0.00,0.12,{2,0,0,-2,-1,0,0,-6,8}},{0.12,0.00,{2,-1,-2,0,1}},
{0.12,0.00,{2,0,0,-2,1,0,0,-5,6}},{0.12,0.00,{1,0,0,-2,-1,0,0,-2,0,2}},{0.12,0.00,{2,0,-1,-1,1,0,0,3,-7}},
{0.12,0.00,{1,0,0,-2,1,0,0,-2,0,2}},{0.12,0.00,{1,0,0,-1,-1,0,0,-3,4}},{0.12,0.00,{0,0,0,3,2}},{0.12,0.00,{2,2,0,-2,-1}},
{0.12,0.00,{1,-1,2,-3,1}},{0.12,0.00,{1,0,4,0,1}},{-0.12,0.00,{2,0,0,-2,-1,0,0,-2,0,3,-1}},{0.12,0.00,{2,-1,-2,-2,-1}},
{0.12,0.00,{2,1,2,2,1}},{0.00,0.12,{0,0,2,0,2,0,2,-3}},{0.00,0.12,{0,0,2,0,2,0,-2,3}},{-0.12,0.00,{0,0,2,0,2,0,2,-2}},
{0.12,0.00,{0,0,2,0,2,0,-2,2}},{-0.12,0.00,{5,0,2,0,1}},{0.12,0.00,{3,0,-2,-6,-1}},{0.12,0.00,{1,2,2,0,1}},
{-0.12,0.00,{1,-1,2,4,1}},{0.12,0.00,{2,0,-2,-2,-2,0,0,-2,0,2}},{-0.12,0.00,{2,0,2,4,1}},{0.00,0.12,{0,0,2,-2,1,0,-8,11}},
{0.00,0.12,{1,0,2,0,2,0,0,-4,8,-3}},{0.00,0.12,{1,0,2,0,2,0,0,4,-8,3}},{-0.12,0.00,{1,-2,0,-1}},
{0.12,0.00,{2,0,2,-2,2,0,0,-2,0,3}},{0.12,0.00,{1,0,2,0,2,0,1,-1}},{-0.12,0.00,{1,0,2,0,2,0,-1,1}},
{0.00,-0.12,{0,0,2,-2,0,-1,0,2}},{-0.12,0.00,{4,0,-2,-2}},{-0.12,0.00,{1,0,2,-6,1}},{0.12,0.00,{0,1,-4,2,-1}},
{0.00,0.12,{0,0,1,-1,0,0,0,-1,0,0,-2}},{0.12,0.00,{1,-1,-2,1,-1}},{0.00,0.12,{0,0,1,-1,0,0,0,1}},
{0.00,0.12,{2,0,-1,-1,0,0,0,-1,0,3}},{0.00,-0.12,{0,0,1,-1,0,0,-1}},{0.12,0.00,{4,1,2,-2,2}},{0.12,0.00,{3,1,2,2,2}},
{-0.12,0.00,{3,1,0,-2}},{0.12,0.00,{3,1,-2,-6,-2}},{-0.12,0.00,{3,-1,0,-2}},{-0.12,0.00,{3,-1,0,-3}},{0.12,0.00,{2,1,0,-3}},
{0.00,0.12,{2,0,1,-3,1,0,-6,7}},{0.00,-0.12,{2,0,0,-2,0,0,2,-5}},{0.00,0.12,{2,0,0,-2,0,0,0,-2,0,5,-5}},
{0.12,0.00,{2,0,0,-2,0,0,0,-2,0,1,5}},{0.12,0.00,{2,0,0,-2,0,0,0,-2,0,0,2}},{0.12,0.00,{2,0,0,-2,0,0,-4,4}},
{0.00,0.12,{2,0,-2,0,-2,0,0,5,-9}},{-0.12,0.00,{2,0,-2,-5,-2}},{-0.12,0.00,{2,-1,2,4,2}},{0.12,0.00,{1,3,-2,-2,-2}},
{-0.12,0.00,{1,1,-2,-1,-2}},{-0.12,0.00,{1,0,2,-2,2,0,-3,3}},{0.00,0.12,{1,0,1,1,1,0,0,1}},
{0.12,0.00,{1,0,0,0,0,0,0,1,0,-1}},{0.12,0.00,{1,0,0,0,0,0,0,-2,0,3}},{-0.12,0.00,{1,0,0,-2,0,0,0,2,0,-2}},
{0.12,0.00,{1,0,-1,0,-1,0,-3,5}},{-0.12,0.00,{1,0,-1,-1,0,0,0,8,-15}},{0.00,-0.12,{1,0,-1,-2,-1}},
{-0.12,0.00,{1,0,-2,-2,-2,0,0,1,0,-1}},{0.12,0.00,{0,0,2,2,2,0,0,2,0,-2}},{-0.12,0.00,{0,0,2,-2,1,0,0,-2,0,1}},
{-0.12,0.00,{0,0,2,-2,1,0,0,-2}},{0.12,0.00,{0,0,2,-2,1,0,0,-4,4}},{0.00,0.12,{0,0,2,-2,1,0,0,-7,9}},
{-0.12,0.00,{0,0,2,-2,1,0,0,-10,15}},{0.12,0.00,{0,0,1,-1,1,0,0,1,-4}},{0.00,0.12,{0,0,1,-1,1,0,0,-1,0,1,-3}},
{0.00,0.12,{0,0,1,-1,1,0,-1,2}},{0.12,0.00,{0,0,1,-1,1,0,-4,6}},{-0.12,0.00,{0,0,0,2,0,0,0,2,0,-2}},
{-0.12,0.00,{0,0,0,2,0,0,-2,2}},{0.12,0.00,{0,0,0,0,0,0,9,-13,0,0,0,0,0,-2}},{-0.12,0.00,{0,0,0,0,0,0,8,-11,0,0,0,0,0,-1}},
{0.12,0.00,{0,0,0,0,0,0,8,-14,0,0,0,0,0,-2}},{0.00,-0.12,{0,0,0,0,0,0,7,-11,0,0,0,0,0,-1}},
{0.00,-0.12,{0,0,0,0,0,0,6,-4,0,0,0,0,0,1}},{0.00,-0.12,{0,0,0,0,0,0,6,-6,0,0,0,0,0,1}},
{-0.12,0.00,{0,0,0,0,0,0,6,-7,0,0,0,0,0,-1}},{-0.12,0.00,{0,0,0,0,0,0,6,-8}},{0.00,-0.12,{0,0,0,0,0,0,6,-9}},
{0.00,0.12,{0,0,0,0,0,0,5,-4,0,0,0,0,0,2}},{-0.12,0.00,{0,0,0,0,0,0,5,-6,0,0,0,0,0,-1}},
{0.00,-0.12,{0,0,0,0,0,0,5,-6,0,0,0,0,0,-2}},{-0.12,0.00,{0,0,0,0,0,0,5,-6,-4,0,0,0,0,-2}},{0.00,0.12,{0,0,0,0,0,0,4,-2}},
{0.00,-0.12,{0,0,0,0,0,0,4,-5}},{0.12,0.00,{0,0,0,0,0,0,4,-8,0,0,0,0,0,-2}},{-0.12,0.00,{0,0,0,0,0,0,3,-1}},
{-0.12,0.00,{0,0,0,0,0,0,3,-3,0,2,0,0,0,2}},{0.12,0.00,{0,0,0,0,0,0,3,-4,0,0,0,0,0,1}},
{0.00,0.12,{0,0,0,0,0,0,2,1,0,0,0,0,0,1}},{-0.12,0.00,{0,0,0,0,0,0,2}},{0.12,0.00,{0,0,0,0,0,0,1,-1,0,0,0,0,0,-2}},
{0.12,0.00,{0,0,0,0,0,0,1,-4,0,0,0,0,0,-1}},{-0.12,0.00,{0,0,0,0,0,0,0,9,-17,0,0,0,0,-2}},
{0.00,0.12,{0,0,0,0,0,0,0,7,-7,0,0,0,0,2}},{0.00,0.12,{0,0,0,0,0,0,0,7,-12,0,0,0,0,-2}},
{-0.12,0.00,{0,0,0,0,0,0,0,6,-4,0,0,0,0,2}},{0.00,-0.12,{0,0,0,0,0,0,0,6,-8,1,5,0,0,2}},
{-0.12,0.00,{0,0,0,0,0,0,0,6,-9,0,0,0,0,-2}},{0.00,0.12,{0,0,0,0,0,0,0,6,-10}},{-0.12,0.00,{0,0,0,0,0,0,0,5,0,-4,0,0,0,2}},
{0.12,0.00,{0,0,0,0,0,0,0,5,-6}},{-0.12,0.00,{0,0,0,0,0,0,0,5,-7,0,0,0,0,-2}},{-0.12,0.00,{0,0,0,0,0,0,0,5,-8,3,0,0,0,2}},
{-0.12,0.00,{0,0,0,0,0,0,0,5,-9,0,0,0,0,-1}},{-0.12,0.00,{0,0,0,0,0,0,0,5,-13,0,0,0,0,-2}},
{0.12,0.00,{0,0,0,0,0,0,0,5,-16,4,5,0,0,-2}},{-0.12,0.00,{0,0,0,0,0,0,0,4,-7,0,0,0,0,-1}},
{0.12,0.00,{0,0,0,0,0,0,0,4,-8,3,0,0,0,1}},{0.12,0.00,{0,0,0,0,0,0,0,4,-8,3,0,0,0,-1}},
{-0.12,0.00,{0,0,0,0,0,0,0,3,0,-5,0,0,0,-2}},{0.00,-0.12,{0,0,0,0,0,0,0,3,-5,0,0,0,0,-1}},
{0.00,-0.12,{0,0,0,0,0,0,0,3,-7,0,0,0,0,-2}},{0.00,-0.12,{0,0,0,0,0,0,0,3,-9,0,0,0,0,-2}},
{0.12,0.00,{0,0,0,0,0,0,0,2,1,0,0,0,0,2}},{0.12,0.00,{0,0,0,0,0,0,0,2,0,2,0,0,0,2}},{0.00,0.12,{0,0,0,0,0,0,0,2,0,0,-3}},
{0.00,-0.12,{0,0,0,0,0,0,0,2,-8,1,5,0,0,-2}},{0.00,0.12,{0,0,0,0,0,0,0,1,0,1,0,0,0,1}},{-0.12,0.00,{0,0,0,0,0,0,0,1,0,1,-5}},
{0.00,-0.12,{0,0,0,0,0,0,0,1,0,0,2,0,0,2}},{-0.12,0.00,{0,0,0,0,0,0,0,1,0,0,-3}},{0.12,0.00,{0,0,0,0,0,0,0,1,0,-3,5}},
{0.00,0.12,{0,0,0,0,0,0,0,1,-3}},{0.12,0.00,{0,0,0,0,0,0,0,0,0,2,-6,3,0,-2}},{0.00,0.12,{0,0,0,0,0,0,0,0,0,1,-2}},
{0.00,0.12,{0,0,0,0,0,0,0,0,0,0,0,1}},{0.12,0.00,{0,0,0,0,0,0,0,0,0,0,0,0,0,2}},{0.08,0.04,{0,0,0,0,0,0,0,0,1}},
{-0.12,0.00,{1,1,0,-6}},{-0.12,0.00,{1,0,0,3}},{0.12,0.00,{2,0,0,-2,0,0,0,-2,0,0,5}},{-0.12,0.00,{3,0,-2,-1,-1}},
{-0.12,0.00,{1,2,2,-4,1}},{-0.12,0.00,{0,0,1,-1,0,0,-2,2}},{0.00,0.12,{1,0,-1,1,0,0,0,1}},{0.12,0.00,{0,0,2,-2,1,0,1,-1}},
{-0.12,0.00,{2,0,2,-6,1}},{-0.12,0.00,{2,1,2,-2}},{-0.12,0.00,{2,1,2}},{-0.12,0.00,{1,0,2,1}},{0.12,0.00,{4,0,-2,0,-1}},
{-0.12,0.00,{0,0,0,0,1,0,0,7,-13}},{0.12,0.00,{2,1,0,2,1}},{-0.12,0.00,{1,-1,0,4,1}},{-0.12,0.00,{3,0,-2,-4,-2}},
{0.12,0.00,{2,0,0,-6,-1}},{0.12,0.00,{0,0,1,-1,-1,0,-5,7}},{0.12,0.00,{0,0,0,0,2,0,-3,5}},{0.00,-0.12,{0,0,1,1,2,0,0,1}},
{0.00,-0.12,{0,0,1,-1,2,0,-3,4}},{0.00,0.12,{0,0,0,0,1,0,-1,2}},{0.12,0.00,{2,-1,0,-2,2}},{0.12,0.00,{1,1,-2,1,-2}},
{0.12,0.00,{2,1,-2,0,-2}},{-0.12,0.00,{0,0,1,-1,2,0,0,-1,0,0,-1}},{-0.12,0.00,{2,1,2,-4,2}},{0.12,0.00,{2,0,0,-4,2}},
{-0.12,0.00,{3,0,0,0,-2}},{0.12,0.00,{1,0,0,-4,2}},{0.12,0.00,{2,0,0,-4,-2}},{0.12,0.00,{1,1,0,0,-2}},
{-0.12,0.00,{0,0,0,0,1,0,0,2,0,-2}},{-0.12,0.00,{1,0,-2,4,-2}},{0.11,0.00,{0,0,4,-4,4}},
};
static const XyTerm X1[] = {
{-3309.73,205833.11,{0,0,0,0,1}},{198.97,12814.01,{0,0,2,-2,2}},{41.44,2187.91,{0,0,2,0,2}},{-36.07,-2004.36,{0,0,0,0,2}},
{59.20,501.82,{0,1,2,-2,2}},{-5.77,448.76,{0,0,2,0,1}},{-179.73,164.33,{0,1}},{5.70,288.49,{1,0,2,0,2}},
{23.87,-214.50,{0,1,-2,2,-2}},{2.86,-154.91,{0,0,2,-2,1}},{2.16,-119.21,{1,0,-2,0,-2}},{1.16,-74.33,{1,0,0,0,1}},
{1.46,70.31,{1,0,0,0,-1}},{-0.42,58.94,{1,0,2,0,1}},{-0.96,57.12,{1,0,-2,-2,-2}},{-1.07,-54.19,{2,0,-2,0,-1}},
{0.92,36.78,{0,0,2,2,2}},{0.68,-31.01,{0,2,-2,2,-2}},{0.74,29.60,{2,0,2,0,2}},{-0.61,-27.59,{1,0,2,-2,2}},
{-11.19,-15.07,{1}},{-0.40,-24.05,{1,0,-2,0,-1}},{-0.81,19.06,{0,1,0,0,1}},{3.18,15.32,{0,2,2,-2,2}},
{-0.08,-17.90,{1,0,0,-2,-1}},{-0.16,15.55,{1,0,0,-2,1}},{-0.77,14.40,{0,1,0,0,-1}},{-0.25,11.67,{1,0,-2,-2,-1}},
{6.18,3.58,{0,0,1,-1,1,0,0,-1,0,-2,5}},{-1.01,-7.27,{0,1,2,0,2}},{-0.99,6.87,{0,1,-2,0,-2}},{-0.27,7.49,{0,0,2,2,1}},
{-0.30,7.31,{0,0,0,2,1}},{0.20,7.30,{1,0,2,2,2}},{0.33,6.80,{2,0,0,-2,-1}},{0.27,-6.81,{1,0,2,-2,1}},
{0.35,6.08,{0,0,0,2,-1}},{0.34,6.09,{0,1,-2,2,-1}},{-0.14,-6.19,{2,0,2,-2,2}},{0.14,6.02,{2,0,2,0,1}},
{2.71,-2.76,{1,0,0,-2}},{-0.08,-4.93,{2,0,0,-2,1}},{2.85,-1.77,{0,0,0,0,0,0,0,0,0,2,-5,0,0,-1}},{-0.07,-4.27,{0,1,2,-2,1}},
{-3.71,0.38,{0,2}},{3.75,0.04,{0,1,-1,1,-1}},{-0.82,-2.73,{0,0,0,2}},{-0.06,2.93,{2,0,-2,0,-2}},{-0.04,2.83,{2,0,0,0,-1}},
{0.08,2.75,{3,0,2,0,2}},{0.07,2.75,{1,-1,2,0,2}},{-0.07,2.70,{1,1,-2,-2,-2}},{-0.07,2.52,{0,1,-2,-2,-2}},
{-0.05,-2.53,{2,0,0,0,1}},{-0.04,2.40,{1,0,-2,2,-1}},{-0.06,-2.37,{1,1,2,0,2}},{0.69,-1.45,{0,0,1,-1,1,0,-8,12}},
{-0.04,2.00,{0,0,0,0,0,0,3,-5,0,0,0,0,0,-2}},{1.99,0.02,{1,0,-1,0,-1}},{-0.94,1.07,{2,0,0,-2}},{0.04,1.91,{1,0,0,0,2}},
{-0.58,-1.36,{2}},{-0.52,-1.25,{0,0,2}},{-0.04,-1.59,{0,0,2,1,2}},{0.40,-1.23,{1,0,0,-1}},{0.03,-1.57,{1,-1,0,-1,-1}},
{-0.03,1.50,{0,2,-2,2,-1}},{0.04,1.48,{1,0,2,2,1}},{-0.04,1.45,{1,0,-2,-4,-2}},{0.03,-1.36,{1,0,0,0,-2}},
{0.03,-1.32,{2,0,-2,-2,-2}},{-0.03,-1.24,{1,1,2,-2,2}},{-0.02,-1.18,{2,0,2,-2,1}},{-0.03,1.16,{2,0,-2,-4,-2}},
{0.02,1.13,{0,0,0,0,0,0,0,0,0,2,0,0,0,2}},{0.04,-1.11,{1,0,0,-1,-1}},{0.02,1.11,{1,0,0,2,1}},{0.03,-1.10,{1,0,-4,0,-2}},
{0.03,1.04,{2,0,2,2,2}},{-0.51,0.56,{0,0,0,0,1,0,0,-1,2}},{0.02,-0.98,{0,0,2,-2,-1}},{-0.02,-0.94,{0,1,2,0,1}},
{-0.02,-0.89,{3,0,2,-2,2}},{-0.02,-0.88,{0,0,4,-2,2}},{0.31,0.60,{0,0,0,0,0,0,8,-13,0,0,0,0,0,-1}},
{0.02,-0.87,{1,1,0,-2,-1}},{-0.02,-0.87,{2,0,-2,0,1}},{-0.01,0.83,{0,0,2,0,-1}},{-0.02,0.77,{0,1,-2,0,-1}},
{0.43,-0.36,{0,0,2,-2}},{-0.01,-0.73,{0,1,0,0,2}},{0.01,0.71,{1,1,0,-2,1}},{0.01,0.68,{0,0,2,-1,2}},{0.02,0.66,{0,0,2,4,2}},
{-0.01,-0.62,{1,-1,0,0,1}},{-0.01,0.62,{1,0,0,2,-1}},{-0.58,-0.03,{0,0,1,-1,1,0,0,-1,0,2,-5}},{-0.01,0.58,{1,-1,0,-1,-2}},
{0.44,0.14,{0,0,0,0,0,0,0,2,-8,3,0,0,0,-2}},{0.02,0.56,{1,-1,2,2,2}},{-0.13,-0.45,{1,0,0,2}},{0.01,-0.57,{0,1,0,0,-2}},
{0.01,0.56,{3,0,2,0,1}},{0.01,-0.55,{1,-1,-2,-2,-2}},{0.01,0.55,{1,0,2,-4,1}},{-0.52,0.03,{0,0,2,-2,1,0,-5,6}},
{-0.01,0.54,{1,1,-2,-2,-1}},{-0.01,-0.51,{0,1,2,2,2}},{-0.41,-0.11,{0,0,0,0,0,0,0,6,-8,3,0,0,0,2}},
{-0.01,0.50,{0,1,-2,-2,-1}},{0.01,0.48,{1,-1,2,0,1}},{0.45,-0.04,{1,0,-2,-2}},{0.01,-0.48,{0,0,0,0,0,0,4,-6,0,0,0,0,0,-2}},
{0.01,0.46,{2,-1,2,0,2}},{-0.24,0.24,{2,0,-2}},{0.01,0.46,{0,0,0,1,1}},{0.35,-0.11,{0,0,0,0,1,0,0,-4,8,-3}},
{0.01,0.45,{0,0,0,2,2}},{0.01,-0.45,{1,-1,-2,0,-2}},{0.00,-0.45,{0,0,0,0,0,0,0,3,0,-1,0,0,0,2}},
{-0.01,0.44,{0,0,0,0,0,0,2,-4,0,0,0,0,0,-2}},{0.35,0.09,{0,0,0,0,1,0,0,4,-8,3}},{0.01,0.42,{1,1,0,0,1}},
{-0.01,-0.41,{1,1,2,0,1}},{0.09,-0.33,{0,0,1,-1,1,0,0,0,-2}},{0.00,0.41,{0,1,0,-2,1}},{0.01,0.40,{0,3,2,-2,2}},
{-0.01,-0.39,{2,1,2,0,2}},{-0.39,-0.01,{1,0,-1,0,-2}},{0.01,-0.39,{0,0,0,1,-1}},{-0.01,0.38,{1,0,0,-2,-2}},
{0.32,-0.07,{0,0,0,0,0,0,0,0,0,2,0,0,0,1}},{-0.01,0.36,{1,-1,0,0,-1}},{-0.01,-0.36,{0,0,0,0,0,0,2,0,0,0,0,0,0,2}},
{0.01,-0.34,{1,0,-2,2,-2}},{0.01,-0.34,{2,0,0,-2,-1,0,0,-2,0,2}},{0.01,0.33,{0,0,0,0,0,0,1,1,0,0,0,0,0,2}},
{-0.01,-0.32,{1,0,2,1,2}},{0.01,0.32,{1,0,2,-1,2}},{-0.01,-0.32,{0,0,2,1,1}},{-0.01,-0.31,{1,0,-2,0,1}},
{-0.31,0.00,{0,0,1,0,1}},{-0.07,-0.24,{1,0,2}},{0.10,-0.21,{0,0,1,-1,1,0,0,-1,0,0,-1}},{-0.01,-0.30,{1,0,0,-2,2}},
{-0.01,0.29,{1,0,-2,-4,-1}},{-0.01,-0.29,{1,1,2,-2,1}},{0.00,0.29,{1,0,-2,1,-1}},{0.23,0.06,{0,0,1,-1,1,0,0,-1,0,-1}},
{0.26,0.02,{0,0,0,0,0,0,0,0,0,2,-5,0,0,1}},{0.00,-0.27,{2,0,-2,-2,-1}},{0.25,0.02,{0,0,0,0,0,0,5,-8,0,0,0,0,0,-2}},
{0.09,-0.18,{0,1,0,-2}},{0.01,0.25,{0,0,0,0,0,0,0,1,0,1,0,0,0,2}},{0.14,-0.11,{1,1,0,-2}},{0.00,-0.25,{1,1,0,0,-1}},
{0.01,0.24,{4,0,2,0,2}},{-0.01,-0.24,{2,1,2,-2,2}},{0.00,0.23,{2,0,-2,-4,-1}},{0.01,0.23,{0,1,2,1,2}},
{-0.01,-0.23,{1,0,4,-2,2}},{0.00,-0.23,{0,1,0,2,1}},{0.00,-0.22,{1,0,-4,0,-1}},{0.00,0.21,{1,0,0,-4,-1}},
{0.01,0.21,{2,0,2,2,1}},{-0.17,0.03,{0,0,1,-1,1,0,0,-1,0,2}},{-0.17,0.03,{0,0,0,0,0,0,8,-13,0,0,0,0,0,-2}},
{0.00,-0.19,{0,0,0,0,0,0,5,-7,0,0,0,0,0,-2}},{0.14,-0.06,{0,0,0,0,0,0,0,0,0,0,2,0,0,1}},{0.03,-0.17,{0,0,1,-1,1,0,-5,7}},
{-0.13,0.06,{0,0,1,-1,1,0,0,-1,0,0,2}},{0.00,0.19,{0,0,2,-4,1}},{0.00,0.19,{0,0,2,-3,2}},{-0.06,-0.13,{1,0,2,0,2,0,0,1}},
{0.00,0.18,{0,1,0,-2,-1}},{-0.09,-0.09,{1,-1}},{0.10,-0.09,{0,0,0,0,0,0,0,8,-16,4,5,0,0,-2}},
{0.06,0.12,{1,0,-2,0,-2,0,0,4,-8,3}},{0.00,0.18,{0,0,0,0,0,0,0,4,0,-2,0,0,0,2}},{0.00,-0.18,{0,0,4,0,2}},
{0.00,0.17,{0,0,0,4,1}},{-0.03,0.15,{0,0,0,0,0,0,0,2,0,-1,0,0,0,2}},{-0.01,-0.16,{0,0,0,0,0,0,0,2,0,1,0,0,0,2}},
{0.00,0.17,{1,1,-2,-4,-2}},{0.00,-0.17,{2,0,0,-2,-2}},{0.11,0.06,{0,0,0,0,0,0,8,-11,0,0,0,0,0,-2}},{-0.08,0.09,{1,0,-2}},
{0.00,-0.17,{3,0,2,-2,1}},{-0.17,0.00,{0,0,0,0,0,0,2,-1,0,0,0,0,0,2}},{0.00,-0.16,{0,0,4,-2,1}},{0.01,0.15,{1,0,2,4,2}},
{-0.13,-0.03,{0,0,0,0,0,0,1,-1,0,0,0,0,0,-1}},{0.00,0.15,{1,1,-2,0,-2}},{0.00,0.15,{2,1,0,-2,-1}},
{-0.13,0.03,{0,0,0,0,0,0,4,-6,0,0,0,0,0,-1}},{0.10,-0.06,{0,0,0,0,0,0,8,-15,0,0,0,0,0,-2}},
{-0.07,0.08,{0,0,0,0,0,0,0,1,2,0,0,0,0,2}},{-0.09,-0.06,{0,0,0,0,0,0,0,3,0,-2,0,0,0,2}},{0.00,0.15,{3,0,0,0,-1}},
{-0.07,-0.08,{0,0,0,0,0,0,0,3,-2,0,0,0,0,2}},{0.00,-0.14,{2,0,0,-4,-1}},{0.02,0.12,{0,0,0,0,0,0,0,0,0,3,0,0,0,2}},
{0.07,0.08,{1,1}},{-0.03,-0.11,{3}},{-0.01,-0.14,{0,0,0,0,0,0,0,4,-2,0,0,0,0,2}},{0.00,-0.14,{0,0,2,-2,1,0,-3,3}},
{0.02,-0.12,{1,0,0,-1,1}},{0.00,-0.14,{1,1,2,2,2}},{0.00,0.14,{0,0,1,-1,1,0,0,3,-8,3}},{0.00,0.14,{0,0,2,-1,1}},
{0.00,0.13,{0,0,2,4,1}},{0.08,-0.06,{0,0,0,0,1,0,8,-13}},{0.00,0.13,{1,-1,0,-2,-1}},
{0.00,0.13,{0,0,0,0,0,0,0,0,0,0,2,0,0,2}},{0.01,0.13,{3,0,2,2,2}},{0.00,0.13,{2,0,0,2,1}},{0.00,0.13,{1,-1,-2,2,-1}},
{-0.02,-0.11,{2,0,0,-2,1,0,0,-2,0,3}},{0.08,-0.04,{0,0,0,1}},{0.00,0.13,{2,0,0,-4,1}},{0.00,0.13,{1,0,0,-4,1}},
{0.01,-0.12,{2,1,-2,0,-1}},{0.00,0.12,{0,2,-2,-2,-2}},{-0.02,-0.11,{0,0,0,0,0,0,5,-8,0,0,0,0,0,-1}},
{0.00,-0.12,{2,0,2,-4,1}},{0.00,-0.12,{0,0,0,0,0,0,0,8,-16,4,5,0,0,2}},{0.00,-0.12,{0,0,1,-1,1,0,0,-5,8,-3}},
{0.04,0.08,{1,0,0,0,-1,0,-18,16}},{0.00,-0.12,{0,0,0,0,0,0,0,1,0,-3,0,0,0,-2}},{0.00,-0.12,{0,0,0,2,-2}},
{0.00,0.12,{1,-1,0,-2,-2}},{0.00,-0.11,{0,0,0,0,0,0,6,-8,0,0,0,0,0,-2}},{0.03,-0.09,{1,0,0,-4}},{0.00,0.11,{0,2,0,0,1}},
{-0.11,0.00,{0,0,0,0,0,0,3,-2,0,0,0,0,0,2}},{0.00,0.11,{1,-1,2,2,1}},{0.00,-0.11,{1,-1,-2,0,-1}},
{0.07,0.05,{0,0,0,0,1,0,-8,13}},{0.11,0.00,{0,0,0,0,0,0,2,-5,0,0,0,0,0,-2}},{0.00,-0.11,{0,0,0,0,0,0,1,-3,0,0,0,0,0,-2}},
{0.00,-0.11,{4,0,2,-2,2}},{0.02,-0.09,{0,0,0,0,1,0,0,0,0,-2,5}},{0.00,0.11,{2,1,-2,-4,-2}},
{0.02,0.09,{0,0,0,0,1,0,0,0,0,2,-5}},{0.00,-0.11,{0,2,2,-2,1}},{0.00,0.11,{1,0,2,0,-1}},{-0.08,-0.02,{0,0,0,0,1,0,0,0,0,1}},
{0.00,-0.10,{2,1,0,-2,1}},{0.00,-0.10,{2,-1,-2,0,-1}},{-0.03,-0.07,{1,0,0,0,1,0,-18,16}},{0.00,0.10,{1,2,-2,-2,-2}},
{0.00,0.10,{2,0,0,-2,2}},{0.00,-0.10,{1,-1,-2,-2,-1}},
};
static const XyTerm X2[] = {
{2037.98,81.46,{0,0,0,0,1}},{155.74,-2.75,{0,0,2,-2,2}},{26.92,-0.46,{0,0,2,0,2}},{-24.43,0.47,{0,0,0,0,2}},
{-17.36,-0.50,{0,1}},{-8.41,0.01,{1}},{6.08,-1.36,{0,1,2,-2,2}},{4.59,0.17,{0,0,2,0,1}},{3.57,-0.06,{1,0,2,0,2}},
{2.54,0.60,{0,1,-2,2,-2}},{1.86,0.00,{1,0,0,-2}},{-1.52,-0.07,{0,0,2,-2,1}},{1.46,0.04,{1,0,-2,0,-2}},
{-0.75,-0.02,{1,0,0,0,1}},{-0.75,0.00,{0,0,0,2}},{-0.71,-0.01,{1,0,-2,-2,-2}},{-0.69,0.02,{1,0,0,0,-1}},
{0.61,0.02,{1,0,2,0,1}},{0.54,-0.04,{2,0,-2,0,-1}},{-0.56,0.00,{2,0,0,-2}},{0.46,-0.02,{0,0,2,2,2}},
{0.38,-0.01,{0,2,-2,2,-2}},{0.37,-0.02,{2,0,2,0,2}},{-0.34,0.01,{1,0,2,-2,2}},{-0.35,0.00,{2}},{-0.31,0.00,{0,0,2}},
{0.19,-0.09,{0,2,2,-2,2}},{0.26,0.00,{0,0,2,-2}},{0.24,-0.01,{1,0,-2,0,-1}},{-0.20,0.00,{0,2}},{0.18,-0.01,{1,0,0,-2,-1}},
{0.17,0.00,{0,1,0,0,1}},{0.15,0.01,{1,0,0,-2,1}},{-0.15,0.00,{0,1,0,0,-1}},{-0.13,0.00,{2,0,-2}},{-0.12,0.00,{1,0,-2,-2,-1}},
};
static const XyTerm X3[] = {
{1.73,-20.39,{0,0,0,0,1}},{0.00,-1.27,{0,0,2,-2,2}},{0.00,-0.22,{0,0,2,0,2}},{0.00,0.20,{0,0,0,0,2}},
};
static const XyTerm X4[] = {
{-0.10,-0.02,{0,0,0,0,1}},
};
static const XyTerm Y0[] = {
{1538.18,9205236.26,{0,0,0,0,1}},{-458.66,573033.42,{0,0,2,-2,2}},{137.41,97846.69,{0,0,2,0,2}},
{-29.05,-89618.24,{0,0,0,0,2}},{-17.40,22438.42,{0,1,2,-2,2}},{31.80,20069.50,{0,0,2,0,1}},{36.70,12902.66,{1,0,2,0,2}},
{-13.20,-9592.72,{0,1,-2,2,-2}},{-192.40,7387.02,{0,1}},{3.92,-6918.22,{0,0,2,-2,1}},{0.40,-5331.13,{1,0,-2,0,-2}},
{-0.90,-3323.89,{1,0,0,0,1}},{7.50,3143.98,{1,0,0,0,-1}},{7.80,2636.13,{1,0,2,0,1}},{-6.60,2554.51,{1,0,-2,-2,-2}},
{-2.00,-2423.59,{2,0,-2,0,-1}},{6.80,1645.01,{0,0,2,2,2}},{0.00,-1387.00,{0,2,-2,2,-2}},{5.90,1323.81,{2,0,2,0,2}},
{-0.30,-1233.89,{1,0,2,-2,2}},{0.30,-1075.60,{1,0,-2,0,-1}},{-4.48,852.85,{0,1,0,0,1}},{0.10,-800.34,{1,0,0,-2,-1}},
{35.80,-674.99,{1}},{-1.40,695.54,{1,0,0,-2,1}},{-0.50,684.99,{0,2,2,-2,2}},{-2.62,643.75,{0,1,0,0,-1}},
{-1.50,522.11,{1,0,-2,-2,-1}},{273.50,164.70,{0,0,1,-1,1,0,0,-1,0,-2,5}},{1.40,335.24,{0,0,2,2,1}},{1.90,326.60,{1,0,2,2,2}},
{0.40,327.11,{0,0,0,2,1}},{-0.50,-325.03,{0,1,2,0,2}},{-0.40,307.03,{0,1,-2,0,-2}},{0.50,304.17,{2,0,0,-2,-1}},
{-0.10,-304.46,{1,0,2,-2,1}},{-0.40,-276.81,{2,0,2,-2,2}},{0.90,272.05,{0,0,0,2,-1}},{0.30,272.22,{0,1,-2,2,-1}},
{1.20,269.45,{2,0,2,0,1}},{0.10,-220.67,{2,0,0,-2,1}},{128.60,-77.10,{0,0,0,0,0,0,0,0,0,2,-5,0,0,-1}},
{0.10,-190.79,{0,1,2,-2,1}},{167.90,0.00,{0,1,-1,1,-1}},{-8.20,-123.48,{1,0,0,-2}},{0.10,131.04,{2,0,-2,0,-2}},
{0.40,126.64,{2,0,0,0,-1}},{2.90,-122.28,{0,0,0,2}},{0.70,123.20,{3,0,2,0,2}},{0.40,123.20,{1,-1,2,0,2}},
{-0.30,120.70,{1,1,-2,-2,-2}},{-0.50,112.90,{0,1,-2,-2,-2}},{-0.20,-112.94,{2,0,0,0,1}},{0.20,107.31,{1,0,-2,2,-1}},
{-0.30,-106.20,{1,1,2,0,2}},{31.90,-64.10,{0,0,1,-1,1,0,-8,12}},{0.00,89.50,{0,0,0,0,0,0,3,-5,0,0,0,0,0,-2}},
{89.10,0.00,{1,0,-1,0,-1}},{0.00,85.32,{1,0,0,0,2}},{-0.20,-71.00,{0,0,2,1,2}},{0.00,-70.01,{1,-1,0,-1,-1}},
{13.90,-55.30,{1,0,0,-1}},{0.00,67.25,{0,2,-2,2,-1}},{0.40,66.29,{1,0,2,2,1}},{-0.40,64.70,{1,0,-2,-4,-2}},{1.30,-60.90,{2}},
{-0.20,-60.92,{1,0,0,0,-2}},{0.20,-59.20,{2,0,-2,-2,-2}},{1.10,-55.55,{0,0,2}},{0.00,-55.60,{1,1,2,-2,2}},
{-0.10,-52.69,{2,0,2,-2,1}},{-0.20,51.80,{2,0,-2,-4,-2}},{1.00,-49.51,{1,0,0,-1,-1}},
{0.00,50.50,{0,0,0,0,0,0,0,0,0,2,0,0,0,2}},{2.50,47.70,{2,0,0,-2}},{0.10,49.59,{1,0,0,2,1}},{0.10,-49.00,{1,0,-4,0,-2}},
{-23.20,24.60,{0,0,0,0,1,0,0,-1,2}},{0.40,46.50,{2,0,2,2,2}},{-0.10,-44.04,{0,0,2,-2,-1}},{-0.10,-42.19,{0,1,2,0,1}},
{13.30,26.90,{0,0,0,0,0,0,8,-13,0,0,0,0,0,-1}},{-0.10,-39.90,{3,0,2,-2,2}},{-0.10,-39.50,{0,0,4,-2,2}},
{0.00,-39.11,{1,1,0,-2,-1}},{-0.10,-38.92,{2,0,-2,0,1}},{0.10,36.95,{0,0,2,0,-1}},{-0.10,34.59,{0,1,-2,0,-1}},
{0.20,-32.55,{0,1,0,0,2}},{-0.10,31.61,{1,1,0,-2,1}},{0.00,30.40,{0,0,2,-1,2}},{0.20,29.40,{0,0,2,4,2}},
{0.00,-27.91,{1,-1,0,0,1}},{0.10,27.50,{1,0,0,2,-1}},{-25.70,-1.70,{0,0,1,-1,1,0,0,-1,0,2,-5}},
{19.90,5.90,{0,0,0,0,0,0,0,2,-8,3,0,0,0,-2}},{0.00,25.80,{1,-1,0,-1,-2}},{0.20,25.20,{1,-1,2,2,2}},
{0.00,-25.31,{0,1,0,0,-2}},{0.20,25.00,{3,0,2,0,1}},{-0.10,24.40,{1,0,2,-4,1}},{0.10,-24.40,{1,-1,-2,-2,-2}},
{-23.30,0.90,{0,0,2,-2,1,0,-5,6}},{-0.10,24.00,{1,1,-2,-2,-1}},{-18.00,-5.30,{0,0,0,0,0,0,0,6,-8,3,0,0,0,2}},
{-0.10,-22.80,{0,1,2,2,2}},{-0.10,22.50,{0,1,-2,-2,-1}},{0.10,21.60,{1,-1,2,0,1}},
{0.00,-21.30,{0,0,0,0,0,0,4,-6,0,0,0,0,0,-2}},{0.10,20.70,{2,-1,2,0,2}},{0.70,-20.10,{0,0,0,0,0,0,0,3,0,-1,0,0,0,2}},
{0.00,20.51,{0,0,0,1,1}},{15.90,-4.50,{0,0,0,0,1,0,0,-4,8,-3}},{0.20,-19.94,{1,0,0,2}},{0.00,20.11,{0,0,0,2,2}},
{15.60,4.40,{0,0,0,0,1,0,0,4,-8,3}},{0.00,-20.00,{1,-1,-2,0,-2}},{0.00,19.80,{0,0,0,0,0,0,2,-4,0,0,0,0,0,-2}},
{0.00,18.91,{1,1,0,0,1}},{4.30,-14.60,{0,0,1,-1,1,0,0,0,-2}},{-0.10,-18.50,{1,1,2,0,1}},{-0.10,18.40,{0,1,0,-2,1}},
{0.00,18.10,{0,3,2,-2,2}},{1.00,16.81,{0,2}},{-0.10,-17.60,{2,1,2,0,2}},{-17.60,0.00,{1,0,-1,0,-2}},
{-1.30,-16.26,{0,0,2,-2}},{0.00,-17.41,{0,0,0,1,-1}},{14.50,-2.70,{0,0,0,0,0,0,0,0,0,2,0,0,0,1}},{0.00,17.08,{1,0,0,-2,-2}},
{0.00,16.21,{1,-1,0,0,-1}},{0.00,-16.00,{0,0,0,0,0,0,2,0,0,0,0,0,0,2}},{0.00,-15.31,{1,0,-2,2,-2}},
{0.00,-15.10,{2,0,0,-2,-1,0,0,-2,0,2}},{0.00,14.70,{0,0,0,0,0,0,1,1,0,0,0,0,0,2}},{0.00,14.40,{1,0,2,-1,2}},
{-0.10,-14.30,{1,0,2,1,2}},{0.00,-14.40,{0,0,2,1,1}},{0.00,-13.81,{1,0,-2,0,1}},{4.50,-9.30,{0,0,1,-1,1,0,0,-1,0,0,-1}},
{-13.80,0.00,{0,0,1,0,1}},{0.00,-13.38,{1,0,0,-2,2}},{-0.10,13.10,{1,0,-2,-4,-1}},{10.30,2.70,{0,0,1,-1,1,0,0,-1,0,-1}},
{0.00,12.80,{1,0,-2,1,-1}},{0.00,-12.80,{1,1,2,-2,1}},{11.70,0.80,{0,0,0,0,0,0,0,0,0,2,-5,0,0,1}},
{0.00,-12.00,{2,0,-2,-2,-1}},{11.30,0.50,{0,0,0,0,0,0,5,-8,0,0,0,0,0,-2}},{0.00,11.40,{0,0,0,0,0,0,0,1,0,1,0,0,0,2}},
{0.00,-11.20,{1,1,0,0,-1}},{0.10,10.90,{4,0,2,0,2}},{0.10,-10.77,{1,0,2}},{0.00,-10.80,{2,1,2,-2,2}},{-0.20,10.47,{2,0,-2}},
{0.00,10.50,{2,0,-2,-4,-1}},{0.00,-10.40,{1,0,4,-2,2}},{0.00,10.40,{0,1,2,1,2}},{0.00,-10.20,{0,1,0,2,1}},
{0.00,-10.00,{1,0,-4,0,-1}},{0.00,9.60,{1,0,0,-4,-1}},{0.10,9.40,{2,0,2,2,1}},{-7.60,1.70,{0,0,0,0,0,0,8,-13,0,0,0,0,0,-2}},
{-7.70,1.40,{0,0,1,-1,1,0,0,-1,0,2}},{1.40,-7.50,{0,0,1,-1,1,0,-5,7}},{6.10,-2.70,{0,0,0,0,0,0,0,0,0,0,2,0,0,1}},
{0.00,-8.70,{0,0,0,0,0,0,5,-7,0,0,0,0,0,-2}},{-5.90,2.60,{0,0,1,-1,1,0,0,-1,0,0,2}},{0.00,8.40,{0,0,2,-4,1}},
{-0.20,-8.11,{0,1,0,-2}},{-2.60,-5.70,{1,0,2,0,2,0,0,1}},{0.00,8.30,{0,0,2,-3,2}},{2.70,5.50,{1,0,-2,0,-2,0,0,4,-8,3}},
{4.20,-4.00,{0,0,0,0,0,0,0,8,-16,4,5,0,0,-2}},{-0.10,8.00,{0,0,0,0,0,0,0,4,0,-2,0,0,0,2}},{0.00,8.09,{0,1,0,-2,-1}},
{-1.30,6.70,{0,0,0,0,0,0,0,2,0,-1,0,0,0,2}},{0.00,-7.90,{0,0,4,0,2}},{0.00,7.80,{0,0,0,4,1}},
{-7.50,-0.20,{0,0,0,0,0,0,2,-1,0,0,0,0,0,2}},{-0.50,-7.20,{0,0,0,0,0,0,0,2,0,1,0,0,0,2}},
{4.90,2.70,{0,0,0,0,0,0,8,-11,0,0,0,0,0,-2}},{0.00,7.50,{1,1,-2,-4,-2}},{0.00,-7.50,{3,0,2,-2,1}},{0.00,-7.49,{2,0,0,-2,-2}},
{0.00,-7.20,{0,0,4,-2,1}},{0.10,6.90,{1,0,2,4,2}},{-5.60,1.40,{0,0,0,0,0,0,4,-6,0,0,0,0,0,-1}},
{-5.70,-1.30,{0,0,0,0,0,0,1,-1,0,0,0,0,0,-1}},{0.00,6.90,{2,1,0,-2,-1}},{4.20,-2.70,{0,0,0,0,0,0,8,-15,0,0,0,0,0,-2}},
{0.00,6.90,{1,1,-2,0,-2}},{-3.10,3.70,{0,0,0,0,0,0,0,1,2,0,0,0,0,2}},{-3.90,-2.90,{0,0,0,0,0,0,0,3,0,-2,0,0,0,2}},
{0.00,6.60,{3,0,0,0,-1}},{-3.10,-3.50,{0,0,0,0,0,0,0,3,-2,0,0,0,0,2}},{1.10,-5.39,{1,0,0,-1,1}},{0.00,-6.40,{2,0,0,-4,-1}},
{0.90,5.50,{0,0,0,0,0,0,0,0,0,3,0,0,0,2}},{0.00,-6.30,{0,0,2,-2,1,0,-3,3}},{-0.10,-6.20,{0,0,0,0,0,0,0,4,-2,0,0,0,0,2}},
{0.00,-6.10,{1,1,2,2,2}},{0.00,6.10,{0,0,1,-1,1,0,0,3,-8,3}},{0.00,6.10,{0,0,2,-1,1}},{3.50,-2.50,{0,0,0,0,1,0,8,-13}},
{0.00,6.00,{0,0,2,4,1}},{0.00,5.90,{1,-1,0,-2,-1}},{-0.90,-4.80,{2,0,0,-2,1,0,0,-2,0,3}},{0.00,5.70,{1,-1,-2,2,-1}},
{0.10,5.60,{3,0,2,2,2}},{0.00,5.70,{0,0,0,0,0,0,0,0,0,0,2,0,0,2}},{0.00,5.70,{2,0,0,2,1}},{0.00,5.60,{2,0,0,-4,1}},
{0.00,5.60,{1,0,0,-4,1}},{0.20,-5.40,{2,1,-2,0,-1}},{-0.90,-4.70,{0,0,0,0,0,0,5,-8,0,0,0,0,0,-1}},{-0.40,-5.10,{1,1,0,-2}},
{0.00,5.50,{0,2,-2,-2,-2}},{0.00,-5.40,{2,0,2,-4,1}},{0.00,-5.40,{0,0,0,0,0,0,0,8,-16,4,5,0,0,2}},
{1.80,3.60,{1,0,0,0,-1,0,-18,16}},{0.00,5.30,{1,-1,0,-2,-2}},{0.00,-5.30,{0,0,1,-1,1,0,0,-5,8,-3}},
{0.00,-5.20,{0,0,0,0,0,0,0,1,0,-3,0,0,0,-2}},{0.00,-5.19,{0,0,0,2,-2}},{3.00,2.10,{0,0,0,0,1,0,-8,13}},
{0.00,-5.10,{0,0,0,0,0,0,6,-8,0,0,0,0,0,-2}},{0.00,5.07,{0,2,0,0,1}},{0.90,-4.10,{0,0,0,0,1,0,0,0,0,-2,5}},
{-5.00,0.00,{0,0,0,0,0,0,3,-2,0,0,0,0,0,2}},{0.00,-5.00,{3}},{0.00,5.00,{1,-1,2,2,1}},{0.00,-5.00,{1,-1,-2,0,-1}},
{0.00,-4.90,{4,0,2,-2,2}},{4.90,0.00,{0,0,0,0,0,0,2,-5,0,0,0,0,0,-2}},{0.00,-4.90,{0,0,0,0,0,0,1,-3,0,0,0,0,0,-2}},
{0.90,3.90,{0,0,0,0,1,0,0,0,0,2,-5}},{0.00,4.80,{2,1,-2,-4,-2}},{-3.70,-1.10,{0,0,0,0,1,0,0,0,0,1}},
{0.00,-4.72,{0,2,2,-2,1}},{0.00,4.71,{1,0,2,0,-1}},{0.00,-4.50,{2,1,0,-2,1}},{-1.50,-3.00,{1,0,0,0,1,0,-18,16}},
{0.00,-4.50,{2,-1,-2,0,-1}},{0.30,-4.11,{1,-1}},{0.00,4.40,{1,2,-2,-2,-2}},{0.00,-4.40,{1,-1,-2,-2,-1}},
{0.00,4.39,{2,0,0,-2,2}},{0.00,-4.30,{3,0,0,0,1}},{0.00,4.30,{2,0,-2,2,-1}},{0.00,-4.30,{0,1,2,2,1}},{0.20,4.03,{1,0,-2}},
{0.20,4.00,{0,2,-2,0,-2}},{-0.60,3.50,{0,0,1,-1,1,0,0,-1,0,0,1}},{0.00,4.10,{3,0,-2,0,-1}},{0.00,4.00,{1,0,-4,2,-2}},
{0.00,-4.00,{0,1,-2,1,-2}},{0.00,-3.91,{1,0,0,-4}},{1.90,2.00,{0,0,0,0,1,0,0,1,-2}},{0.00,3.90,{2,-1,2,2,2}},
{0.00,3.90,{0,1,-2,-4,-2}},{0.00,-3.90,{1,0,-2,-3,-2}},{3.10,-0.80,{0,0,0,0,0,0,2,-4,0,0,0,0,0,-1}},{0.00,3.90,{2,-1,2,0,1}},
{0.00,3.90,{2,0,0,0,2}},{0.00,3.80,{0,0,0,0,0,0,0,2,0,0,0,0,0,2}},{-0.20,3.51,{1,1}},{0.00,-3.60,{1,0,-2,-1,-2}},
{-2.10,1.50,{0,0,0,0,0,0,0,1,0,2,0,0,0,2}},{0.00,-3.60,{1,1,-2,1,-1}},{0.70,2.80,{0,0,0,0,0,0,3,-7,0,0,0,0,0,-2}},
{-2.80,0.70,{0,0,0,0,0,0,0,0,0,1,0,0,0,-1}},{0.00,-3.50,{0,0,0,0,0,0,0,2}},{-2.90,-0.60,{0,0,0,0,0,0,2,-2,0,0,0,0,0,-1}},
{0.00,-3.40,{1,-1,0,-2,1}},{0.00,3.40,{2,0,-4,0,-2}},{0.00,3.36,{0,0,2,0,3}},{0.50,2.80,{2,0,0,-2,-1,0,0,-2,0,3}},
{2.60,-0.70,{0,0,0,0,0,0,3,-5,0,0,0,0,0,-1}},{1.00,-2.30,{0,0,0,0,0,0,0,0,0,1,0,0,0,2}},{0.00,-3.30,{2,1,2,0,1}},
{0.00,3.30,{1,1,-2,0,-1}},{0.00,3.23,{0,2,0,0,-1}},{0.00,3.20,{1,-1,2,-2,2}},{0.00,-3.20,{0,2,2,0,2}},
{0.00,-3.20,{0,0,0,0,0,0,7,-9,0,0,0,0,0,-2}},{0.00,3.20,{0,0,0,0,0,0,0,0,2,0,0,0,0,2}},
{2.90,-0.30,{0,0,0,0,0,0,0,0,0,1,0,0,0,1}},{0.08,3.05,{0,0,2,-2,3}},{-0.70,-2.40,{0,0,0,0,0,0,3,-3,0,0,0,0,0,2}},
{0.00,-3.08,{1,0,2,-4,2}},{0.00,3.00,{2,0,2,-1,2}},{-1.60,1.40,{1,0,0,-1,1,0,0,-1,0,2}},
{-2.90,-0.10,{0,0,0,0,0,0,4,-7,0,0,0,0,0,-2}},{0.00,-2.90,{2,0,0,-2,1,0,0,-2,0,2}},{-2.50,0.40,{0,0,1,-1,1,0,0,-2,2}},
{0.40,-2.50,{0,0,0,0,0,0,0,0,0,0,1,0,0,1}},{0.00,-2.90,{1,0,2,1,1}},{0.00,2.89,{0,1,-2,2}},{0.00,-2.80,{2,1,-2,-2,-2}},
{-2.50,0.30,{0,0,1,-1,1,0,0,-1,0,1}},{-2.50,-0.30,{0,0,0,0,0,0,0,1,-2,0,0,0,0,-1}},{0.00,-2.70,{0,0,2,-2,1,0,0,-2,0,2}},
{2.70,0.00,{1,0,-1,0,-3}},{0.00,-2.60,{0,1,0,1,1}},{0.00,-2.60,{0,1,0,2,-1}},{0.00,2.60,{3,-1,2,0,2}},
{2.10,0.50,{0,0,1,-1,1,0,-3,4}},{0.00,2.50,{0,1,0,1,-1}},{0.80,1.70,{0,0,0,0,0,0,0,0,0,0,1,0,0,-1}},
{1.90,-0.60,{0,0,0,0,0,0,0,6,-16,4,5,0,0,-2}},{0.00,-2.50,{2,0,0,0,-2}},{0.00,-2.40,{2,0,0,2}},{0.00,2.40,{2,0,0,2,-1}},
{0.00,-2.40,{1,1,-2,2,-1}},{0.00,2.40,{1,0,2,-3,1}},{-1.90,0.50,{0,0,0,0,0,0,5,-7,0,0,0,0,0,-1}},{-0.10,-2.30,{2,0,0,-4}},
{0.00,2.30,{1,1,2,-4,1}},{0.00,-2.30,{3,1,2,0,2}},{-1.40,0.90,{0,0,0,0,0,0,0,0,4,0,0,0,0,2}},
{-0.10,-2.20,{0,0,0,0,0,0,8,-10,0,0,0,0,0,-2}},{-0.20,-2.00,{0,0,0,1}},{0.00,2.20,{1,-2,2,0,2}},{0.00,-2.20,{2,-1,2,-2,2}},
{0.00,2.20,{1,1,2,1,2}},{0.00,2.20,{0,0,0,0,0,0,0,2,-4,0,0,0,0,-2}},{-1.80,-0.40,{0,0,0,0,0,0,3,-3,0,0,0,0,0,-1}},
{0.00,2.20,{0,1,2,1,1}},{0.00,2.20,{4,0,2,0,1}},{-1.70,0.40,{0,0,0,0,0,0,1,-1,0,0,0,0,0,1}},
{-0.80,-1.30,{0,0,0,0,0,0,0,5,-4,0,0,0,0,2}},{-1.30,-0.80,{0,0,0,0,0,0,0,4,-4,0,0,0,0,2}},{0.00,2.10,{1,0,-2,1,-2}},
{0.00,2.10,{1,-1,2,-2,1}},{0.00,-2.10,{1,0,4,-2,1}},{0.00,-2.10,{2,1,2,-2,1}},{0.00,2.10,{1,0,2,-1,1}},
{0.00,-2.00,{1,0,2,-2,-1}},{0.00,2.00,{1,0,-2,2,1}},{0.00,2.00,{1,-1,0,2,-1}},{0.00,2.00,{2,-2,0,-2,-1}},
{0.00,-2.00,{1,2,2,-2,2}},{2.00,0.00,{0,0,0,0,0,0,6,-9,0,0,0,0,0,-2}},{1.10,-0.90,{0,0,0,0,0,0,0,0,0,2,-5,0,0,-2}},
{1.60,-0.40,{0,0,0,0,0,0,1,-3,0,0,0,0,0,-1}},{0.00,-1.91,{1,0,-2,-2}},{0.00,-1.90,{0,0,0,4}},{0.00,1.90,{0,0,4,-4,2}},
{0.00,-1.90,{3,0,-2,-2,-2}},{0.00,1.90,{2,-1,0,-2,1}},{1.50,0.40,{0,0,1,-1,1,0,-4,5}},
{-1.50,-0.40,{0,0,0,0,0,0,0,2,0,0,0,0,0,1}},{-1.40,-0.50,{0,0,1,-1,1,0,0,-1,0,-4,10}},
{-1.00,0.90,{0,0,1,-1,1,0,0,-1,0,0,0,0,2}},{0.00,-1.90,{2,0,2,1,2}},{-0.30,1.60,{0,0,0,0,0,0,0,4,0,-3,0,0,0,2}},
{0.00,1.90,{0,0,0,4,-1}},{0.00,1.90,{1,-1,0,2,1}},{0.00,-1.80,{2,-1,0,0,1}},{0.00,-1.80,{2,0,-4,-2,-2}},
{-1.10,0.70,{0,0,0,0,0,0,0,2,-4,0,0,0,0,-1}},{0.20,-1.60,{0,0,0,0,0,0,2,-3,0,0,0,0,0,-1}},{0.00,1.80,{2,0,-2,-6,-2}},
{0.00,-1.71,{0,0,2,2}},{-1.20,-0.50,{0,0,2,-2,1,0,0,-9,13}},{1.50,0.20,{0,0,1,1,1,0,0,1}},
{-0.60,-1.10,{1,0,2,0,1,0,0,-2,0,3}},{0.60,1.10,{1,0,-2,0,-1,0,0,-1}},{-0.60,-1.10,{0,0,0,0,0,0,0,4,-3,0,0,0,0,2}},
{-1.10,0.60,{0,0,0,0,1,0,0,-2,4}},{-1.70,0.00,{0,0,0,0,1,0,2,-3}},{0.00,1.60,{0,1,-2,2,1}},{0.00,-1.60,{2,0,4,-2,2}},
{0.00,-1.60,{0,0,2,3,2}},{1.20,-0.40,{0,0,0,0,0,0,0,0,0,3,0,0,0,1}},{-0.50,-1.10,{2,0,2,0,2,0,0,2,0,-3}},
{0.60,1.00,{0,0,0,0,0,0,0,3,-6,0,0,0,0,-2}},{-1.30,-0.30,{0,0,0,0,0,0,4,-4,0,0,0,0,0,-1}},
{0.30,-1.30,{0,0,0,0,0,0,0,1,-2,0,0,0,0,1}},{0.00,1.60,{1,0,0,4,1}},{0.00,-1.60,{1,1,0,2,1}},{0.00,-1.60,{0,0,4,0,1}},
{1.10,-0.50,{0,0,1,-1,2,0,0,-1,0,0,2}},{0.00,-1.50,{1,-1,0,2}},{0.00,-1.50,{0,1,2,-2,-1}},{0.00,1.50,{2,-1,0,0,-1}},
{0.00,-1.50,{1,0,0,1,-1}},{0.00,-1.50,{1,2,0,-2,-1}},{1.50,0.00,{1,0,0,-1,1,0,-3,4}},{0.00,-1.50,{0,1,4,-2,2}},
{1.30,-0.20,{0,0,0,0,1,0,0,0,0,0,1}},{0.00,-1.50,{0,0,0,0,0,0,9,-11,0,0,0,0,0,-2}},
{-1.20,-0.30,{0,0,0,0,0,0,1,1,0,0,0,0,0,1}},{-1.40,0.10,{0,0,0,0,0,0,0,4,0,-1,0,0,0,2}},{-0.50,1.00,{0,0,2,0,2,0,0,1}},
{-0.50,1.00,{0,0,0,0,0,0,0,1,-8,3,0,0,0,-2}},{0.20,-1.30,{0,0,0,0,0,0,0,1,0,-4,0,0,0,-2}},{0.00,1.50,{1,1,-2,-4,-1}},
{0.00,1.50,{1,0,0,-1,-2}},{0.00,1.50,{0,0,0,0,1,0,1,-1}},{0.00,1.49,{2,0,2,-4,2}},{0.00,-1.41,{2,0,2}},{0.00,1.41,{0,1,0,2}},
{0.00,-1.40,{0,0,2,-3,1}},{0.00,-1.40,{1,-2,-2,-2,-2}},{0.00,1.40,{1,0,-2,-6,-2}},{0.00,-1.40,{0,0,2,-2,1,0,-4,4}},
{1.10,-0.30,{0,0,1,-1,1,0,-1}},{0.00,-1.40,{3,0,-2,-2,-1}},{0.00,1.40,{1,0,2,4,1}},{1.40,0.00,{0,0,1,0,2}},
{-0.30,1.10,{0,0,0,0,1,0,-3,5}},{0.20,1.20,{2,-1,0,-2}},{-1.30,0.00,{1,0,0,-1,-1,0,-3,4}},{0.00,-1.30,{1,-1,-2,-4,-2}},
{0.00,1.30,{1,-2,2,2,2}},{-0.70,-0.60,{0,0,1,-1,1,0,8,-14}},{-0.80,0.50,{0,0,1,-1,1,0,3,-6}},
{-0.20,-1.10,{0,0,0,0,0,0,6,-10,0,0,0,0,0,-2}},{1.10,0.20,{0,0,0,0,0,0,0,2,0,-2,0,0,0,1}},{0.00,-1.30,{3,1,2,-2,2}},
{0.00,-1.30,{1,0,-4,-2,-2}},{0.00,-1.30,{0,0,0,0,0,0,3,-1,0,0,0,0,0,2}},{0.00,-1.30,{0,0,0,0,0,0,0,3,0,0,-1,0,0,2}},
{0.00,-1.29,{0,0,2,-4,2}},{0.00,1.20,{1,2,0,-2,1}},{0.00,-1.20,{2,1,0,0,-1}},{-0.40,-0.80,{0,0,0,0,1,0,0,8,-15}},
{0.00,1.20,{2,0,2,4,2}},{1.20,0.00,{0,0,0,0,0,0,3,-6,0,0,0,0,0,-2}},{-0.70,-0.50,{0,0,1,-1,1,0,0,-3,4}},
{-1.00,0.20,{0,0,0,0,0,0,6,-8,0,0,0,0,0,-1}},{-1.00,0.20,{0,0,0,0,0,0,2,1,0,0,0,0,0,2}},
{0.20,-1.00,{0,0,0,0,0,0,2,1,0,0,0,0,0,1}},{0.40,0.80,{0,0,0,0,0,0,0,1,-4,0,0,0,0,-2}},
{-0.40,0.80,{0,0,0,0,0,0,0,0,3,0,0,0,0,2}},{0.00,-1.20,{1,1,2,2,1}},{0.00,1.15,{0,0,0,0,3}},{0.00,1.10,{2,1,0,0,1}},
{-0.20,0.90,{2,0,0,-2,1,0,-6,8}},{-1.10,0.00,{0,0,3,0,3}},{0.00,-1.10,{2,1,2,2,2}},{-1.10,0.00,{1,0,1,0,1}},
{0.00,1.10,{2,-1,-2,-2,-2}},{0.00,1.10,{3,0,2,-4,2}},{0.00,1.10,{0,0,0,0,0,0,0,7,-8,3,0,0,0,2}},
{0.60,-0.50,{0,0,0,0,0,0,0,0,0,0,0,0,2,1}},{-0.90,-0.20,{0,0,0,0,0,0,5,-5,0,0,0,0,0,-1}},
{-0.40,-0.70,{0,0,0,0,0,0,0,4,-7,0,0,0,0,-2}},{-0.50,0.60,{1,-2,2,-2,1}},{0.00,1.10,{3,0,2,2,1}},{0.00,-1.10,{1,-1,-2,2,-2}},
{0.00,1.00,{0,0,0,0,1,0,-1,1}},{1.00,0.00,{0,0,0,0,1,0,-2,3}},{0.80,-0.20,{0,0,0,0,1,0,0,0,0,-1}},{0.00,1.00,{1,0,0,1,1}},
{0.00,1.00,{0,2,0,-2,1}},{0.00,-1.00,{3,0,0,-4,-1}},{-1.00,0.00,{1,0,1,-2,1}},{0.00,1.00,{1,-1,2,4,2}},
{1.00,0.00,{0,0,1,-1,1,0,0,-9,15}},{1.00,0.00,{0,0,0,0,0,0,7,-10,0,0,0,0,0,-2}},{-0.80,-0.20,{0,0,0,0,0,0,2,0,0,0,0,0,0,1}},
{0.40,0.60,{0,0,0,0,0,0,3,-5,4,0,0,0,0,2}},{-0.40,-0.60,{0,0,0,0,0,0,3,-9,4,0,0,0,0,-2}},{0.00,-1.00,{1,0,4,0,2}},
{0.00,1.00,{0,1,2,-4,1}},{0.00,1.00,{1,0,-4,2,-1}},{0.00,1.00,{0,2,-2,-2,-1}},{0.00,1.00,{2,0,-2,0,2}},
{0.00,-1.00,{1,0,0,2,2}},{0.00,0.91,{1,0,2,-2}},{0.10,0.80,{1,-1,0,-2}},{0.00,0.90,{1,0,-2,-2,1}},{0.00,0.90,{0,1,0,-2,-2}},
{0.00,-0.90,{2,0,0,-2,1,0,-3,3}},{0.00,-0.90,{1,2,2,0,2}},{-0.70,-0.20,{0,0,0,0,0,0,6,-6,0,0,0,0,0,-1}},
{0.70,-0.20,{0,0,0,0,0,0,1,2,0,0,0,0,0,2}},{-0.30,0.60,{0,0,0,0,0,0,0,8,-15,0,0,0,0,-2}},{0.00,0.90,{5,0,2,0,2}},
{0.00,0.90,{3,0,-2,-6,-2}},{0.00,-0.90,{0,0,1,-1,1,0,-2,2}},{-0.50,-0.40,{0,0,0,0,0,0,0,3,0,-3,0,0,0,2}},
{-0.90,0.00,{0,0,0,0,0,0,0,2,0,0,-1,0,0,2}},{0.00,-0.90,{1,-1,2,-1,2}},{0.00,0.90,{1,0,-2,4,-1}},{0.00,0.90,{2,1,-2,-4,-1}},
{0.00,-0.90,{4,0,2,-2,1}},{0.00,-0.90,{1,-1,0,-1}},{0.00,-0.80,{2,-1}},{0.00,0.80,{3,0,0,-2,-1}},
{0.00,-0.80,{2,-1,-2,-4,-2}},{0.10,0.70,{0,0,0,0,0,0,7,-11,0,0,0,0,0,-2}},{-0.70,0.10,{0,0,0,0,0,0,2,-2,0,0,0,0,0,1}},
{-0.60,0.20,{0,0,0,0,0,0,7,-9,0,0,0,0,0,-1}},{0.20,0.60,{0,0,0,0,0,0,4,-7,0,0,0,0,0,-1}},{0.00,0.80,{0,0,4,-4,1}},
{-0.50,0.30,{0,0,0,0,0,0,3,-5,0,0,0,0,0,1}},{-0.50,-0.30,{0,0,0,0,0,0,0,5,-5,0,0,0,0,2}},
{-0.50,-0.30,{0,0,0,0,0,0,0,5,-9,0,0,0,0,-2}},{0.00,-0.80,{0,0,0,0,0,0,0,3,-1,0,0,0,0,2}},
{-0.30,0.50,{0,0,0,0,0,0,0,2,0,2,-5,0,0,2}},{-0.80,0.00,{0,0,0,0,0,0,0,2,0,0,1,0,0,2}},
{-0.30,-0.50,{0,0,0,0,0,0,0,2,0,-2,5,0,0,2}},{-0.30,0.50,{0,0,0,0,1,0,-3,7,-4}},{-0.30,-0.50,{0,0,0,0,1,0,3,-7,4}},
{0.00,0.80,{0,1,0,-4,-1}},{0.00,-0.80,{3,0,-2,0,-2}},{0.00,-0.80,{1,0,-2,-3,-1}},{0.00,-0.80,{0,1,-2,1,-1}},
{0.00,0.80,{1,2,-2,-2,-1}},{0.00,0.80,{1,1,0,-2,-2}},{0.00,-0.80,{0,0,0,0,1,0,0,1,0,-1}},{0.00,0.76,{1,0,2,0,3}},
{0.00,0.70,{3,0,0,-4,1}},{0.10,-0.60,{2,0,0,-2,-1,0,-6,8}},{0.00,0.70,{0,1,-4,2,-2}},{0.70,0.00,{0,0,1,-1,1,0,0,-1,0,-1,1}},
{0.00,-0.70,{0,0,0,0,1,0,3,-5,0,2}},{0.00,-0.70,{0,1,2,4,2}},{0.00,0.70,{4,0,2,2,2}},{0.00,-0.70,{2,0,-2,-3,-2}},
{-0.70,0.00,{0,0,1,-1,1,0,2,-4,0,-3}},{-0.50,0.20,{0,0,1,-1,1,0,0,-1,0,3}},{-0.20,-0.50,{0,0,0,0,0,0,9,-9,0,0,0,0,0,-1}},
{0.50,-0.20,{0,0,0,0,0,0,2,-3,0,0,0,0,0,-2}},{0.20,0.50,{0,0,0,0,0,0,0,11,0,0,0,0,0,2}},
{-0.20,-0.50,{0,0,0,0,0,0,0,6,-15,0,0,0,0,-2}},{0.50,-0.20,{0,0,0,0,0,0,0,3,0,2,-5,0,0,2}},
{-0.50,0.20,{0,0,0,0,0,0,0,3,0,1,0,0,0,2}},{0.00,-0.70,{0,0,0,0,0,0,0,3,-5,0,0,0,0,-2}},
{0.00,-0.70,{0,0,0,0,0,0,0,2,0,-4,0,0,0,-2}},{0.70,0.00,{0,0,0,0,0,0,0,0,0,0,3,0,0,2}},
{-0.60,-0.10,{0,0,0,0,0,0,3,-1,0,0,0,0,0,1}},{0.60,-0.10,{0,0,0,0,0,0,3,-3,0,0,0,0,0,1}},
{0.40,0.30,{0,0,0,0,0,0,0,4,-8,0,0,0,0,-2}},{0.00,0.70,{1,0,0,1}},{0.70,0.00,{0,0,1,-1,2,0,0,-2,2}},{0.00,0.70,{2,-1,2,2,1}},
{0.00,0.70,{0,1,-2,-4,-1}},{0.00,0.70,{1,-1,0,0,2}},{0.00,-0.60,{0,0,0,0,1,0,0,-1,0,1}},{0.00,0.60,{0,0,2,2,-1}},
{0.10,-0.50,{0,0,1,-1,-1,0,0,0,-2}},{0.00,0.60,{2,1}},{0.40,0.20,{0,0,0,0,1,0,0,2,-4}},{0.00,0.60,{1,0,0,-4,-2}},
{0.00,-0.60,{2,1,0,-4,-1}},{0.00,0.60,{1,1,0,-4,1}},{0.00,-0.60,{0,1,0,1}},{0.00,-0.60,{1,-1,2,-4,1}},
{0.50,0.10,{0,0,1,-1,1,0,-2,3}},{-0.50,-0.10,{0,0,0,0,0,0,7,-7,0,0,0,0,0,-1}},{-0.10,-0.50,{0,0,0,0,0,0,4,-4,0,0,0,0,0,2}},
{0.10,0.50,{0,0,0,0,0,0,1,-2,0,0,0,0,0,1}},{0.50,-0.10,{0,0,0,0,0,0,0,5,0,-2,0,0,0,2}},
{-0.10,0.50,{0,0,0,0,0,0,0,3,-6,0,0,0,0,-1}},{0.00,-0.60,{2,0,0,-2,-1,0,0,-2,0,0,5}},{-0.40,0.20,{2,0,-1,-1,-1,0,0,-1,0,3}},
{0.00,-0.60,{1,0,-2,-2,-2,0,0,-2,0,2}},{0.60,0.00,{0,0,2,-2,2,0,-8,11}},{0.00,-0.60,{0,0,2,-2,1,0,-2,2}},
{0.20,0.40,{0,0,1,-1,1,0,0,-1,0,0,3}},{-0.40,0.20,{0,0,0,0,0,1,0,-4,0,0,0,0,0,-2}},
{0.30,0.30,{0,0,0,0,0,0,8,-13,0,0,0,0,0,1}},{0.40,-0.20,{0,0,0,0,0,0,0,6,0,0,0,0,0,2}},
{-0.40,-0.20,{0,0,0,0,0,0,0,6,-6,0,0,0,0,2}},{0.00,0.60,{0,0,0,0,0,0,0,1,1,0,0,0,0,2}},
{0.00,0.60,{0,0,0,0,0,0,0,1,0,0,1,0,0,2}},{0.40,0.20,{0,0,0,0,0,0,0,1,-5,0,0,0,0,-2}},
{-0.20,-0.40,{0,0,0,0,0,0,0,0,0,0,3,0,0,1}},{0.00,0.60,{4,0,-2,-2,-1}},{0.00,-0.60,{0,0,0,3,1}},{0.00,0.60,{3,0,0,2,1}},
{0.00,0.60,{1,1,0,-4,-1}},{0.00,-0.60,{0,0,0,1,2}},{0.00,-0.60,{1,1,0,-2,2}},{0.00,-0.60,{2,0,-2,2,-2}},
{0.00,-0.50,{1,1,0,-4}},{0.00,0.50,{2,0,2,0,-1}},{0.10,0.40,{2,1,0,-2}},{0.00,-0.50,{0,1,0,2,2}},
{0.10,0.40,{0,0,0,0,1,0,3,-5}},{0.00,0.50,{1,-2,2,-2,2}},{0.00,0.50,{2,1,0,-4,1}},{0.00,-0.50,{1,-2,0,0,1}},
{0.30,-0.20,{2,0,0,-2,1,0,0,-6,8}},{-0.20,0.30,{2,0,0,-2,-1,0,0,-5,6}},{0.20,0.30,{2,0,-1,-1,-1,0,0,3,-7}},
{0.40,-0.10,{0,0,2,0,2,0,0,-4,8,-3}},{0.40,0.10,{0,0,2,0,2,0,0,4,-8,3}},{0.00,-0.50,{0,1,-2,-1,-2}},
{0.00,-0.50,{3,-1,2,-2,2}},{0.30,0.20,{0,0,0,0,0,0,1,0,0,0,0,0,0,2}},{-0.30,0.20,{0,0,0,0,0,0,0,7,-13,0,0,0,0,-2}},
{0.20,0.30,{0,0,0,0,0,0,0,2,-5,0,0,0,0,-2}},{-0.30,0.20,{0,0,0,0,0,0,0,1,0,3,0,0,0,2}},{0.00,0.50,{3,-1,2,2,2}},
{0.00,0.50,{3,-1,-2,-1,-2}},{0.00,0.50,{0,0,2,6,2}},{-0.50,0.00,{0,0,1,-1,1,0,0,1}},
{0.50,0.00,{0,0,0,0,0,0,9,-12,0,0,0,0,0,-2}},{0.00,-0.50,{0,0,0,0,0,0,6,-9,0,0,0,0,0,-1}},
{-0.50,0.00,{0,0,0,0,0,0,4,-4,0,0,0,0,0,1}},{-0.50,0.00,{0,0,0,0,0,0,0,6,-11,0,0,0,0,-2}},
{0.00,0.50,{0,0,0,0,0,0,0,1,-3,0,0,0,0,-2}},{0.40,0.10,{0,0,2,-2,1,-1,0,2}},{-0.40,-0.10,{0,0,1,-1,1,0,0,-1,0,0,0,2}},
{0.40,-0.10,{0,0,0,0,0,0,5,-6,0,0,0,0,0,2}},{-0.40,0.10,{0,0,0,0,0,0,5,-10,0,0,0,0,0,-2}},
{0.10,0.40,{0,0,0,0,0,0,0,5,0,-3,0,0,0,2}},{0.10,0.40,{0,0,0,0,0,0,0,0,0,4,0,0,0,2}},{-0.50,0.00,{0,0,3,0,2}},
{0.00,0.50,{2,0,-4,0,-1}},{0.00,-0.50,{2,1,-2,-2,-1}},{0.00,0.50,{0,0,2,-2,2,0,-3,3}},{0.00,0.50,{1,0,0,-1,2}},
{0.00,-0.50,{1,1,0,0,2}},{0.50,0.00,{0,0,2,-2,2,0,-5,6}},{0.00,-0.50,{1,0,0,2,-2}},{0.00,0.50,{1,0,-2,2}},
{0.00,-0.40,{1,0,2,2}},{-0.20,0.20,{0,0,0,0,2,0,0,-1,2}},{-0.10,0.30,{1,1,0,2}},{0.00,-0.40,{1,0,0,4}},
{0.40,0.00,{1,0,-1,0,1}},{0.00,-0.40,{0,2,0,-2}},{0.00,-0.40,{1,0,0,-3,1}},{0.00,0.40,{4,0,0,0,-1}},
{0.00,0.40,{1,-2,0,-2,-1}},{-0.10,0.30,{0,0,0,0,1,0,0,-8,15}},{0.00,0.40,{1,0,4,-4,2}},{0.00,-0.40,{1,1,0,-1,1}},
{0.00,-0.40,{0,0,2,0,2,0,1,-1}},{0.00,-0.40,{1,1,0,2,-1}},{0.00,0.40,{2,-2,2,0,2}},{-0.20,-0.20,{0,0,1,-1,1,0,0,-1,0,0,-2}},
{0.20,-0.20,{0,0,1,-1,1,0,0,-1,0,-2,4}},{0.20,0.20,{0,0,0,0,0,0,0,2,2,0,0,0,0,2}},{-0.10,0.30,{2,-2,2,-2,2}},
{-0.30,0.10,{0,0,0,0,0,0,6,-10,0,0,0,0,0,-1}},{0.10,0.30,{0,0,0,0,0,0,0,6,-5,0,0,0,0,2}},
{-0.10,0.30,{0,0,0,0,0,0,0,2,0,-2,0,0,0,2}},{0.00,-0.40,{5,0,2,-2,2}},{0.00,0.40,{3,0,2,-1,2}},{0.00,0.40,{1,2,-2,-4,-2}},
{0.00,0.40,{1,-1,-2,-3,-2}},{0.00,0.40,{0,0,4,-1,2}},{0.00,-0.40,{0,0,2,-2,1,0,0,-2,0,3}},
{0.00,-0.40,{0,0,2,-2,1,0,0,-2,0,0,2}},{0.40,0.00,{0,0,2,-2,1,0,0,-8,11}},{-0.40,0.00,{0,0,1,-1,1,0,0,-1,0,-1,2}},
{-0.40,0.00,{0,0,0,0,0,0,8,-8,0,0,0,0,0,-1}},{-0.40,0.00,{0,0,0,0,0,0,8,-10,0,0,0,0,0,-1}},
{0.00,0.40,{0,0,0,0,0,0,5,-5,0,0,0,0,0,2}},{0.00,-0.40,{0,0,0,0,0,0,5,-9,0,0,0,0,0,-2}},
{0.00,-0.40,{0,0,0,0,0,0,4,-2,0,0,0,0,0,2}},{-0.40,0.00,{0,0,0,0,0,0,4,-2,0,0,0,0,0,1}},
{0.40,0.00,{0,0,0,0,0,0,4,-3,0,0,0,0,0,2}},{0.00,-0.40,{0,0,0,0,0,0,3,-4,0,0,0,0,0,-1}},
{0.00,0.40,{0,0,0,0,0,0,3,-6,0,0,0,0,0,-1}},{0.00,0.40,{0,0,0,0,0,0,2,-6,0,0,0,0,0,-2}},
{0.40,0.00,{0,0,0,0,0,0,0,8,-15,0,0,0,0,-1}},{0.00,-0.40,{0,0,0,0,0,0,0,6}},{-0.40,0.00,{0,0,0,0,0,0,0,5,-2,0,0,0,0,2}},
{0.00,0.40,{0,0,0,0,0,0,0,5,-3,0,0,0,0,2}},{0.40,0.00,{0,0,0,0,0,0,0,0,0,0,1,0,0,2}},{0.00,-0.40,{4}},
{0.00,-0.40,{1,-2,-2,0,-2}},{0.00,-0.40,{1,2,2,-2,1}},{0.00,-0.40,{0,2,2,0,1}},{0.00,-0.40,{3,1,2,0,1}},
{-0.10,0.30,{0,2,-2,0,-1}},{0.00,0.40,{1,1,2,1,1}},{0.00,0.40,{3,-1,2,0,1}},{0.00,0.40,{2,0,2,-1,1}},
{0.00,-0.40,{2,0,0,2,2}},{0.40,0.00,{0,0,1,-1,2,0,0,-1,0,2}},{0.00,0.40,{0,0,2,-2,-2}},
{0.21,0.10,{0,0,1,-1,2,0,0,-1,0,-2,5}},{0.00,0.30,{2,0,-4,2,-2}},{-0.30,0.00,{0,0,2,-2,-1,0,-5,6}},
{0.00,-0.30,{2,-2,0,-2,1}},{0.00,0.30,{0,0,0,4,2}},{0.00,0.30,{2,0,0,-2,-1,0,-3,3}},{0.20,0.10,{0,0,1,-1,-1,0,0,-1,0,-1}},
{0.00,-0.30,{1,-2,0,-2,1}},{0.00,0.30,{1,-2,0,0,-1}},{0.30,0.00,{0,0,0,0,1,0,0,0,0,0,-1}},{0.00,0.30,{2,0,0,-3,-1}},
{0.00,-0.30,{2,1,-2,0,1}},{-0.20,0.10,{2,0,0,-2,-1,0,0,-6,8}},{-0.10,-0.20,{2,0,-1,-1,1,0,0,3,-7}},{0.00,-0.30,{2,1,2,-4,1}},
{0.10,-0.20,{1,0,0,-1,1,0,0,-3,4}},{0.00,0.30,{2,-1,-2,0,-2}},{0.00,0.30,{0,0,2,0,2,0,-1,1}},
{0.00,-0.30,{0,0,2,0,2,0,0,-1,0,1}},{0.00,0.30,{0,0,2,0,2,0,0,1,0,-1}},{0.00,0.30,{0,1,0,-4,1}},
{-0.20,0.10,{0,0,0,0,1,0,0,-9,17}},{0.00,-0.30,{1,1,4,-2,2}},{-0.10,-0.20,{2,0,2,0,1,0,0,1}},
{-0.10,0.20,{1,0,-2,0,-2,0,-10,3}},{0.20,-0.10,{0,0,2,-2,1,0,0,-7,9}},{-0.10,-0.20,{0,0,0,0,0,0,2,-3,0,0,0,0,0,1}},
{0.20,0.10,{0,0,0,0,0,0,1,-2,0,0,0,0,0,-2}},{0.20,-0.10,{0,0,0,0,0,0,1,-4,0,0,0,0,0,-2}},
{-0.20,-0.10,{0,0,0,0,0,0,0,6,-10,0,0,0,0,-2}},{-0.10,-0.20,{0,0,0,0,0,0,0,5,-8,0,0,0,0,-2}},
{0.20,-0.10,{0,0,0,0,0,0,0,3,-5,0,0,0,0,-1}},{0.20,0.10,{0,0,0,0,0,0,0,2,-6,0,0,0,0,-2}},{0.00,0.30,{4,0,2,-4,2}},
{0.00,-0.30,{2,2,2,-2,2}},{0.00,0.30,{2,1,2,1,2}},{0.00,0.30,{2,0,0,-2,-1,0,0,-2,0,4,-5}},{0.00,-0.30,{2,0,0,-2,-2,0,-3,3}},
{0.30,0.00,{2,0,-1,-1,-1,0,0,-1}},{0.00,-0.30,{1,0,2,3,2}},{0.00,0.30,{1,0,2,-2,2,0,0,-2,0,2}},
{0.30,0.00,{1,0,1,-1,1,0,0,-1}},{0.30,0.00,{1,0,-1,1,-1,0,-18,17}},{0.00,-0.30,{1,0,-1,-1,-1,0,20,-20}},
{0.00,-0.30,{1,0,-2,-2,-2,0,-3,3}},{0.00,-0.30,{0,2,2,2,2}},{0.00,0.30,{0,2,-2,-4,-2}},{0.00,0.30,{0,1,2,3,2}},
{0.00,-0.30,{0,0,2,-2,1,0,0,-1,0,1}},{0.30,0.00,{0,0,1,-1,1,0,1,-2}},{0.30,0.00,{0,0,1,-1,1,0,-2,1}},
{-0.30,0.00,{0,0,0,0,0,0,9,-11,0,0,0,0,0,-1}},{0.00,0.30,{0,0,0,0,0,0,8,-16,0,0,0,0,0,-2}},
{-0.30,0.00,{0,0,0,0,0,0,5,-3,0,0,0,0,0,1}},{0.30,0.00,{0,0,0,0,0,0,0,6,0,0,0,0,0,1}},
{-0.30,0.00,{0,0,0,0,0,0,0,6,-7,0,0,0,0,2}},{0.00,0.30,{0,0,0,0,0,0,0,4,0,0,-2,0,0,2}},
{0.30,0.00,{0,0,0,0,0,0,0,4,-8,1,5,0,0,-2}},{-0.30,0.00,{0,0,0,0,0,0,0,3,0,0,-2,0,0,2}},
{0.30,0.00,{0,0,0,0,0,0,0,1,0,-1,0,0,0,1}},{0.30,0.00,{0,0,0,0,0,0,0,1,0,-3,0,0,0,-1}},
{0.30,0.00,{0,0,0,0,0,0,0,1,-6,0,0,0,0,-2}},{0.00,-0.30,{0,0,0,0,0,0,0,0,0,4,-5,0,0,2}},
{0.00,0.30,{0,0,0,0,0,0,0,0,0,0,5,0,0,2}},{0.00,0.30,{0,0,0,0,0,0,0,0,0,0,0,2,0,2}},
{0.30,0.00,{0,0,0,0,0,0,0,0,0,0,0,2,0,1}},{0.00,0.30,{0,0,0,0,0,0,0,0,0,0,0,0,2,2}},{0.00,-0.30,{1,0,0,-1,-1,0,0,-2,2}},
{0.00,-0.30,{2,-1,2,-1,2}},{0.30,0.00,{2,0,-1,-1,-1,0,0,-1,0,2}},{0.00,0.30,{1,0,0,-6,-1}},{0.00,-0.30,{1,-1,0,-4,-1}},
{0.00,0.30,{1,0,0,4,-1}},{0.00,-0.30,{3,0,0,-2,1}},{0.30,0.00,{0,0,0,0,1,0,5,-8}},{0.00,-0.30,{1,-2,-2,-2,-1}},
{0.00,-0.30,{0,1,4,-2,1}},{0.00,-0.30,{2,0,4,-2,1}},{0.00,-0.30,{0,0,2,3,1}},{0.30,0.00,{0,0,1,-1,2,0,0,-1,0,1}},
{0.00,0.30,{1,-2,2,0,1}},{0.00,-0.30,{2,-1,2,-2,1}},{0.00,0.30,{2,0,-2,-6,-1}},{0.00,-0.30,{2,0,-4,-2,-1}},
{0.00,-0.30,{2,0,2,1,1}},{0.00,0.30,{0,0,1,-1,2,0,0,0,-2}},{-0.30,0.00,{0,0,0,0,2,0,0,4,-8,3}},
{-0.30,0.00,{0,0,0,0,2,0,0,-4,8,-3}},{0.00,0.30,{0,0,0,1,-2}},{0.00,-0.30,{0,0,2,0,-2}},{0.00,-0.30,{0,1,0,-2,2}},
{-0.20,-0.10,{0,0,0,0,1,0,0,1,0,-2}},{0.00,-0.30,{0,0,0,0,1,0,2,-2}},{0.00,-0.30,{1,1,2,-4,2}},{0.00,-0.21,{0,1,2,-2,3}},
{0.00,0.20,{2,0,2,-2}},{0.00,-0.20,{0,0,0,0,1,0,-2,2}},{0.00,-0.20,{3,0,2}},{0.00,-0.20,{0,0,0,0,1,0,0,-2,2}},
{0.00,-0.20,{0,1,0,-4}},{0.20,0.00,{0,0,0,0,1,0,-3,4}},{0.00,-0.20,{3,0,0,2}},{0.00,0.20,{0,3}},{0.00,0.20,{2,0,-2,-2}},
{0.20,0.00,{2,0,2,-4}},{0.00,0.20,{1,0,0,-3,-1}},{0.00,-0.20,{2,0,2,-2,-1}},{0.00,0.20,{1,0,2,-4,-1}},
{0.00,0.20,{0,0,1,-1,2,0,0,-1,0,0,1}},{0.00,0.20,{1,0,-2,1,1}},{0.00,-0.20,{1,2,0,-2}},{0.00,-0.20,{2,0,-2,-2,1}},
{0.00,-0.20,{1,0,0,-1,1,0,0,-1,0,1}},{0.00,-0.20,{2,0,0,-3,1}},{0.00,-0.20,{1,1,0,1,1}},{0.00,0.20,{1,1,0,1,-1}},
{0.00,-0.20,{2,0,0,-1,1}},{0.00,0.20,{1,2,0,0,1}},{0.00,-0.20,{2,0,0,-2,1,0,0,-5,6}},{0.00,0.20,{1,0,0,-2,-1,0,0,-2,0,2}},
{0.00,-0.20,{1,0,0,-2,1,0,0,-2,0,2}},{0.00,0.20,{2,0,-4,2,-1}},{0.20,0.00,{0,0,2,-2,1,0,0,4,-8,3}},
{0.20,0.00,{0,0,2,-2,1,0,0,-4,8,-3}},{0.00,0.20,{2,-1,0,2,-1}},{0.00,0.20,{1,0,0,-1,-1,0,0,-3,4}},{0.10,-0.10,{1,-2,0,-2}},
{0.00,-0.20,{2,0,0,-2,-1,0,0,-2,0,3,-1}},{0.00,0.20,{1,-1,-4,2,-2}},{0.00,0.20,{3,0,0,2,-1}},{0.00,0.20,{1,0,0,-3}},
{0.00,0.20,{2,0,2,-6,1}},{0.00,0.20,{2,-1,-2,2,-1}},{0.00,0.20,{1,-2,-2,2,-1}},{0.00,0.20,{2,0,4,-4,2}},
{0.20,0.00,{2,0,-1,-1,-2,0,0,-1,0,2}},{0.00,-0.20,{4,1,2,0,2}},{0.00,0.20,{4,-1,2,0,2}},{0.00,-0.20,{4,-1,-2,-2,-2}},
{0.00,-0.20,{3,0,4,-2,2}},{0.00,-0.20,{3,0,2,1,2}},{0.00,0.20,{3,0,-2,2,-1}},{0.00,-0.20,{3,0,-2,-1,-1}},
{0.00,0.20,{2,2,-2,-4,-2}},{0.00,-0.20,{2,1,0,-4}},{0.00,0.20,{2,1,-2,-6,-2}},{0.00,0.20,{2,0,2,-3,2}},
{0.00,0.20,{2,-2,2,2,2}},{0.00,-0.20,{1,1,2,4,2}},{0.00,-0.20,{1,1,-2,-3,-2}},{0.00,0.20,{1,1,-2,-6,-2}},
{-0.20,0.00,{1,0,3,0,3}},{0.20,0.00,{1,0,1,1,1,0,0,1}},{0.20,0.00,{1,0,-1,1,-1,0,0,1}},{0.00,0.20,{1,0,-1,0,-1,0,-3,5}},
{0.20,0.00,{1,0,-1,-2,-1}},{0.00,0.20,{1,0,-2,-2,-2,0,0,-2,0,3}},{0.00,-0.20,{1,-1,2,1,2}},{0.00,0.20,{1,-1,-2,1,-1}},
{0.00,0.20,{0,3,-2,-2,-2}},{0.00,-0.20,{0,0,4,2,2}},{0.00,0.20,{0,0,2,-2,1,0,0,1,0,-1}},{0.00,0.20,{0,0,2,-2,1,0,0,-2}},
{0.00,-0.20,{0,0,2,-2,1,0,0,-3,0,3}},{0.00,-0.20,{0,0,2,-2,1,0,0,-4,4}},{0.00,-0.20,{0,0,2,-2,1,0,-5,5}},
{0.00,0.20,{0,0,1,-1,1,0,1,-3}},{0.00,-0.20,{0,0,1,-1,1,0,0,1,-4}},{0.20,0.00,{0,0,1,-1,1,0,0,-1,0,1,-3}},
{0.20,0.00,{0,0,1,-1,1,0,0,-1,0,0,0,-1}},{0.00,-0.20,{0,0,1,-1,1,0,0,-4,6}},{0.20,0.00,{0,0,1,-1,1,0,-5,6}},
{0.00,0.20,{0,0,0,0,0,0,8,-12,0,0,0,0,0,-2}},{0.00,-0.20,{0,0,0,0,0,0,7,-10,0,0,0,0,0,-1}},
{0.20,0.00,{0,0,0,0,0,0,7,-11,0,0,0,0,0,-1}},{-0.20,0.00,{0,0,0,0,0,0,6,-4,0,0,0,0,0,1}},
{-0.20,0.00,{0,0,0,0,0,0,6,-6,0,0,0,0,0,1}},{-0.20,0.00,{0,0,0,0,0,0,5,-5,0,0,0,0,0,1}},
{0.00,-0.20,{0,0,0,0,0,0,5,-6,0,0,0,0,0,-1}},{-0.20,0.00,{0,0,0,0,0,0,4,-2}},{0.00,-0.20,{0,0,0,0,0,0,4,-5,0,0,0,0,0,-1}},
{0.20,0.00,{0,0,0,0,0,0,4,-5,0,0,0,0,0,-2}},{0.00,-0.20,{0,0,0,0,0,0,3,-4,0,0,0,0,0,1}},
{0.20,0.00,{0,0,0,0,0,0,3,-4,0,0,0,0,0,-2}},{-0.20,0.00,{0,0,0,0,0,0,3,-8,0,0,0,0,0,-2}},
{0.00,0.20,{0,0,0,0,0,0,2,-5,0,0,0,0,0,-1}},{0.00,0.20,{0,0,0,0,0,0,1,-2,0,0,0,0,0,-1}},
{0.00,0.20,{0,0,0,0,0,0,1,-4,0,0,0,0,0,-1}},{0.00,-0.20,{0,0,0,0,0,0,0,9,-17,0,0,0,0,-2}},
{-0.20,0.00,{0,0,0,0,0,0,0,7,-7,0,0,0,0,2}},{-0.20,0.00,{0,0,0,0,0,0,0,7,-8,0,0,0,0,2}},
{-0.20,0.00,{0,0,0,0,0,0,0,7,-9,0,0,0,0,2}},{-0.20,0.00,{0,0,0,0,0,0,0,5,-6,0,0,0,0,2}},
{0.20,0.00,{0,0,0,0,0,0,0,5,-10,0,0,0,0,-2}},{0.00,0.20,{0,0,0,0,0,0,0,4,0,-4,0,0,0,2}},
{0.00,-0.20,{0,0,0,0,0,0,0,4,-6,0,0,0,0,-2}},{0.00,-0.20,{0,0,0,0,0,0,0,4,-7,0,0,0,0,-1}},
{0.00,-0.20,{0,0,0,0,0,0,0,4,-8,3,0,0,0,1}},{0.00,0.20,{0,0,0,0,0,0,0,4,-8,3,0,0,0,-1}},
{0.20,0.00,{0,0,0,0,0,0,0,4,-8,1,5,0,0,2}},{0.20,0.00,{0,0,0,0,0,0,0,3,0,0,0,0,0,2}},
{0.00,0.20,{0,0,0,0,0,0,0,3,-8,3,0,0,0,-2}},{0.20,0.00,{0,0,0,0,0,0,0,2,0,0,-2,0,0,1}},
{0.00,-0.20,{0,0,0,0,0,0,0,2,0,-5,0,0,0,-2}},{0.00,-0.20,{0,0,0,0,0,0,0,2,-4,0,0,0,0,1}},
{0.20,0.00,{0,0,0,0,0,0,0,2,-7,0,0,0,0,-2}},{0.20,0.00,{0,0,0,0,0,0,0,1,0,1,0,0,0,1}},
{0.00,0.20,{0,0,0,0,0,0,0,1,0,0,0,0,0,-1}},{0.20,0.00,{0,0,0,0,0,0,0,1,0,-1,0,0,0,-1}},
{0.20,0.00,{0,0,0,0,0,0,0,1,0,-2,5,0,0,2}},{0.00,0.20,{0,0,0,0,0,0,0,1,0,-2,0,0,0,-2}},
{0.00,-0.20,{0,0,0,0,0,0,0,1,0,-5,0,0,0,-2}},{0.10,-0.10,{0,0,0,0,0,0,0,2,1,0,0,0,0,2}},{0.00,-0.20,{1,0,4,0,1}},
{0.00,0.20,{4,0,-2,0,-1}},{0.00,-0.20,{0,1,0,4,1}},{0.00,0.20,{2,0,0,4,1}},{0.00,0.20,{0,0,0,0,1,0,0,7,-13}},
{0.00,-0.20,{2,1,0,2,1}},{0.00,0.20,{1,-1,0,4,1}},{0.20,0.00,{0,0,2,-2,1,0,-8,11}},{0.00,0.20,{1,0,2,-6,1}},
{0.00,0.20,{0,0,2,-2,2,0,0,-2,0,2}},{0.00,-0.20,{1,2,2,0,1}},{0.00,0.20,{3,0,-2,-6,-1}},{0.00,0.20,{2,0,0,-6,-1}},
{0.00,0.20,{1,-1,2,4,1}},{0.00,-0.20,{2,1,2,2,1}},{-0.20,0.00,{0,0,1,1,2,0,0,1}},{0.00,0.20,{2,-1,-2,-2,-1}},
{0.00,-0.20,{0,1,-2,4,-1}},{0.00,0.20,{2,0,2,4,1}},{0.00,-0.20,{1,-1,-2,-4,-1}},{0.00,-0.20,{1,0,-4,-2,-1}},
{0.00,0.20,{1,-2,2,2,1}},{0.00,0.20,{1,0,-2,-6,-1}},{0.00,-0.20,{3,1,2,-2,1}},{0.00,-0.20,{2,-2,0,-2,-2}},
{0.00,0.20,{2,-1,0,2,1}},{0.00,0.20,{3,0,0,0,2}},{0.00,-0.20,{1,-1,2,-3,1}},{0.00,0.20,{0,0,1,-1,2,0,-5,7}},
{0.00,-0.20,{2,1,0,-2,-2}},{-0.20,0.00,{0,0,1,-1,2,0,0,-1,0,-1}},{0.00,-0.20,{2,1,-2}},{0.00,0.20,{1,0,-2,0,2}},
{0.00,-0.20,{1,-1,0,0,-2}},{0.00,-0.20,{0,2,0,0,2}},{-0.20,0.00,{0,0,0,0,1,0,3,-4}},{0.00,-0.20,{0,0,0,0,1,0,0,2,-2}},
{0.00,0.20,{0,0,0,0,1,0,0,2,0,-2}},{0.00,-0.20,{0,1,2,-4,2}},{0.00,0.20,{0,0,1,-1,2,0,-8,12}},{0.00,0.20,{1,1,-2,2,-2}},
{0.00,-0.19,{0,1,2,-2}},{0.00,0.17,{0,1,-2,2,-3}},{0.00,0.11,{1,0,-2,0,-3}},{0.00,-0.10,{1,1,-2,-2}},
{0.10,0.00,{0,0,0,0,1,0,0,-1,0,2}},{0.00,-0.10,{0,1,-2,-2}},{0.00,0.10,{1,0,0,0,-1,0,-10,3}},
{0.00,-0.10,{1,0,0,0,1,0,-10,3}},{0.00,-0.10,{1,0,-2,-4}},{0.00,-0.10,{2,-1,0,2}},{0.00,-0.10,{0,2,0,0,-2}},
{0.00,-0.10,{1,0,0,-6}},{0.00,0.10,{0,1,4,-4,2}},{0.00,-0.10,{2,0,0,-6}},{-0.10,0.00,{0,0,0,0,2,0,0,0,0,1}},
{0.00,-0.10,{3,0,0,-4}},{0.00,-0.10,{2,-1,-2,0,1}},{0.00,0.10,{2,2,0,-2,-1}},{0.00,-0.10,{0,0,0,3,2}},{0.00,-0.10,{3,-1}},
{0.10,0.00,{0,0,2,0,2,0,2,-3}},{0.10,0.00,{0,0,2,0,2,0,-2,3}},{0.00,0.10,{0,0,2,0,2,0,2,-2}},{0.00,-0.10,{0,0,2,0,2,0,-2,2}},
{0.00,-0.10,{2,-1,-2}},{0.00,0.10,{2,0,-2,-2,-2,0,0,-2,0,2}},{0.00,0.10,{1,2,2,-4,1}},
};
static const XyTerm Y1[] = {
{153041.79,853.32,{0,0,0,0,1}},{11714.49,-290.91,{0,0,2,-2,2}},{2024.68,-51.26,{0,0,2,0,2}},{-1837.32,48.00,{0,0,0,0,2}},
{-1312.21,-28.93,{0,1}},{-632.54,0.78,{1}},{459.68,-67.30,{0,1,2,-2,2}},{344.50,1.41,{0,0,2,0,1}},{268.14,-7.06,{1,0,2,0,2}},
{192.06,29.83,{0,1,-2,2,-2}},{139.64,0.15,{1,0,0,-2}},{-113.94,-1.04,{0,0,2,-2,1}},{109.81,3.20,{1,0,-2,0,-2}},
{-56.37,0.13,{0,0,0,2}},{-56.17,-0.01,{1,0,0,0,1}},{-53.05,-1.24,{1,0,-2,-2,-2}},{-51.60,0.16,{1,0,0,0,-1}},
{45.91,-0.12,{1,0,2,0,1}},{-42.45,0.02,{2,0,0,-2}},{40.82,-1.02,{2,0,-2,0,-1}},{34.30,-1.25,{0,0,2,2,2}},
{28.89,0.00,{0,2,-2,2,-2}},{27.61,-1.22,{2,0,2,0,2}},{-25.43,1.00,{1,0,2,-2,2}},{-26.01,0.07,{2}},{-23.02,0.06,{0,0,2}},
{19.37,-0.01,{0,0,2,-2}},{14.05,-4.19,{0,2,2,-2,2}},{18.18,-0.01,{1,0,-2,0,-1}},{-14.86,-0.09,{0,2}},
{13.49,-0.01,{1,0,0,-2,-1}},{12.44,-0.27,{0,1,0,0,1}},{11.46,0.03,{1,0,0,-2,1}},{-11.33,-0.06,{0,1,0,0,-1}},
{-9.81,0.01,{2,0,-2}},{-9.08,-0.02,{1,0,-2,-2,-1}},{2.74,-4.56,{0,0,1,-1,1,0,0,-1,0,-2,5}},{6.84,-0.04,{1,0,2,2,2}},
{-6.73,0.01,{0,1,2,0,2}},{6.54,0.01,{1,1,0,-2}},{-6.35,-0.01,{0,1,-2,0,-2}},{5.90,-0.02,{0,0,2,2,1}},{-5.85,0.02,{1,0,0,2}},
{-5.73,0.01,{2,0,2,-2,2}},{5.60,0.00,{0,0,0,2,1}},{-5.16,0.00,{1,0,2,-2,1}},{-5.14,0.01,{2,0,0,-2,-1}},
{4.76,-0.02,{2,0,2,0,1}},{-4.40,0.02,{0,0,0,2,-1}},{-4.22,0.00,{0,1,-2,2,-1}},{-4.20,0.01,{1,-1}},{3.58,0.31,{1,0,0,-1}},
{3.87,0.01,{0,1,0,-2}},{3.76,0.00,{0,0,0,1}},{-3.62,0.00,{2,0,0,-2,1}},{-3.61,0.00,{1,0,-2}},
{-1.28,-2.14,{0,0,0,0,0,0,0,0,0,2,-5,0,0,-1}},{-3.18,0.00,{0,1,2,-2,1}},{3.01,0.00,{1,1}},{-2.97,0.01,{1,0,2}},
{2.91,0.00,{1,-1,0,-1}},{-2.73,0.00,{2,0,-2,0,-2}},{2.58,-0.01,{3,0,2,0,2}},{2.56,-0.01,{1,-1,2,0,2}},
{-2.51,-0.01,{1,1,-2,-2,-2}},{-2.35,-0.01,{0,1,-2,-2,-2}},{-2.21,0.01,{1,1,2,0,2}},{-2.04,0.01,{2,0,0,0,-1}},
{-1.94,0.00,{2,0,0,0,1}},{0.41,-1.43,{0,0,0,0,0,0,0,4,-8,3}},{-1.84,0.00,{0,0,0,0,0,0,3,-5,0,0,0,0,0,-2}},
{-1.77,0.01,{1,0,-2,2,-1}},{0.00,1.77,{0,1,-1,1,-1}},{1.76,0.00,{1,0,0,0,2}},{-1.07,-0.53,{0,0,1,-1,1,0,-8,12}},
{-1.48,0.00,{0,0,2,1,2}},{-1.40,0.01,{3}},{-1.35,-0.01,{1,0,-2,-4,-2}},{-1.32,0.00,{0,0,0,0,0,0,1,-1}},
{-1.28,0.00,{0,0,0,0,0,0,0,8,-16,4,5}},{1.24,0.00,{1,0,0,0,-2}},{1.23,0.00,{2,0,-2,-2,-2}},{1.19,0.00,{1,0,0,-4}},
{1.18,-0.01,{1,0,2,2,1}},{1.17,0.00,{1,-1,0,-1,-1}},{-1.15,0.00,{1,1,2,-2,2}},{1.14,0.00,{2,0,0,-4}},
{-1.14,0.00,{0,2,-2,2,-1}},{1.09,0.03,{0,0,0,0,0,0,0,1,0,-1}},{-1.08,0.00,{2,0,-2,-4,-2}},
{1.04,0.00,{0,0,0,0,0,0,0,0,0,2,0,0,0,2}},{1.02,0.00,{1,0,-4,0,-2}},{0.98,-0.01,{2,0,2,2,2}},{0.91,0.02,{1,0,0,-1,-1}},
{0.00,0.93,{1,0,-1,0,-1}},{-0.91,0.00,{2,0,2,-2,1}},{-0.90,0.00,{2,1,0,-2}},{0.86,0.00,{1,0,0,2,1}},{-0.84,0.00,{1,-1,0,-2}},
{-0.83,0.00,{3,0,2,-2,2}},{-0.82,0.00,{0,0,4,-2,2}},{0.41,0.39,{0,0,0,0,1,0,0,-1,2}},{0.40,-0.38,{0,0,0,0,0,0,0,1,-2}},
{0.78,0.00,{0,1,-2,2}},{0.74,0.00,{0,0,2,-2,-1}},{-0.73,0.00,{0,1,2,0,1}},{0.68,0.00,{1,0,2,-2}},{0.66,0.00,{1,1,0,-2,-1}},
{-0.64,0.00,{2,0,-2,0,1}},{-0.63,0.00,{0,1,0,0,2}},{0.63,0.00,{0,0,2,-1,2}},{0.62,0.00,{0,0,2,4,2}},{0.60,0.00,{0,1,0,2}},
{-0.59,0.00,{0,0,2,0,-1}},{-0.59,0.00,{0,1,-2,0,-1}},{0.59,0.00,{0,1,2,-2}},{0.57,0.00,{1,0,-2,-2}},
{0.38,-0.19,{0,0,0,0,0,0,8,-13,0,0,0,0,0,-1}},{-0.01,-0.55,{0,0,0,0,0,0,2,-3}},{0.44,-0.11,{0,0,0,0,0,0,0,0,0,2,-5}},
{0.53,0.00,{0,0,0,0,0,0,2,-2}},{-0.53,0.00,{1,-1,0,-1,-2}},{0.52,0.00,{1,-1,2,2,2}},{-0.52,0.00,{2,0,0,2}},
{0.53,0.00,{0,1,0,0,-2}},{0.52,0.00,{1,1,0,-2,1}},{0.51,0.00,{1,0,-2,2}},{0.51,0.00,{1,-1,-2,-2,-2}},
{-0.21,-0.30,{0,0,0,0,0,0,8,-13}},{-0.50,0.00,{0,1,0,1}},{-0.11,0.37,{0,0,0,0,0,0,0,2,-8,3,0,0,0,-2}},
{-0.11,0.37,{0,0,0,0,0,0,0,6,-8,3,0,0,0,2}},{-0.48,0.00,{0,1,2,2,2}},{-0.46,-0.01,{0,0,0,0,0,0,0,3,0,-1,0,0,0,2}},
{-0.47,0.00,{1,-1,0,0,1}},{-0.03,0.43,{0,0,1,-1,1,0,0,-1,0,2,-5}},{0.45,0.00,{3,0,2,0,1}},{-0.44,0.00,{0,0,0,4}},
{-0.44,0.00,{1,0,0,2,-1}},{-0.44,0.00,{1,-1,0,2}},{0.43,0.00,{2,-1,2,0,2}},{0.44,0.00,{0,0,0,0,0,0,4,-6,0,0,0,0,0,-2}},
{0.42,0.00,{0,0,0,2,2}},{-0.42,0.00,{1,1,-2,-2,-1}},{0.41,0.00,{1,-1,-2,0,-2}},{-0.41,0.00,{0,0,0,0,0,0,2,-4,0,0,0,0,0,-2}},
{0.02,0.39,{0,0,2,-2,1,0,-5,6}},{0.40,0.00,{1,0,2,-4,1}},{-0.40,0.00,{0,1,-2,-2,-1}},{-0.39,0.00,{2,0,0,-2,0,0,0,-2,0,2}},
{0.39,0.00,{0,3,2,-2,2}},{0.15,-0.24,{0,0,0,0,0,0,0,1,0,-2}},{-0.37,-0.01,{0,0,0,0,0,0,0,2,0,-2}},{0.37,0.00,{1,-1,2,0,1}},
{-0.37,0.00,{0,0,2,2}},{-0.37,0.00,{2,1,2,0,2}},{-0.31,0.06,{2,0,0,-2,0,0,0,-2,0,3}},{-0.35,0.00,{1,0,0,-2,-2}},
{0.35,0.00,{0,0,0,1,1}},{-0.07,-0.27,{0,0,0,0,1,0,0,-4,8,-3}},{-0.33,0.01,{0,0,0,0,0,0,2,0,0,0,0,0,0,2}},{-0.33,0.00,{2,-1}},
{0.07,-0.26,{0,0,0,0,1,0,0,4,-8,3}},{0.33,0.00,{0,0,0,0,0,0,0,2,-2}},{0.00,-0.32,{1,0,-1,0,-2}},{0.32,0.00,{1,1,0,0,1}},
{-0.32,0.00,{1,1,2,0,1}},{0.32,0.00,{1,0,-2,2,-2}},{-0.24,-0.07,{0,0,1,-1,1,0,0,0,-2}},{0.24,0.07,{0,0,1,-1,0,0,0,0,-2}},
{0.30,0.00,{0,0,0,0,0,0,1,1,0,0,0,0,0,2}},{0.08,-0.22,{0,0,0,0,0,0,0,0,0,1}},{-0.30,0.00,{1,0,2,1,2}},{-0.30,0.00,{2,0,2}},
{0.30,0.00,{0,1,0,-2,1}},{0.30,0.00,{1,0,2,-1,2}},{0.00,-0.29,{0,0,0,0,0,0,3,-4}},{0.00,-0.29,{1,0,-1}},
{0.20,-0.09,{1,0,0,0,0,0,-18,16}},{0.29,0.00,{1,0,0,1}},{-0.05,-0.24,{0,0,0,0,0,0,0,0,0,2,0,0,0,1}},{0.29,0.00,{0,0,0,1,-1}},
{-0.27,0.00,{1,0,0,-2,2}},{-0.19,-0.08,{1,0,0,0,0,0,-10,3}},{-0.27,0.00,{1,-1,0,0,-1}},{0.25,0.00,{2,1}},
{0.25,0.00,{2,0,0,-2,-1,0,0,-2,0,2}},{-0.25,0.00,{0,0,2,1,1}},{0.25,0.00,{1,2,0,-2}},{-0.25,0.00,{0,3}},
{-0.01,0.23,{0,0,0,0,0,0,5,-8,0,0,0,0,0,-2}},{-0.23,0.00,{1,0,-2,-4,-1}},{0.23,0.00,{0,0,0,0,0,0,0,1,0,1,0,0,0,2}},
{0.23,0.00,{4,0,2,0,2}},{-0.15,-0.07,{0,0,1,-1,1,0,0,-1,0,0,-1}},{-0.23,0.00,{1,0,-2,0,1}},{-0.22,0.00,{2,1,2,-2,2}},
{0.22,0.00,{0,1,2,1,2}},{-0.22,0.00,{1,1,2,-2,1}},{-0.22,0.00,{1,0,4,-2,2}},{0.04,-0.17,{0,0,1,-1,1,0,0,-1,0,-1}},
{-0.01,-0.21,{0,0,2,-2,0,0,-5,6}},{0.08,-0.14,{0,0,0,0,0,0,0,2,-4}},{-0.01,0.19,{0,0,0,0,0,0,0,0,0,2,-5,0,0,1}},
{0.21,0.00,{2,0,-2,-2,-1}},{-0.20,0.00,{1,0,-2,1,-1}},{-0.20,0.00,{2,-2,0,-2}},
{-0.04,-0.16,{0,0,0,0,0,0,8,-13,0,0,0,0,0,-2}},{0.19,0.00,{0,2,0,-2}},{0.19,0.00,{1,1,0,0,-1}},{-0.19,0.00,{2,0,-2,-4,-1}},
{0.18,0.00,{0,0,0,0,0,0,5,-7,0,0,0,0,0,-2}},{-0.18,0.00,{0,1,0,2,1}},{0.18,0.00,{1,0,-4,0,-1}},{0.17,0.00,{2,0,2,2,1}},
{-0.12,0.06,{1,0,2,0,2,0,0,1}},{0.13,-0.04,{0,0,0,0,0,0,3,-5}},{-0.11,0.06,{1,0,-2,0,-2,0,0,4,-8,3}},
{0.17,0.00,{0,0,2,-3,2}},{-0.17,0.00,{0,0,4,0,2}},{0.16,0.00,{0,0,0,0,0,0,0,4,0,-2,0,0,0,2}},{-0.17,0.00,{1,0,0,-4,-1}},
{-0.14,0.02,{1,0,0,-1,1}},{0.14,0.03,{0,0,0,0,0,0,0,2,0,-1,0,0,0,2}},{0.00,0.15,{0,0,0,0,0,0,2,-1,0,0,0,0,0,2}},
{-0.15,0.00,{1,1,-2,-4,-2}},{-0.14,0.01,{0,0,0,0,0,0,0,2,0,1,0,0,0,2}},{0.16,0.00,{2,0,0,-2,-2}},
{-0.06,0.10,{0,0,0,0,0,0,8,-11,0,0,0,0,0,-2}},{0.05,0.10,{0,0,0,0,0,0,0,8,-16,4,5,0,0,-2}},
{0.02,0.13,{0,0,1,-1,1,0,0,-1,0,2}},{-0.11,0.04,{0,0,0,0,0,0,0,8,-16,4,5,0,0,2}},{-0.12,-0.02,{0,0,1,-1,1,0,-5,7}},
{-0.05,-0.10,{0,0,0,0,0,0,0,0,0,0,2,0,0,1}},{0.14,0.00,{1,0,2,4,2}},{-0.09,0.05,{1,0,0,-2,0,0,19,-21,3}},
{0.00,0.14,{0,0,1,0,1}},{0.14,0.00,{3,0,0,-4}},{-0.14,0.00,{1,1,-2,0,-2}},{0.04,0.10,{0,0,1,-1,1,0,0,-1,0,0,2}},
{-0.06,0.08,{0,0,0,0,0,0,0,3,0,-2,0,0,0,2}},{0.05,0.09,{0,0,0,0,0,0,8,-15,0,0,0,0,0,-2}},{-0.14,0.00,{0,1,0,-2,-1}},
{0.08,0.06,{0,0,0,0,0,0,0,1,2,0,0,0,0,2}},{0.14,0.00,{0,0,0,4,1}},{0.14,0.00,{0,0,2,-4,1}},{0.13,0.00,{1,1,0,-4}},
{-0.07,0.06,{0,0,0,0,0,0,0,3,-2,0,0,0,0,2}},{0.11,-0.02,{0,0,0,0,0,0,0,0,0,3,0,0,0,2}},{-0.13,0.00,{3,0,2,-2,1}},
{-0.13,0.00,{0,0,0,0,0,0,0,4,-2,0,0,0,0,2}},{-0.13,0.00,{1,1,2,2,2}},{-0.13,0.00,{0,0,4,-2,1}},
{-0.12,0.00,{2,0,0,-2,0,0,-3,3}},{0.12,0.00,{3,0,2,2,2}},{0.12,0.00,{0,0,0,0,0,0,0,0,0,0,2,0,0,2}},
{-0.12,0.00,{2,1,0,-2,-1}},{-0.02,-0.09,{0,0,0,0,0,0,4,-6,0,0,0,0,0,-1}},{0.02,-0.09,{0,0,0,0,0,0,1,-1,0,0,0,0,0,-1}},
{0.00,-0.12,{1,0,0,-1,0,0,-3,4}},{-0.11,0.00,{0,2,-2,-2,-2}},{0.11,0.00,{2,0,0,-4,-1}},{0.07,-0.04,{0,0,0,0,0,0,0,3,-4}},
{0.11,0.00,{0,0,2,4,1}},{0.11,0.00,{0,0,0,2,-2}},{-0.11,0.00,{3,0,0,0,-1}},{0.10,0.00,{0,0,0,0,0,0,0,1,0,-3,0,0,0,-2}},
{-0.10,0.00,{0,0,2,-2,1,0,-3,3}},{0.10,0.00,{0,0,0,0,0,0,6,-8,0,0,0,0,0,-2}},{0.10,0.00,{2,1,0,-4}},
{0.10,0.00,{0,0,1,-1,1,0,0,3,-8,3}},{0.00,0.10,{0,0,0,0,0,0,3,-2,0,0,0,0,0,2}},{0.00,0.10,{0,0,0,0,0,0,2,-5,0,0,0,0,0,-2}},
{-0.10,0.00,{4,0,2,-2,2}},{0.10,0.00,{2,0,0,2,1}},{-0.10,0.00,{1,-1,0,-2,-1}},{0.10,0.00,{0,0,0,0,0,0,1,-3,0,0,0,0,0,-2}},
};
static const XyTerm Y2[] = {
{120.56,-2301.27,{0,0,0,0,1}},{-1.03,-143.27,{0,0,2,-2,2}},{-0.28,-24.46,{0,0,2,0,2}},{0.24,22.41,{0,0,0,0,2}},
{-1.19,-5.61,{0,1,2,-2,2}},{3.57,-1.83,{0,1}},{0.24,-5.02,{0,0,2,0,1}},{-0.04,-3.23,{1,0,2,0,2}},{-0.48,2.40,{0,1,-2,2,-2}},
{-0.10,1.73,{0,0,2,-2,1}},{-0.02,1.33,{1,0,-2,0,-2}},{-0.04,0.83,{1,0,0,0,1}},{-0.05,-0.79,{1,0,0,0,-1}},
{0.03,-0.66,{1,0,2,0,1}},{0.00,-0.64,{1,0,-2,-2,-2}},{0.04,0.61,{2,0,-2,0,-1}},{-0.01,-0.41,{0,0,2,2,2}},
{-0.01,0.35,{0,2,-2,2,-2}},{-0.01,-0.33,{2,0,2,0,2}},{0.01,0.31,{1,0,2,-2,2}},{0.01,0.27,{1,0,-2,0,-1}},
{-0.07,-0.17,{0,2,2,-2,2}},{0.07,0.17,{1}},{0.02,-0.21,{0,1,0,0,1}},{0.01,0.20,{1,0,0,-2,-1}},{0.01,-0.17,{1,0,0,-2,1}},
{0.01,-0.16,{0,1,0,0,-1}},{0.00,-0.13,{1,0,-2,-2,-1}},{-0.07,-0.04,{0,0,1,-1,1,0,0,-1,0,-2,5}},{0.02,0.08,{0,1,2,0,2}},
};
static const XyTerm Y3[] = {
{-15.22,-1.61,{0,0,0,0,1}},{-1.16,-0.01,{0,0,2,-2,2}},{-0.20,0.00,{0,0,2,0,2}},{0.18,0.00,{0,0,0,0,2}},{0.13,0.00,{0,1}},
};
static const XyTerm Y4[] = {
{-0.02,0.11,{0,0,0,0,1}},
};
