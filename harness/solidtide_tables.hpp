// Waves of the conventional solid Earth tide: Doodson multipliers and amplitudes.
struct DispWave { int n[6]; double rip, rop, tip, top; };   // [mm]
static const DispWave disp_waves[] = {
  {{1, -3, 0, 2, 0, 0}, -0.01, -0.01, 0.0, 0.0},
  {{1, -3, 2, 0, 0, 0}, -0.01, -0.01, 0.0, 0.0},
  {{1, -2, 0, 1, -1, 0}, -0.02, -0.01, 0.0, 0.0},
  {{1, -2, 0, 1, 0, 0}, -0.08, 0.0, 0.01, 0.01},
  {{1, -2, 2, -1, 0, 0}, -0.02, -0.01, 0.0, 0.0},
  {{1, -1, 0, 0, -1, 0}, -0.1, 0.0, 0.0, 0.0},
  {{1, -1, 0, 0, 0, 0}, -0.51, 0.0, -0.02, 0.03},
  {{1, -1, 2, 0, 0, 0}, 0.01, 0.0, 0.0, 0.0},
  {{1, 0, -2, 1, 0, 0}, 0.01, 0.0, 0.0, 0.0},
  {{1, 0, 0, -1, 0, 0}, 0.02, 0.01, 0.0, 0.0},
  {{1, 0, 0, 1, 0, 0}, 0.06, 0.0, 0.0, 0.0},
  {{1, 0, 0, 1, 1, 0}, 0.01, 0.0, 0.0, 0.0},
  {{1, 0, 2, -1, 0, 0}, 0.01, 0.0, 0.0, 0.0},
  {{1, 1, -3, 0, 0, 1}, -0.06, 0.0, 0.0, 0.0},
  {{1, 1, -2, 0, 1, 0}, 0.01, 0.0, 0.0, 0.0},
  {{1, 1, -2, 0, 0, 0}, -1.23, -0.07, 0.06, 0.01},
  {{1, 1, -1, 0, 0, -1}, 0.02, 0.0, 0.0, 0.0},
  {{1, 1, -1, 0, 0, 1}, 0.04, 0.0, 0.0, 0.0},
  {{1, 1, 0, 0, -1, 0}, -0.22, 0.01, 0.01, 0.0},
  {{1, 1, 0, 0, 0, 0}, 12.0, -0.78, -0.67, -0.03},
  {{1, 1, 0, 0, 1, 0}, 1.73, -0.12, -0.1, 0.0},
  {{1, 1, 0, 0, 2, 0}, -0.04, 0.0, 0.0, 0.0},
  {{1, 1, 1, 0, 0, -1}, -0.5, -0.01, 0.03, 0.0},
  {{1, 1, 1, 0, 0, 1}, 0.01, 0.0, 0.0, 0.0},
  {{1, 1, 1, 0, 1, -1}, -0.01, 0.0, 0.0, 0.0},
  {{1, 1, 2, -2, 0, 0}, -0.01, 0.0, 0.0, 0.0},
  {{1, 1, 2, 0, 0, 0}, -0.11, 0.01, 0.01, 0.0},
  {{1, 2, -2, 1, 0, 0}, -0.01, 0.0, 0.0, 0.0},
  {{1, 2, 0, -1, 0, 0}, -0.02, 0.02, 0.0, 0.01},
  {{1, 3, 0, 0, 0, 0}, 0.0, 0.01, 0.0, 0.01},
  {{1, 3, 0, 0, 1, 0}, 0.0, 0.01, 0.0, 0.0},
  {{0, 0, 0, 0, 1, 0}, 0.47, 0.16, 0.23, 0.07},
  {{0, 0, 2, 0, 0, 0}, -0.2, -0.11, -0.12, -0.05},
  {{0, 1, 0, -1, 0, 0}, -0.11, -0.09, -0.08, -0.04},
  {{0, 2, 0, 0, 0, 0}, -0.13, -0.15, -0.11, -0.07},
  {{0, 2, 0, 0, 1, 0}, -0.05, -0.06, -0.05, -0.03},
};
struct PotWave { int n[6]; double ip, op; };   // [1e-12]
static const PotWave pot_waves[] = {
  {{1, -3, 0, 2, 0, 0}, -0.1, 0.0},
  {{1, -3, 2, 0, 0, 0}, -0.1, 0.0},
  {{1, -2, 0, 1, -1, 0}, -0.1, 0.0},
  {{1, -2, 0, 1, 0, 0}, -0.7, 0.1},
  {{1, -2, 2, -1, 0, 0}, -0.1, 0.0},
  {{1, -1, 0, 0, -1, 0}, -1.3, 0.1},
  {{1, -1, 0, 0, 0, 0}, -6.8, 0.6},
  {{1, -1, 2, 0, 0, 0}, 0.1, 0.0},
  {{1, 0, -2, 1, 0, 0}, 0.1, 0.0},
  {{1, 0, 0, -1, -1, 0}, 0.1, 0.0},
  {{1, 0, 0, -1, 0, 0}, 0.4, 0.0},
  {{1, 0, 0, 1, 0, 0}, 1.3, -0.1},
  {{1, 0, 0, 1, 1, 0}, 0.3, 0.0},
  {{1, 0, 2, -1, 0, 0}, 0.3, 0.0},
  {{1, 0, 2, -1, 1, 0}, 0.1, 0.0},
  {{1, 1, -3, 0, 0, 1}, -1.9, 0.1},
  {{1, 1, -2, 0, -1, 0}, 0.5, 0.0},
  {{1, 1, -2, 0, 0, 0}, -43.4, 2.9},
  {{1, 1, -1, 0, 0, -1}, 0.6, 0.0},
  {{1, 1, -1, 0, 0, 1}, 1.6, -0.1},
  {{1, 1, 0, -2, -1, 0}, 0.1, 0.0},
  {{1, 1, 0, 0, -2, 0}, 0.1, 0.0},
  {{1, 1, 0, 0, -1, 0}, -8.8, 0.5},
  {{1, 1, 0, 0, 0, 0}, 470.9, -30.2},
  {{1, 1, 0, 0, 1, 0}, 68.1, -4.6},
  {{1, 1, 0, 0, 2, 0}, -1.6, 0.1},
  {{1, 1, 1, -1, 0, 0}, 0.1, 0.0},
  {{1, 1, 1, 0, -1, -1}, -0.1, 0.0},
  {{1, 1, 1, 0, 0, -1}, -20.6, -0.3},
  {{1, 1, 1, 0, 0, 1}, 0.3, 0.0},
  {{1, 1, 1, 0, 1, -1}, -0.3, 0.0},
  {{1, 1, 2, -2, 0, 0}, -0.2, 0.0},
  {{1, 1, 2, -2, 1, 0}, -0.1, 0.0},
  {{1, 1, 2, 0, 0, 0}, -5.0, 0.3},
  {{1, 1, 2, 0, 1, 0}, 0.2, 0.0},
  {{1, 1, 3, 0, 0, -1}, -0.2, 0.0},
  {{1, 2, -2, 1, 0, 0}, -0.5, 0.0},
  {{1, 2, -2, 1, 1, 0}, -0.1, 0.0},
  {{1, 2, 0, -1, -1, 0}, 0.1, 0.0},
  {{1, 2, 0, -1, 0, 0}, -2.1, 0.1},
  {{1, 2, 0, -1, 1, 0}, -0.4, 0.0},
  {{1, 3, -2, 0, 0, 0}, -0.2, 0.0},
  {{1, 3, 0, -2, 0, 0}, -0.1, 0.0},
  {{1, 3, 0, 0, 0, 0}, -0.6, 0.0},
  {{1, 3, 0, 0, 1, 0}, -0.4, 0.0},
  {{1, 3, 0, 0, 2, 0}, -0.1, 0.0},
  {{1, 4, 0, -1, 0, 0}, -0.1, 0.0},
  {{1, 4, 0, -1, 1, 0}, -0.1, 0.0},
  {{0, 0, 0, 0, 1, 0}, 16.6, -6.7},
  {{0, 0, 0, 0, 2, 0}, -0.1, 0.1},
  {{0, 0, 1, 0, 0, -1}, -1.2, 0.8},
  {{0, 0, 2, 0, 0, 0}, -5.5, 4.3},
  {{0, 0, 2, 0, 1, 0}, 0.1, -0.1},
  {{0, 0, 3, 0, 0, -1}, -0.3, 0.2},
  {{0, 1, -2, 1, 0, 0}, -0.3, 0.7},
  {{0, 1, 0, -1, -1, 0}, 0.1, -0.2},
  {{0, 1, 0, -1, 0, 0}, -1.2, 3.7},
  {{0, 1, 0, -1, 1, 0}, 0.1, -0.2},
  {{0, 1, 0, 1, 0, 0}, 0.1, -0.2},
  {{0, 2, -2, 0, 0, 0}, 0.0, 0.6},
  {{0, 2, 0, -2, 0, 0}, 0.0, 0.3},
  {{0, 2, 0, 0, 0, 0}, 0.6, 6.3},
  {{0, 2, 0, 0, 1, 0}, 0.2, 2.6},
  {{0, 2, 0, 0, 2, 0}, 0.0, 0.2},
  {{0, 3, -2, 1, 0, 0}, 0.1, 0.2},
  {{0, 3, 0, -1, 0, 0}, 0.4, 1.1},
  {{0, 3, 0, -1, 1, 0}, 0.2, 0.5},
  {{0, 4, -2, 0, 0, 0}, 0.1, 0.2},
  {{0, 4, 0, -2, 0, 0}, 0.1, 0.1},
  {{2, -1, 0, 1, 0, 0}, -0.3, 0.0},
  {{2, 0, 0, 0, 0, 0}, -1.2, 0.0},
};
