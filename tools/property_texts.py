MAT = ["include/coeff_matrix_storage.hpp", "include/coeff_matrix_2d.hpp"]
STK = ["include/stokes_coefficients.hpp", "src/lib/stokes_coefficients.cpp"]
ALF = ["include/gravity.hpp", "src/lib/gravity/forward_column_alf.cpp"]
SH = ["include/gravity.hpp", "src/lib/gravity/sh_cunningham_normalized_gradient.cpp"]
ASAN = "runs of the real code under AddressSanitizer, UBSan and poisoned memory; "
TRUST = ("Exploration: holds on every execution observed (counts in the evidence). Trusts the reference model in "
         "/verif/harness, the compiler and its sanitizers. ")

p("C01", "Matrix storage layouts are bijections onto contiguous memory",
  "For every storage layout (full row- or column-wise, lower triangular row- or column-wise, trapezoid) and every "
  "shape, the index of an element is a one-to-one map from the admissible (row, column) pairs onto 0..number of "
  "elements-1, laid out exactly as documented (rows or columns contiguous, in order). Slices, rows, columns and their "
  "lengths address exactly the elements that element access addresses, and the number of elements is the size of the "
  "allocated block.",
  ["inputs", "configurations"], "every layout, every shape (also wide, tall and empty ones), every admissible element",
  "The tests check a handful of shapes per layout; an index map error typically shows only for some shapes "
  "(non-square, large, single row).",
  MAT, [("StorageImplementation<...>::index / slice / num_elements", MAT[0]), ("operator()(i,j), row, column, slice", MAT[1])],
  ["index()", "slice()", "num_elements()", "operator()(i,j)", "row()/column()", "data()"],
  "sanitizers + online index-map monitor",
  TRUST + "Exhaustive for small shapes, random for large ones (index arithmetic beyond 2^31 included).")
p("C02", "Coefficient matrices are independent values through any history",
  "A matrix is a value: after any history of construction, copying, assignment (also from itself), moving, swapping, "
  "resizing (discarding or keeping content), filling and scaling, every live matrix has the shape and elements that "
  "the same history gives on plain arrays. Changing one matrix never changes another, content-preserving resizes keep "
  "every element that exists in both shapes, and no step loses, double-frees or overruns memory.",
  ["histories", "inputs"], "every sequence of operations on a pool of matrices of every layout and shape",
  "Unit tests perform one or two operations on one matrix; capacity reuse, aliasing and leaks need histories.",
  MAT, [("copy/move constructors and assignments, swap, resize, cresize", MAT[1])],
  ["rows()/cols()", "operator()(i,j)", "data()", "live heap bytes"],
  "model-based history monitor under ASan/UBSan, heap accounting",
  TRUST + "Leaks are decided by bytes alive in the sanitizer's allocator after repeated histories.",
  [("m_data, m_storage, _capacity", "the owned block, its layout, its capacity", MAT[1])])
p("C03", "Matrix expressions equal the element-wise arithmetic they denote",
  "Any expression of sums, scalings and reduced (upper-left block) views of coefficient matrices, whether used to "
  "construct, assign or accumulate, stores in every element exactly the value of the same arithmetic done element by "
  "element. Operands are unchanged, elements outside an accumulated block are unchanged, and an operand whose shape "
  "does not fit stops the program in debug builds instead of reading or writing out of range.",
  ["programs", "inputs"], "every expression up to four operands, all layouts, all shapes, also when the target appears in the expression",
  "The tests evaluate fixed expressions on few shapes.",
  MAT, [("_SumProxy, _ScaledProxy, _ReducedViewProxy", MAT[1]), ("operator+=, reduce_copy", MAT[1])],
  ["operator=", "operator+=", "reduced_view()"], "sanitizers + element-wise reference monitor over random expressions",
  TRUST + "Results are compared with a tolerance of a few ulp.")
p("C04", "Stokes coefficient sets keep degree, order and values through any history",
  "After any history of construction, copying, moving, swapping, assignment, resizing (discarding or content-keeping), "
  "shrinking, clearing, scaling and adding expansions of equal or smaller size, a set of Stokes coefficients has the "
  "degree, order, GM, radius, normalisation flag and the C and S values the same history gives on plain arrays. "
  "Adding a smaller expansion adds exactly its degrees and orders and leaves the others alone; requests that cannot "
  "be honoured are reported and change nothing.",
  ["histories", "inputs"], "every sequence of operations on a pool of expansions of any degree and order <= degree",
  "The tests add a few fixed-size expansions; truncations (order < degree), capacity reuse and rejected requests are not exercised.",
  STK + MAT, [("operator+=, resize, cresize, shrink_dimensions, scale, clear", STK[0])],
  ["max_degree()/max_order()", "C(n,m)/S(n,m)", "GM()/Re()"], "model-based history monitor under ASan/UBSan",
  TRUST, [("m_degree, m_order, _Cnm, _Snm", "size of the expansion and its coefficients", STK[0])])
p("C05", "Packing coefficients to a combined array and back loses nothing",
  "Packing an expansion into the combined C/S array places C(n,m) at row n, column m and S(n,m) at row m-1, column n, "
  "for every degree and order, and unpacking such an array returns those coefficients (S of order zero being zero). "
  "Packing then unpacking returns the same expansion, truncated to the requested order.",
  ["inputs"], "every degree, order and content, square arrays of any size, every requested order",
  "The tests pack two fixed expansions of one size.",
  STK, [("to_anm, from_anm", STK[0])], ["to_anm()", "from_anm()"], "sanitizers + element-wise monitor",
  TRUST)
p("C06", "Normalised associated Legendre functions and derivatives are right",
  "For every latitude away from the poles, degree and order, the fully normalised associated Legendre functions and "
  "their first derivatives with respect to latitude agree with an independent evaluation to near double precision, "
  "for every pair up to the requested degree and order. Values do not depend on how far the expansion is carried, "
  "on the variant (with or without derivatives) or on the size of the output beyond the needed one, and nothing "
  "outside the output is written.",
  ["inputs"], "latitudes in (-pi/2, pi/2), degree 0..~1200, order 0..degree, output of any sufficient size",
  "The test compares one latitude/degree; recursion errors show for particular n, m, degree==order or degree 0.",
  ALF, [("forward column recursion", ALF[1])], ["Pnm(n,m)", "dPnm(n,m)"],
  "sanitizers + extended-precision oracle, addition theorem and parity monitors",
  TRUST + "Oracle: column recursion in long double, 11 more bits. Sectorial underflow at high order near the poles is out of scope.")
p("C07", "Spherical-harmonics acceleration equals the gradient of the potential",
  "For every gravity field, point outside the origin and truncation degree/order, the computed acceleration equals the "
  "gradient of the truncated spherical harmonic potential, scaled with GM and radius. It is linear in the "
  "coefficients: each single C(n,m) or S(n,m) contributes exactly its own harmonic.",
  ["inputs"], "degrees up to the implementation's limit, order <= degree, any position including poles and equator",
  "No built test evaluates it; the upstream ones use one model and one orbit.",
  SH, [("sh2gradient_cunningham", SH[1])], ["acc"],
  "monitor with independently differentiated potential (exact jets), sanitizers", TRUST)
p("C08", "Spherical-harmonics gravity gradient is the derivative of the acceleration",
  "For every gravity field, point and truncation, the 3x3 gradient is the derivative of the acceleration with respect "
  "to position: it agrees with an independently differentiated potential and with finite differences, is symmetric "
  "and has zero trace.",
  ["inputs"], "degrees up to the implementation's limit, order <= degree, any position including poles and equator",
  "No built test evaluates it.",
  SH, [("sh2gradient_cunningham", SH[1])], ["gradient"],
  "monitor with independently differentiated potential, Laplace and symmetry checks, sanitizers", TRUST)
p("C09", "Truncation, defaults, scratch space and errors of the gravity synthesis",
  "Asking for degree/order/radius/GM that are negative uses those of the coefficient set; asking for a smaller degree "
  "or order gives the result of the field with the higher coefficients set to zero; caller supplied scratch space "
  "(any content, any sufficient size) gives the same result as none. Requests that cannot be honoured (degree or "
  "order beyond the coefficients or the implementation's limit, order above degree, too small scratch) return an "
  "error, never a wrong answer, and no call leaks memory or depends on earlier calls.",
  ["inputs", "histories"], "every combination of degree, order, radius, GM and scratch arguments",
  "No built test passes these arguments.",
  SH, [("argument checks and scratch handling", SH[1])], ["return value", "acc/gradient", "live heap bytes"],
  "differential monitors between equivalent requests, sanitizers, heap accounting", TRUST)
p("C10", "Third-body point mass acceleration and Jacobian are right",
  "For every position, perturbing body position and GM, the acceleration is GM*((rb-r)/|rb-r|^3 - rb/|rb|^3) and the "
  "Jacobian its derivative with respect to the position, to near double precision and in consistent units. Both "
  "variants return the same acceleration, the Jacobian is symmetric and traceless.",
  ["inputs"], "positions from near-surface to deep space, bodies from the Moon to the outer planets, any GM",
  "No built test evaluates it.",
  ["include/gravity.hpp", "src/lib/gravity/point_mass_acceleration.cpp"],
  [("point_mass_acceleration", "src/lib/gravity/point_mass_acceleration.cpp")], ["returned vector", "jacobian"],
  "extended-precision oracle monitor, sanitizers", TRUST)
p("C11", "Compensated summation is accurate for every sequence of addends",
  "For any starting value and sequence of finite addends (any length, magnitude, order or sign, also when a later "
  "addend dwarfs the sum) the compensated sum differs from the exact sum by no more than the second-order error bound "
  "of compensated (Kahan-Babuska-Neumaier) summation. Reading the value does not disturb the sum and copies are "
  "independent accumulators.",
  ["inputs", "histories"], "every sequence of additions, reads, copies and assignments",
  "The test adds one fixed sequence; losing the compensation shows only for particular magnitudes and orders.",
  ["include/kahan.hpp"], [("KahanSum::operator+=, operator double", "include/kahan.hpp")], ["(double)sum"],
  "exact-sum oracle monitor (non-overlapping expansions), sanitizers", TRUST,
  [("_sum, _c", "running sum and compensation", "include/kahan.hpp")])
p("C12", "Grid look-ups locate the right cell and its corner nodes",
  "For a two dimensional regular grid stored along either axis, a point inside the grid maps to the index of the cell "
  "that contains it, converting that index back gives the coordinates of its lower-left node, and the four surrounding "
  "nodes are the corners of that cell, which bracket the point. A point outside the grid on any side (or NaN) is "
  "reported as outside and never given an index; large grids do not overflow.",
  ["inputs", "configurations"], "every grid origin, step, size and leading axis; every point",
  "The class is only compile-checked.",
  ["include/grid.hpp"], [("line, xyindex2node, surrounding_nodes", "include/grid.hpp")],
  ["line()", "xyindex2node()", "surrounding_nodes()"], "geometric oracle monitor, sanitizers",
  TRUST + "Points closer than 2% of a step to a cell border may fall in the cell to either side (but never outside the grid) unless the arithmetic is exact.")
p("C13", "Timers accumulate exactly the intervals they measured",
  "A timer counts one sample per start/stop pair and its total is the sum of the measured intervals, each within the "
  "enclosing wall-clock interval; totals and averages convert between units consistently, and comparing two timers "
  "orders them by average. Names of any length, copies, and timers without samples (average zero) are handled without overrun, trap "
  "or shared state.",
  ["histories", "inputs"], "every history of start/stop/copy, any name length, any accumulated duration",
  "The class is only compile-checked.",
  ["include/clock.hpp"], [("start, stop, average_running_time", "include/clock.hpp")],
  ["name()", "total", "average"], "history monitor with a bracketing clock and a virtual clock, sanitizers", TRUST,
  [("msamples, total_duration", "accumulated samples and time", "include/clock.hpp")])
p("C14", "Tide admittance models return the matrices they were given",
  "A tide admittance model returns the Doodson multipliers and admittance matrix it was built from, unchanged, with "
  "the wave counts they imply (number of waves = Doodson rows, number of major waves = admittance rows). Copies, moves "
  "and assignments carry all of it and are independent of the source and of the arrays used to build it.",
  ["inputs", "histories"], "every wave count, major wave count and content",
  "The class is only compile-checked.",
  ["include/groops_tide_model.hpp"], [("GroopsTideModel", "include/groops_tide_model.hpp")],
  ["doodson_matrix()", "admittance_matrix()", "num_waves()"], "round-trip monitor, sanitizers", TRUST)
p("C15", "Concurrent use of shared constant data is race-free and gives the same results",
  "Any number of threads may evaluate gravity, Legendre functions, matrix expressions and look-ups on shared constant "
  "objects, or work on objects (or matrix elements) of their own, at the same time: there is no data race, also when "
  "the very first call of the process is concurrent. Every thread gets exactly the results it would get alone.",
  ["schedules", "programs"], "every interleaving of threads using shared const objects and private mutable ones",
  "All tests are single threaded.",
  SH + STK + MAT + ["include/kahan.hpp", "include/grid.hpp"],
  [("function-local static factors, const member functions without hidden state", SH[1])],
  ["TSan reports", "per-thread result logs"], "ThreadSanitizer + offline comparison with sequential replay",
  TRUST + "Interleavings are those produced by start barriers, random yields and delays on 8 cores; the observed order of operations is recorded.")
p("C16", "No operation within its contract touches memory or arithmetic it must not",
  "In the shipped (release) configuration no call within its documented preconditions reads or writes outside the "
  "objects it was given, uses uninitialised or released memory, overflows signed integers, converts out of range "
  "values or leaks. Results do not depend on what memory contained before or on assertions and debug code being "
  "compiled in.",
  ["inputs", "histories", "configurations"], "every call of the numerical core, debug and release builds",
  "The tests run one uninstrumented build, where such faults usually stay silent.",
  MAT + STK + ALF + SH, [("bounds implied by degree/order/shape arguments", SH[1])],
  ["sanitizer and memcheck reports", "results under poisoned heap and stack"],
  "AddressSanitizer, UBSan, valgrind memcheck over all workloads in the release configuration",
  TRUST + "Uninitialised reads are decided by poisoning (heap, stack) and memcheck on a subset.")

# ---- geophysical models, built against the stand-ins in /verif/shim
SHIM = ("The ggdatetime, ggeodesy and CSPICE libraries the code includes are not installed; /verif/shim provides "
        "stand-ins for the few functions used, which are thereby trusted. ")
DOO = ["include/doodson.hpp", "src/lib/doodson/"]
p("D01", "Doodson numbers and tidal wave tables mean what they print",
  "A Doodson number written as text and read back has the same six multipliers, over the whole range the notation "
  "can hold, and text that is not a Doodson number is refused without reading past its end. The Doodson variables "
  "and arguments are the documented combinations of Delaunay arguments and sidereal time, in [0,2pi), and every named "
  "atmospheric or ocean wave is found by its name with the multipliers, speed and phase of that wave.",
  ["inputs"], "every multiplier combination, every string, every wave of the tables, any angles",
  "The tests read a few Doodson strings; the wave tables and malformed text are not tested.",
  DOO, [("from_chars, str, resolve_iers10_doodson_string, delaunay2doodson", DOO[0]),
        ("AtmosphericTidalHarmonics, OceanicTidalHarmonics, find_wave_entry, match_ocean_tide_wave", DOO[0])],
  ["parsed multipliers", "printed text", "table look-ups"], "round-trip and table monitor under ASan/UBSan",
  TRUST + SHIM + "Speeds are checked against the astronomical rates to 2e-5 deg/h.")
FUN = ["include/fundarg.hpp", "src/lib/fundarg/fundarg.cpp"]
p("D02", "Fundamental arguments and their rates follow the IERS expressions",
  "The fourteen lunisolar and planetary fundamental arguments equal, modulo 2pi, the IERS 2003/2010 polynomial "
  "expressions at every epoch, whether requested one by one, as an array, or through an epoch object. The rates of the "
  "lunisolar arguments are the time derivatives (per Julian century) of those same arguments.",
  ["inputs"], "any epoch within several centuries of J2000",
  "The tests need a library that is not installed and compare few epochs; rates are not tested.",
  FUN, [("fal03 .. fapa03, dfal03 .. dfaom03", FUN[0]), ("fundarg, fundarg_derivs", FUN[1])],
  ["returned angles and rates"], "reference monitor (extended precision polynomials, published values)", TRUST + SHIM)
IAU = ["include/iau.hpp", "src/lib/iau/"]
p("D03", "Earth rotation angle and sidereal times follow the IAU definitions",
  "The Earth rotation angle, the Greenwich mean sidereal times (IAU 1982 and 2006) and the TIO locator equal the IAU "
  "expressions at any pair of TT and UT1 epochs, and the published check values. The rate of sidereal time is its time "
  "derivative.",
  ["inputs"], "any epochs within a century of J2000",
  "The tests need a library that is not installed.",
  IAU, [("era00", IAU[1] + "era00.cpp"), ("gmst, gmst82, dgmst", IAU[1])], ["returned angles"],
  "reference monitor (extended precision expressions, published values)", TRUST + SHIM)
p("D04", "CIP coordinates and CIO locator are the IAU 2006/2000A series",
  "The X, Y coordinates of the celestial intermediate pole are, to a thousandth of a microarcsecond, the series of IERS 2010 "
  "Tables 5.2a and 5.2b from both series evaluations the library offers, reproduce the published check values, and report the fundamental arguments "
  "used; the arrays that the generator script/tables52ab.py prints hold exactly those terms. The CIO locator s equals the IAU 2006 series, reproduces the published value and satisfies its kinematic "
  "definition (ds = -(X dY - Y dX)/(1+Z)) against those X, Y.",
  ["inputs"], "any epoch within a century of J2000, any X, Y near the pole",
  "The tests need a library that is not installed; one wrong coefficient among 2900 rows shows only between tables.",
  IAU, [("xycip06a (two codings)", IAU[1] + "xycip06a_xy.cpp"), ("xcip06a, ycip06a", IAU[1] + "xcip06a.cpp"), ("s06", IAU[1] + "s06.cpp"),
         ("carrays", "script/tables52ab.py")],
  ["X, Y, s", "arrays printed"], "differential monitor between two series codings, kinematic and published-value oracles", TRUST + SHIM)
ROT = ["include/earth_rotation.hpp", "src/lib/earth_rotation/"]
p("D05", "Celestial-to-terrestrial rotations are the composition they document",
  "Every way of requesting the celestial-to-terrestrial rotation (quaternion, closed-form quaternion, split into two "
  "rotations, with rate matrix) gives the same orthonormal matrix, equal to polar motion times Earth rotation times "
  "the CIP motion composed from the given Earth orientation parameters, and to the published check matrix. The rate "
  "matrix is the time derivative due to Earth rotation, and the rotation rate follows the excess length of day.",
  ["inputs"], "any epoch and any Earth orientation parameters",
  "The tests need a library that is not installed and compare one implementation with files for two orbits.",
  ROT, [("c2i06a, c2i06a_bz, gcrs2itrs_quaternion", ROT[1]), ("C, C_qimpl, c2tirs, tirs2i, dRdt", ROT[0])],
  ["rotation matrices", "rates"], "differential monitor against independently composed matrices, finite differences",
  TRUST + SHIM)
EOP = ["include/eop.hpp", "src/lib/eop/"]
p("D06", "C04 files yield exactly the records of the range asked for",
  "Parsing an IERS C04/14 or C04/20 file gives, in order, exactly the records whose TT epoch lies in [start, end), each "
  "with the values in the file in their documented units, the TT epoch of its UTC date and the leap seconds of that "
  "date; what the series held before is dropped. The format is recognised from the header. A file that is missing, of "
  "another format, or has a damaged record in the range is refused, and no content makes the parser misbehave.",
  ["inputs", "files"], "every C04 file, every range",
  "The tests parse two sample files and need a library that is not installed.",
  EOP, [("parse_iers_C0414", EOP[1] + "parse_iers_c0414.cpp"), ("parse_iers_C0420", EOP[1] + "parse_iers_c0420.cpp"),
        ("choose_c04_series, parse_iers_C04", EOP[1] + "choose_eop_c04_series.cpp")],
  ["parsed records", "return status"], "file generator with known content, damaged-file fuzzing under ASan/UBSan", TRUST + SHIM)
p("D07", "EOP interpolation gives the documented polynomial, whatever came before",
  "A query inside a series returns the Lagrange interpolation of every parameter over the documented symmetric window "
  "(shrunk near the ends), with UT1 continuous across leap seconds, the queried epoch, and the status that describes the "
  "window; outside, the nearest record (if there is one) and an out-of-bounds status. The answer depends only on the records, epoch and "
  "degree: not on earlier queries, appends, refills or copies of the series.",
  ["inputs", "histories"], "any series of increasing epochs, any history of operations",
  "The tests query one series in increasing order; the cached search position survives longer histories.",
  EOP, [("EopSeries::interpolate", EOP[1] + "lagrange_interpolation.cpp"), ("EopSeries::approx_dut1", EOP[1] + "approx_dut1.cpp"),
        ("EopSeries", EOP[0])],
  ["interpolated records", "status"], "model-based history monitor with an extended precision oracle under ASan/UBSan",
  TRUST + SHIM + "Degrees 1 to 9, non-empty series (the documented domain).")
p("D08", "Tidal variations of Earth orientation are the published models",
  "The zonal-tide corrections equal the IERS 2010 Table 8.1 series, with LOD the negative rate of UT1 and the rotation "
  "rate following LOD; every line of the ocean-tide and libration models has the coefficients of the published models "
  "(ORTHO_EOP, Tables 5.1) in the documented units. Regularising a series removes exactly the zonal corrections from "
  "UT1 and LOD and nothing else, de-regularising restores it, and the secular pole is the 2018 linear model.",
  ["inputs"], "any angles; any series",
  "The tests compare few epochs and need a library that is not installed; one wrong line of 150 is below their margins.",
  EOP, [("deop_zonal_tide", EOP[1] + "zonal_tides.cpp"), ("deop_ocean_tide", EOP[1] + "ocean_tide_variation.cpp"),
        ("deop_libration", EOP[1] + "libration.cpp"), ("EopSeries::regularize_impl", EOP[1] + "regularize.cpp"), ("secular_pole", EOP[0])],
  ["corrections"], "system identification of every tidal line against published coefficients, reference monitor", TRUST + SHIM)
FCN = ["include/fcn.hpp", "src/lib/free_core_nutation/"]
p("D09", "Free core nutation follows the Lambert model and its coefficient tables",
  "The FCN offsets of the pole are the Lambert model: the coefficients interpolated linearly between the table entries "
  "around the epoch, the nearest entry held outside with an uncertainty growing by 0.3 microarcseconds a day, in every "
  "table and at every epoch; the built-in table is Table 5.2c. Parsing a coefficient file keeps exactly the entries in "
  "[from, to) with the values of the file and refuses damaged ones.",
  ["inputs", "files"], "every table, epoch and coefficient file", "The tests compare one series with one file.",
  FCN, [("lambert_fcn", FCN[1] + "lambert.cpp"), ("parse_lambert_coefficients", FCN[1] + "parse_lambert_coeffs.cpp"),
        ("load_iers10_table52c", FCN[1] + "load_iers10_table52c.cpp")],
  ["offsets, uncertainties", "parsed coefficients"], "extended precision reference monitor, generated and damaged files under ASan/UBSan",
  TRUST + SHIM + "Tables are non-empty (the documented domain).")
p("D10", "The relativistic acceleration is the IERS 2010 expression",
  "The relativistic correction equals the sum of the Schwarzschild, Lense-Thirring and de Sitter terms of IERS 2010 eq. "
  "10.12 for any satellite and Sun state, any gravitational constants, angular momentum, speed of light and PPN "
  "parameters, in m/s^2; the defaults are the IERS constants.",
  ["inputs"], "any satellite and Sun state", "The test compares one orbit, where the small terms hide in its margin.",
  ["include/relativity.hpp"], [("iers2010_relativistic_acceleration", "src/lib/relativity/iers12010_relativistic_correction.cpp")],
  ["acceleration"], "extended precision reference monitor", TRUST + SHIM)
p("D11", "Planet positions are geocentric, in SI units, and kernels load once",
  "The position and state of a body are those of the ephemeris relative to the Earth in the J2000 frame without "
  "aberration at the ephemeris time of the TT epoch, in m and m/s, under the body's NAIF code; unknown bodies are refused. "
  "A kernel is loaded if and only if a kernel of that very name is not loaded yet, and gravitational parameters come in "
  "the units asked for.",
  ["inputs", "histories"], "every body, any epoch, any history of kernel names", "The tests need CSPICE and kernels that are not there.",
  ["include/planets.hpp", "src/lib/planets/"], [("planet_pos, planet_state", "src/lib/planets/planet_state.cpp"), ("load_if_unloaded", "src/lib/planets/kernel.cpp"), ("planet_to_naif_id", "src/lib/planets/planet_to_naif_id.cpp"), ("sun_moon_gm", "src/lib/planets/kernel_consts.cpp")],
  ["ephemeris calls", "returned states", "kernel loads"], "recording ephemeris stand-in (call log checked against a model)", TRUST + SHIM)
p("D12", "Pole tide and ocean pole tide follow the conventions at any degree",
  "The solid Earth and ocean pole tide corrections to C21 and S21, the ocean pole tide expansion of any requested degree and "
  "order, and both displacements equal the IERS 2010 expressions for any epoch, pole, site and constants, against the linear "
  "secular pole. An expansion depends only on its own request: coefficients above it are zero whatever was evaluated before; "
  "requests beyond the loaded model, or without one, are refused. A model file yields exactly its coefficients up to the "
  "requested degree and order, and a damaged one is refused or ignored without a memory error.",
  ["inputs", "histories"], "any epoch, pole, site, model of any degree, history of evaluations, any file bytes",
  "The tests need a model file that is not in the repository and sample a few of its entries.",
  ["include/pole_tide.hpp", "src/lib/pole_tide/"], [("OceanPoleTide::stokes_coeffs", "src/lib/pole_tide/ocean_pole_tide_geopotential.cpp"), ("PoleTide::deformation", "src/lib/pole_tide/pole_tide_deformation.cpp"), ("OceanPoleTide::deformation", "src/lib/pole_tide/ocean_pole_tide_deformation.cpp"), ("parse_desai02_coeffs", "src/lib/pole_tide/parse_desai02_coeffs.cpp")],
  ["coefficients", "displacements", "parsed files"], "extended precision reference monitor, AddressSanitizer and UBSan", TRUST + SHIM)
p("D13", "Ocean pole load coefficients are interpolated at the site asked for",
  "For any list of sites inside the grid, in any longitude convention and order, the ocean pole load coefficients are the "
  "bilinear interpolation of the four surrounding nodes of the file, one set per site in the order given. A site outside the "
  "nodes, and a file that is damaged, ends early or contradicts its header, is an error and never a memory error.",
  ["inputs"], "any grid, list of sites and file bytes", "No test covers it.",
  ["src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp", "include/grid.hpp"], [("get_desai_ocp_deformation_coeffs", "src/lib/pole_tide/get_desai_ocp_deformation_coeffs.cpp")],
  ["interpolated coefficients", "refused files"], "reference monitor over synthetic grids, AddressSanitizer and UBSan", TRUST + SHIM)
p("D14", "ICGEM models yield their coefficients at the epoch asked for",
  "For every ICGEM 1.0 and 2.0 file, error model, number notation, epoch and degree/order within the file, the Stokes "
  "coefficients are the sum of the static terms and of the trends and periodic terms (in Julian years from their reference "
  "epoch, and for 2.0 only where t0 <= t < t1), zero where nothing is listed, with the file's GM, radius and normalization. "
  "Keywords are whole words; requests beyond the file, malformed lines, dates and constants are refused, and no file bytes "
  "cause a memory error or an abort.",
  ["inputs", "histories"], "any model file, epoch, degree and order, any file bytes", "The tests need model files that are not in the repository.",
  ["include/icgemio.hpp", "src/lib/icgem/"], [("Icgem::parse_header", "src/lib/icgem/icgemio_read_header.cpp"), ("Icgem::parse_data_v1", "src/lib/icgem/icgemio_read_data_v1.cpp"), ("Icgem::parse_data_v2", "src/lib/icgem/icgemio_read_data_v2.cpp"), ("resolve_icgem_data_line_v2", "src/lib/icgem/resolve_igcem_data_line_v2.cpp")],
  ["parsed headers", "coefficients", "refused files"], "reference monitor over synthetic files, AddressSanitizer and UBSan", TRUST + SHIM)
p("D15", "AOD1B files yield their header, blocks and tidal waves, and nothing else",
  "For every AOD1B product: names compose and resolve per the convention (release, satellite, compression); every header value, "
  "and the epochs shifted from GPS time to TT, is what the file says, also in copies; iterating visits exactly the blocks of the "
  "type asked for in file order, each skipped or collected with its own coefficients (zero where not listed, whole, in part or "
  "resized), then reports the end; tidal files yield their wave and its cosine and sine parts. Malformed headers, lines and "
  "blocks are refused, and no file bytes cause a memory error or an abort.",
  ["inputs", "histories"], "any non-tidal or tidal product, any sequence of skips and collections, any file bytes", "The tests need product files that are not in the repository.",
  ["include/aod1b.hpp", "src/lib/aod1b/"], [("Aod1bIn::read_header", "src/lib/aod1b/aod1b_read_header.cpp"), ("Aod1bIn::collect_coeffs", "src/lib/aod1b/aod1b_collect_coeffs.cpp"), ("Aod1bIn::goto_next_block", "src/lib/aod1b/aod1b_goto_next_block.cpp"), ("Aod1bIn::get_tidal_wave_coeffs", "src/lib/aod1b/aod1b_get_tidal_wave.cpp"), ("Aod1bNonTidalProductNaming", "src/lib/aod1b/aod1bnontidalproductnaming.cpp")],
  ["parsed headers", "visited blocks", "coefficients", "refused files"], "reference monitor over synthetic files, AddressSanitizer and UBSan", TRUST + SHIM)
p("D16", "AOD1B streams interpolate between the blocks around the epoch, in any order",
  "For every history of epochs (forward, backward, repeated, at block epochs, across days), Aod1bDataStream::coefficients_at "
  "returns the linear interpolation of the two blocks of its type that enclose the epoch; it continues with the next day's file "
  "of the directory, if there is one, exactly once per file; it refuses epochs and degrees its data does not cover; and moving "
  "the stream between objects changes nothing.",
  ["inputs", "histories"], "any sequence of epochs, number of days, block spacing and moves", "The one test needs product files that are not in the repository.",
  ["include/aod1b_data_stream.hpp"], [("Aod1bDataStream::hunt_range", "include/aod1b_data_stream.hpp"), ("Aod1bDataStream::coefficients_at", "include/aod1b_data_stream.hpp"), ("Aod1bDataStream::feed_next_file", "include/aod1b_data_stream.hpp")],
  ["coefficients", "return codes", "the file in use"], "reference monitor over query histories, AddressSanitizer and UBSan", TRUST + SHIM)
p("D17", "Tide models sum all their waves, of any degree, at the epoch's arguments",
  "For every set of distinct waves of any, also different, degree and order: an atlas holds each wave once and finds it by its "
  "Doodson number; ocean and atmospheric tides return, for every epoch and Delaunay arguments, the sum over all waves of in-phase "
  "times cosine plus quadrature times sine of the Doodson argument (plus the phase of the wave for the atmosphere), or of the "
  "admittance-weighted sums; appending a wave never shrinks the model; copies, moves and self-assignment carry the whole model; "
  "mismatched admittance is refused.",
  ["inputs", "histories"], "any atlas, admittance, epoch and sequence of copies and moves", "The tests need model files that are not in the repository.",
  ["include/ocean_tide.hpp", "include/atmospheric_tides.hpp", "include/tide_atlas.hpp", "src/lib/ocean_tide/", "src/lib/atmospheric_tides/"], [("OceanTide::stokes_coeffs", "src/lib/ocean_tide/ocean_tide_potential.cpp"), ("AtmosphericTide::stokes_coeffs", "src/lib/atmospheric_tides/atm_tides_geopotential.cpp"), ("AtmosphericTide::append_wave", "src/lib/atmospheric_tides/atm_tides_append_wave.cpp"), ("TideAtlas", "src/lib/tide_atlas.cpp")],
  ["coefficients", "sizes", "return codes"], "reference monitor over random models and histories, AddressSanitizer and UBSan", TRUST + SHIM)
p("D18", "GROOPS tide model files yield their waves, Doodson and admittance matrices",
  "For every well formed GROOPS file list, directory, degree and order: the atlas has the waves of the list in order, with the "
  "Doodson number and name of the filenames and the coefficients of their cosine and sine files, and the model's Doodson and "
  "admittance matrices are those of the files. Lists with unpaired, repeated or malformed names, and matrices of the wrong "
  "number of rows, are refused; no file bytes, name or directory length cause a memory error or an abort.",
  ["inputs"], "any model files, names, directories, degree and order, any file bytes", "The tests need model files that are not in the repository.",
  ["src/lib/tide_atlas_groops.cpp", "include/groops_tide_model.hpp"], [("groops_atlas", "src/lib/tide_atlas_groops.cpp"), ("parse_admittance", "src/lib/tide_atlas_groops.cpp"), ("validate_file_list", "src/lib/tide_atlas_groops.cpp")],
  ["atlases", "matrices", "refused files"], "reference monitor over synthetic files, AddressSanitizer and UBSan", TRUST + SHIM)
p("D19", "Solid Earth tide coefficients follow the two steps of the conventions",
  "For every epoch, Earth-fixed Sun and Moon positions, Delaunay arguments and constants: SolidEarthTide::stokes_coeffs gives "
  "the normalised corrections of IERS 2010 equations 6.6 and 6.7 with the anelastic Love numbers, of both bodies, plus the sums "
  "of equation 6.8 over the 71 waves of tables 6.5a-c at the Doodson arguments of GMST; all other coefficients of the 4x4 set are "
  "zero, the set carries the constants given, and a result does not depend on earlier calls or other instances.",
  ["inputs", "histories"], "any constants, epoch, geometry, arguments and sequence of calls", "The repository's tests of it cannot be built here and sample a few dozen epochs.",
  ["src/lib/solid_earth_tides/", "include/solid_earth_tide.hpp"], [("SolidEarthTide::stokes_coeffs", "src/lib/solid_earth_tides/iers2010_stokes_coeffs.cpp"), ("SolidEarthTide::potential_step1", "src/lib/solid_earth_tides/iers2010_geopotential_step1.cpp"), ("SolidEarthTide::potential_step2", "src/lib/solid_earth_tides/iers2010_geopotential_step2.cpp")],
  ["coefficients"], "reference monitor in extended precision over random geometry and call histories, AddressSanitizer and UBSan", TRUST + SHIM)
p("D20", "Solid Earth tide displacement follows the two steps of the conventions",
  "For every site (poles, equator, body at the zenith), epoch, Earth-fixed Sun and Moon positions, Delaunay arguments and "
  "constants: SolidEarthTide::displacement is the Earth-fixed Cartesian vector of IERS 2010 equations 7.5, 7.6 and 7.8-7.11 for "
  "both bodies plus equations 7.12 and 7.13 over the 31 diurnal and 5 long period waves, and does not depend on earlier calls or "
  "other instances.",
  ["inputs", "histories"], "any constants, site, epoch, geometry, arguments and sequence of calls", "The repository's tests of it cannot be built here and sample a few sites.",
  ["src/lib/solid_earth_tides/", "include/solid_earth_tide.hpp"], [("SolidEarthTide::displacement", "src/lib/solid_earth_tides/iers2010_site_displacement.cpp"), ("SolidEarthTide::step1_displacement", "src/lib/solid_earth_tides/iers2010_displacement_step1.cpp"), ("SolidEarthTide::step2_displacement", "src/lib/solid_earth_tides/iers2010_displacement_step2.cpp")],
  ["displacement vectors"], "reference monitor in extended precision over random geometry and call histories, AddressSanitizer and UBSan", TRUST + SHIM)
p("D21", "Merging AOD1B files keeps every block, in time, readable by the library",
  "For every list of AOD1B files of the same model with disjoint spans, in any order, number and directory: mergeAod1b.py "
  "writes one file, in the output directory, named after the earliest one, that the library reads as the blocks of all of them in "
  "time, under a header with the span and the summed record and data set counts; inputs are never modified, nothing else is left "
  "behind, and files whose headers disagree or have no end are refused.",
  ["inputs", "histories"], "any number, order, span and location of the files", "There is no test of the tools.",
  ["bin/mergeAod1b.py"], [("mergeAod1b.py", "bin/mergeAod1b.py"), ("Aod1b.merge", "bin/mergeAod1b.py")],
  ["the merged file, read with Aod1bIn", "directory contents", "exit status"], "reference monitor over runs of the real tool, whose outputs the sanitized library reads back", TRUST + SHIM)
p("D22", "An interrupted AOD1B download never passes for the product",
  "For every range of days, release, output directory and files already there, and wherever transfers or archives fail or the process is "
  "killed: getAod1b.py asks the server once for each missing day of the half-open range, at the documented path; a file under a "
  "product name is always complete; a later run completes the range; present files are neither fetched again nor changed; "
  "decompressed files equal the payload; success is reported only with all files in place.",
  ["inputs", "crash_points", "histories"], "any range, release, earlier contents and point of failure", "There is no test of the tools, and a test would need the network.",
  ["bin/getAod1b.py"], [("ftpget", "bin/getAod1b.py"), ("product_name", "bin/getAod1b.py")],
  ["requests", "directory contents after each run", "exit status"], "fault injection in a stand-in of the FTP client and an oracle on the directory after every run", TRUST + " A stand-in of the FTP client serves a directory.")
p("D23", "All models can be used from several threads at once",
  "For every model beyond the gravity core (Earth orientation series, FCN, angles and rotations, tides, pole tides, ICGEM and AOD1B "
  "readers and streams, names): threads that call free functions, query shared const objects, or work on copies or objects of their own, "
  "never race on hidden state, also when the first call of the process is concurrent. Every thread gets the results it would get alone.",
  ["schedules", "programs"], "any number of threads, any mix of services, any interleaving", "All tests are single threaded.",
  ["include/eop.hpp", "src/lib/eop/lagrange_interpolation.cpp", "src/lib/eop/approx_dut1.cpp", "src/lib/tide_atlas_groops.cpp", "src/lib/aod1b/aod1b.cpp"],
  [("interpolate", "src/lib/eop/lagrange_interpolation.cpp"), ("get_wave", "src/lib/doodson/tidal_wave_tables.cpp")],
  ["TSan reports", "per-thread result logs"], "ThreadSanitizer + offline comparison with the same program run alone",
  TRUST + " Interleavings are those produced by start barriers, random yields and delays on 8 cores; the observed order of operations is recorded.")
p("D24", "Every model releases what it takes: no memory or file outlives its use",
  "Whatever is constructed, copied, assigned, moved, reloaded, read or refused, in any order and also when a file is missing, cut or "
  "damaged or the operation ends in an exception: once the objects involved are gone no memory they took is still allocated and no file they opened is still "
  "open, so any number of repetitions needs no more than one.",
  ["histories", "inputs"], "any history of model objects, any file, complete or not", "The tests end after one use, where nothing shows what was kept.",
  ["include/ocean_tide.hpp", "src/lib/tide_atlas_groops.cpp", "src/lib/aod1b/aod1b.cpp", "include/aod1b_data_stream.hpp", "include/atmospheric_tides.hpp"],
  [("admittance model owned by OceanTide", "include/ocean_tide.hpp")],
  ["bytes alive", "descriptors open"], "counting allocator and descriptor census between repetitions, under AddressSanitizer",
  TRUST)
p("E01", "The COST-G benchmark programs print the acceleration of the model they are for",
  "Given an orbit, reference accelerations, Earth rotation and model files of the same GPS epochs, each benchmark program (direct tide of Moon and Sun, solid "
  "Earth tide, pole tide, ocean pole tide, relativity, AOD1B dealiasing, atmospheric tides, the last three gravity models to degree 180 without degrees 0 and 1) ends with status 0 and "
  "prints in order one line per orbit epoch: day, second, the reference of that epoch unchanged, and the acceleration the published formulae of that model give at that position and "
  "instant, in the celestial frame. Text and blank lines in the files are no data. A file that is not there or ends before the orbit, a missing argument, or a reference of another "
  "epoch ends the program with a failure, with no line printed for that epoch or a later one.",
  ["inputs"], "any orbit, rotation, EOP series and model coefficients in the documented formats", "The programs are not even built by the tests; their output was compared with one published day.",
  ["costg-benchmark/bin/costg_utils.cpp", "costg-benchmark/bin/check_04solidEarthTide_icrf.cpp", "costg-benchmark/bin/check_08aod1b_RL06_icrf.cpp",
   "include/solid_earth_tide.hpp"],
  [("programs", "costg-benchmark/bin/check_03directTideMoon_icrf.cpp")],
  ["lines printed", "exit status"], "every printed line against an independent evaluation of the files, in long double; the unmodified programs run under AddressSanitizer and UBSan with a stand-in for the ephemeris",
  TRUST)
p("E02", "Converting C headers for C++ keeps what they declare and their originals",
  "For a directory of C headers, wherever it is, c2cpp_header.py leaves under the name of every .h file in it one that declares the same to C, and the same "
  "with C linkage to C++, so that C++ programs using the headers together link with the C library; beside each is its original, unchanged, as .cvers. Running it "
  "again changes neither what the headers declare nor the originals. No other file there, in subdirectories, or where the script was started, is changed or left behind, and stopped at any "
  "point it has not lost the text of any header.",
  ["inputs", "crash_points", "histories"], "any directory of headers (formatting, line ends, mutual inclusion, names with blanks), run any number of times or stopped at any file operation",
  "The tests do not run the scripts; the SPICE library, which planet positions need, is installed with them.",
  ["script/cppspice/c2cpp_header.py"], [("c2cpp_header.py", "script/cppspice/c2cpp_header.py")],
  ["directory contents", "preprocessed headers", "a C++ program linked with C objects"],
  "oracle on the directory and on compiled programs after every run; runs killed at each file operation by an audit hook", TRUST)
p("E03", "Installing the C++ SPICE library installs it, also over an earlier one",
  "From any SPICE source tree, install.sh builds every product once, in its directory and with the C++ compiler, and leaves every header of the tree "
  "under the include directory cppspice of /usr/local and every library as lib<name>.a under its lib directory, also when an earlier installation, of this or of another tree (that may be gone), is there. "
  "Nothing else under /usr/local is changed and the tree keeps its headers. Without root privileges, a directory of the tree or a product, or when a product does not build, "
  "it fails and installs nothing.",
  ["inputs", "histories", "fault_sequences"], "any location (names with blanks) and set of headers of the tree, any number of installations, any missing or failing part",
  "The tests do not run the scripts; a developer upgrades the SPICE library by installing again.",
  ["script/cppspice/install.sh"], [("install.sh", "script/cppspice/install.sh")],
  ["installed files", "records of the build scripts", "exit status"],
  "oracle on the whole installation prefix after every run of the script (with a prefix of its own, as an unprivileged user that is root of a user namespace) on generated trees with stand-ins for the build scripts", TRUST)
