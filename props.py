"""What is built and run for each property."""
_SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
        "-ftrivial-auto-var-init=pattern", "-g"]
_AENV = {"ASAN_OPTIONS": "detect_leaks=0:max_malloc_fill_size=1000000000:malloc_fill_byte=255:"
                         "detect_stack_use_after_return=1:hard_rss_limit_mb=6000:allocator_may_return_null=0",
         "UBSAN_OPTIONS": "print_stacktrace=1"}
_BASE = ["g++", "-std=c++17", "-w"]
VARIANTS = {
    # the way the tests build it (assertions and DEBUG messages on)
    "debug": {"cc": _BASE + ["-O1", "-DDEBUG"] + _SAN, "env": _AENV},
    # the way it is shipped
    "release": {"cc": _BASE + ["-O2", "-DNDEBUG"] + _SAN, "env": _AENV},
    "tsan": {"cc": _BASE + ["-O1", "-g", "-DDEBUG", "-fsanitize=thread"],
             "env": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1"}},
    "valgrind": {"cc": _BASE + ["-O1", "-g", "-DDEBUG"],
                 "wrap": ["valgrind", "-q", "--error-exitcode=77", "--exit-on-first-error=yes", "--leak-check=no",
                          "--trace-children=no", "--child-silent-after-fork=yes"]},
}
GRAV = ["src/lib/stokes_coefficients.cpp", "src/lib/gravity/*.cpp"]
# everything else is built against stand-ins of the date, geodesy and SPICE libraries that are not installed here
SHIM = {"shim": ["shim"], "lib": ["src/lib/*.cpp", "src/lib/*/*.cpp"]}
# the benchmark programs, as they are, with a sky of the monitor's own in the place of the ephemeris
COSTG = {"03moon": "03directTideMoon_icrf", "03sun": "03directTideSun_icrf", "04": "04solidEarthTide_icrf", "05": "05poleTide_icrf",
         "06": "06oceanPoleTide_icrf", "07": "07relativistic_icrf", "08": "08aod1b_RL06_icrf",
         "09s1": "09aod1b_atmosphericTides_S1_icrf", "09": "09aod1b_atmosphericTides_icrf"}
HARNESSES = {
    "matrix": {"main": "matrix.cpp"},
    "stokes": {"main": "stokes.cpp", "repo": ["src/lib/stokes_coefficients.cpp"]},
    "gravity": {"main": "gravity.cpp", "repo": GRAV},
    "misc": {"main": "misc.cpp"},
    "scripts": {"main": "scripts.cpp"},
    "misc_sparse": {"main": "misc.cpp", "flags": ["-DSPARSE_ADMITTANCE_MATRIX"]},
    "concurrent": {"main": "concurrent.cpp", "repo": GRAV},
    "angles": {"main": "angles.cpp", **SHIM},
    "eop": {"main": "eop.cpp", **SHIM},
    "models": {"main": "models.cpp", **SHIM},
    "poletide": {"main": "poletide.cpp", **SHIM},
    "icgem": {"main": "icgem.cpp", **SHIM},
    "aod1b": {"main": "aod1b.cpp", **SHIM},
    "tides": {"main": "tides.cpp", **SHIM},
    # the same code built with the documented option for a sparse admittance matrix
    "tides_sparse": {"main": "tides.cpp", "flags": ["-DSPARSE_ADMITTANCE_MATRIX"], "shim": ["shim"],
                     "lib": ["src/lib/*.cpp", "src/lib/ocean_tide/*.cpp", "src/lib/atmospheric_tides/*.cpp",
                             "src/lib/doodson/*.cpp", "src/lib/icgem/*.cpp", "src/lib/iau/*.cpp", "src/lib/aod1b/*.cpp",
                             "src/lib/fundarg/*.cpp"]},
    "solidtide": {"main": "solidtide.cpp", **SHIM},
    "whole": {"main": "whole.cpp", **SHIM},
    "costg": {"main": "costg.cpp", "needs": ["costg_" + k for k in COSTG], **SHIM},
}
HARNESSES.update({"costg_" + k: {"main": "spice_standin.cpp", "repo": ["costg-benchmark/bin/check_%s.cpp" % f, "costg-benchmark/bin/costg_utils.cpp"], "shim": ["shim"],
                                "lib": SHIM["lib"] + ["costg-benchmark/bin/[!c]*.cpp", "costg-benchmark/bin/c[!h]*.cpp"]}
                  for k, f in COSTG.items()})
PROPS = {
    "C01": {"runs": [("matrix", "debug", ["index_small", "index_large", "container"])],
            "rule": "a case is one (storage layout, shape) whose whole index map was compared with the documented "
                    "layout, or one element access; non-trivial when the shape has more than one element"},
    "C02": {"runs": [("matrix", "debug", ["history", "leak", "selfmove"])],
            "rule": "a case is one step of a random history of copies, moves, swaps, resizes and assignments compared "
                    "with a value model; distinct by (operation, shapes, history)"},
    "C03": {"runs": [("matrix", "debug", ["expr", "views", "mismatch"])],
            "rule": "a case is one random matrix expression evaluated by the library and element by element by the "
                    "model; non-trivial when the operands have more than one element"},
    "C04": {"runs": [("stokes", "debug", ["history", "add_large", "leak"])],
            "rule": "a case is one step of a random history of a pool of expansions, compared with a (degree, order, "
                    "C, S) model; distinct by (operation, sizes, history)"},
    "C05": {"runs": [("stokes", "debug", ["anm"])],
            "rule": "a case is one expansion packed/unpacked and compared element by element; distinct by size and "
                    "content"},
    "C06": {"runs": [("gravity", "debug", ["alf", "alf_high", "alf_prefix"])],
            "rule": "a case is one (latitude, degree, order, matrix size) whose every value was compared with extended "
                    "precision Legendre functions; non-trivial for degree > 0"},
    "C07": {"runs": [("gravity", "debug", ["acc"])],
            "rule": "a case is one (field, position, truncation) whose acceleration was compared with an independently "
                    "differentiated potential; non-trivial when the field is not zero"},
    "C08": {"runs": [("gravity", "debug", ["grad", "grad_fd"])],
            "rule": "a case is one (field, position, truncation) whose gradient was compared with an independently "
                    "differentiated potential or with finite differences of the acceleration"},
    "C09": {"runs": [("gravity", "debug", ["params", "requests", "sh_leak"])],
            "rule": "a case is one request (degree, order, Re, GM, scratch space) compared with the equivalent explicit "
                    "request or with the contract for bad requests"},
    "C10": {"runs": [("gravity", "debug", ["pointmass"])],
            "rule": "a case is one (position, body, GM) compared with an extended precision evaluation"},
    "C11": {"runs": [("misc", "debug", ["kahan"])],
            "rule": "a case is one sequence of addends whose sum was compared with the exact one; non-trivial for more "
                    "than one addend"},
    "C12": {"runs": [("misc", "debug", ["grid"])],
            "rule": "a case is one (grid, point) looked up; non-trivial for grids of more than one node"},
    "C13": {"runs": [("misc", "debug", ["clock", "clock_empty"])],
            "rule": "a case is one history of a clock (name, intervals, copies, averages)"},
    "C14": {"runs": [("misc", "debug", ["groops"]), ("misc_sparse", "debug", ["groops"])],
            "rule": "a case is one model (wave count, major wave count, content) stored, copied, moved and read back"},
    "C15": {"runs": [("concurrent", "tsan", ["shared", "first_use", "disjoint"])],
            "rule": "a case is one multi-threaded execution; distinct by the observed order of operations, non-trivial "
                    "when threads really alternated"},
    "D01": {"runs": [("angles", "debug", ["doodson", "waves"])],
            "rule": "a case is one Doodson number, string, wave name or set of angles; distinct by content"},
    "D02": {"runs": [("angles", "debug", ["fundarg"])],
            "rule": "a case is one epoch at which all arguments and rates were compared with the expressions"},
    "D03": {"runs": [("angles", "debug", ["sidereal"])],
            "rule": "a case is one pair of epochs (TT, UT1) at which all angles were compared"},
    "D04": {"runs": [("angles", "debug", ["cip", "locator"]), ("scripts", "debug", ["generator"])],
            "rule": "a case is one epoch (and X, Y) evaluated by every coding, one interval of the kinematic test, or one row "
                    "printed by the table generator"},
    "D05": {"runs": [("angles", "debug", ["rotation_params", "rotation"])],
            "rule": "a case is one set of angles or (epoch, Earth orientation) rotated in every way offered"},
    "D06": {"runs": [("eop", "debug", ["files", "damaged", "real_files"])],
            "rule": "a case is one C04 file and time range parsed and compared record by record, or one damaged file; "
                    "non-trivial when records are expected or the file is damaged"},
    "D07": {"runs": [("eop", "debug", ["interp", "poly"])],
            "rule": "a case is one query after a random history of appends, refills, copies and queries, compared with an "
                    "extended precision interpolation; non-trivial for more than one record"},
    "D08": {"runs": [("eop", "debug", ["zonal", "ocean", "libration", "regularize"])],
            "rule": "a case is one set of angles (or one regularised series) evaluated and compared with the model"},
    "D09": {"runs": [("models", "debug", ["fcn", "fcn_files"])],
            "rule": "a case is one (table, epoch) evaluated or one coefficient file and range parsed; non-trivial for more "
                    "than one entry"},
    "D10": {"runs": [("models", "debug", ["relativity"])],
            "rule": "a case is one satellite and Sun state with PPN parameters"},
    "D11": {"runs": [("models", "debug", ["planets"])],
            "rule": "a case is one body and epoch, or one step of a history of kernel loads"},
    "D12": {"runs": [("poletide", "debug", ["solid", "model", "model_files"])],
            "rule": "a case is one (epoch, pole, site) evaluated, one evaluation in a history of an ocean pole tide instance, "
                    "or one model file parsed; non-trivial from degree 2"},
    "D13": {"runs": [("poletide", "debug", ["loading", "loading_files"])],
            "rule": "a case is one grid file with a list of sites, or one damaged grid file; non-trivial with sites"},
    "D14": {"runs": [("icgem", "debug", ["files", "damaged"])],
            "rule": "a case is one (model file, epoch, degree, order) parsed or one damaged file; non-trivial with more than "
                    "one entry"},
    "D15": {"runs": [("aod1b", "debug", ["iteration", "tidal", "names", "damaged"])],
            "rule": "a case is one iteration over the blocks of a type, one tidal file, product name or damaged file"},
    "D16": {"runs": [("aod1b", "debug", ["stream"])],
            "rule": "a case is one epoch asked of a stream with a history; non-trivial always"},
    "D17": {"runs": [("tides", "debug", ["synthesis", "appended"]), ("tides_sparse", "debug", ["synthesis"])],
            "rule": "a case is one (model, epoch, arguments) whose summed coefficients were compared with a sum over its "
                    "waves, or one wave appended; non-trivial with at least one wave"},
    "D18": {"runs": [("tides", "debug", ["groops", "damaged"]), ("tides_sparse", "debug", ["groops", "damaged"])],
            "rule": "a case is one tide model read from files and driven, or one damaged set of files"},
    "D19": {"runs": [("solidtide", "debug", ["stokes", "interleaved"])],
            "rule": "a case is one (constants, epoch, Moon, Sun, arguments) whose coefficients were compared with the closed "
                    "formulae, or one evaluation in a history of several instances; non-trivial once a value is repeated"},
    "D20": {"runs": [("solidtide", "debug", ["displacement", "interleaved"])],
            "rule": "a case is one (constants, epoch, site, Moon, Sun, arguments) whose displacement was compared with the "
                    "closed formulae, or one evaluation in a history of several instances"},
    "D21": {"runs": [("aod1b", "debug", ["merge"])],
            "rule": "a case is one run of the merge tool read back with the library, per coefficient type; non-trivial with "
                    "more than one file"},
    "D22": {"runs": [("aod1b", "debug", ["download"])],
            "rule": "a case is one run of the download tool against a stand-in server, interrupted or not; non-trivial over "
                    "several days or when interrupted"},
    "D23": {"runs": [("whole", "tsan", ["shared", "first_use"])],
            "rule": "a case is one multi-threaded execution over all the models; distinct by the observed order of "
                    "operations, non-trivial when threads really alternated"},
    "D24": {"runs": [("whole", "debug", ["resources"])],
            "rule": "a case is one service or failure repeated with fresh arguments, between two readings of the bytes "
                    "alive and the files open; distinct by service and round"},
    "E01": {"runs": [("costg", "debug", ["bodies", "relativity", "solid", "pole", "dealias", "airtide", "oceanpole"])],
            "rule": "a case is one line of a table printed by a benchmark program, recomputed from the files it was given, or one "
                    "run with a file missing; distinct by epoch and acceleration"},
    "E02": {"runs": [("scripts", "debug", ["headers"])],
            "rule": "a case is one header converted, compared as text and as declarations, and used from a C++ program"},
    "E03": {"runs": [("scripts", "debug", ["install"])],
            "rule": "a case is one header or library found installed with the contents of its tree, or one refusal that left "
                    "everything as it was; distinct by installation and name"},
    "C16": {"runs": [
        ("matrix", "release", ["index_small", "index_large", "container", "history", "leak", "selfmove", "expr", "views"]),
        ("stokes", "release", ["history", "add_large", "leak", "anm"]),
        ("gravity", "release", ["alf", "alf_high", "alf_prefix", "acc", "grad", "grad_fd", "params", "requests",
                                "sh_leak", "pointmass"]),
        ("misc", "release", ["kahan", "grid", "clock", "clock_empty", "groops"]),
        ("matrix", "valgrind", ["history", "expr", "views"], {"scale": 0.02, "seeds": 1}),
        ("stokes", "valgrind", ["history", "anm"], {"scale": 0.02, "seeds": 1}),
        ("gravity", "valgrind", ["params", "requests", "pointmass"], {"scale": 0.1, "seeds": 1}),
    ], "rule": "a case is one monitored call or history step executed in the release configuration under "
               "AddressSanitizer and UBSan (or valgrind memcheck) with poisoned heap and stack; distinct as in "
               "the property whose workload it is"},
}

# cheap checks run on more seeds in the quick tier
for _p, _n in dict(C01=9, C02=9, C03=12, C04=9, C05=15, C06=15, C07=8, C08=8, C09=20, C10=20, C11=20, C12=9, C13=9,
                   D02=9, D03=9, D04=9, D05=9, D07=9, D08=9, D10=9, D11=15, D19=6, D20=6).items():
    PROPS[_p]["quick_seeds"] = _n
