"""What each property's check runs, in which build, on how many cases.

engine  "vh": harness/ against the C++ library;  "py": pychk/ against the Python package
variant "plain": as users build it (plus assertions of ours); "asan": Address+UB+leak sanitizers;
        "tsan": thread sanitizer on an OpenMP runtime it can see into
need    counters that must be non-zero, or the run observed too little to count
"""
ONE, MIX = [1], [1, 2, 3]


def vh(quick, thorough, variant="plain", as_=None, threads=ONE, need=(), floor=200):
    d = {"engine": "vh", "variant": variant, "quick": quick, "thorough": thorough, "threads": threads,
         "need": list(need), "floor": floor}
    if as_:
        d["as"] = as_
    return d


def py(quick, thorough, as_=None, threads=ONE, need=(), floor=100, program=False):
    d = {"engine": "py", "quick": quick, "thorough": thorough, "threads": threads, "need": list(need), "floor": floor, "program": program}
    if as_:
        d["as"] = as_
    return d


HIST = ("ic_histories", "sc_histories", "icco_histories", "scco_histories", "not_enough_captures")
RUNS = {
    "C01": [vh(40000, 2000000, need=HIST)],
    "C02": [vh(30000, 1500000, need=HIST)],
    "C03": [vh(30000, 1500000, need=HIST + ("narrow_histories", "narrow_clouds"))],
    "C04": [vh(20000, 1000000, threads=MIX, need=("carry_over", "injection", "pumping", "standard", "phases_2", "phases_3",
                                                  "edge_skips", "not_enough_captures"))],
    "C05": [vh(24000, 1000000, need=("matrices_enumerated",))],
    "C06": [vh(30000, 800000, need=("saves", "hand_overs", "images_judged"))],
    "C07": [vh(12000, 600000, need=("mirrored", "split_releases", "images_judged", "step_phases"))],
    "C08": [vh(9000, 500000, threads=MIX, need=("pairs", "carried_columns", "independent_columns"))],
    "C09": [vh(12000, 600000, threads=MIX, need=("windows_vs_full", "offset_vs_padding", "offset_vs_prescan", "windows"))],
    "C10": [vh(3000, 120000, threads=MIX, need=("convergence_checks", "iteration_checks"))],
    "C11": [vh(8000, 400000, threads=MIX, need=("serial_vs_parallel", "both_vs_sequence"))],
    "C12": [vh(5000, 250000, threads=MIX, need=("related_calls", "calls_alone_in_a_process"))],
    "C13": [vh(9000, 400000, variant="tsan", threads=[4]), vh(5000, 300000, threads=[4])],
    "C14": [vh(4000, 200000, variant="asan", threads=[1, 2], need=("extreme_images",))],
    "C15": [vh(30000, 1000000, need=("prunes", "regions_merged", "prunes_leaving_all", "prunes_by_release") + HIST[:4]),
            vh(14000, 400000, as_="C15I", threads=MIX, need=("images_changed_by_pruning",))],
    "C16": [vh(8000, 400000, threads=MIX, need=("images_that_would_go_negative", "never_negative")),
            py(3000, 100000, need=("would_be_negative",))],
    "C17": [vh(100000, 4000000, need=("interior",))],
    "C18": [vh(30000, 1200000, need=("exposures", "inverted", "narrow", "slow_captures", "table_values", "table_inverted"))],
    "C19": [py(8000, 300000, threads=MIX, need=("add", "remove", "repeated", "conversions", "headers"))],
    "C20": [py(8000, 300000, need=("biases", "removals", "with_cti", "repeated_terms", "iterations"))],
    "C21": [vh(40000, 1500000, threads=MIX, need=("pixels",)), py(4000, 150000, need=("steps", "corrections"))],
    "C22": [vh(60000, 2000000, need=("files", "round_trips", "elapsed", "clamped", "ranges", "transposed"))],
    "C23": [vh(20000, 600000, need=("outcome_e", "outcome_r", "outcome_x")), py(3000, 80000, need=("valid", "invalid"))],
    "C24": [vh(7000, 350000, threads=MIX, need=("charge_scalings", "time_scalings", "out_of_reach"))],
    "C25": [vh(3500, 180000, threads=MIX, need=("narrow_limits", "null_lists", "reorder", "split", "surface_limits", "zero-density")),
            py(600, 20000, need=("compared",))],
    "C26": [vh(12000, 500000, threads=MIX, need=("ledgers", "tails", "totals_bounded"))],
    "C27": [vh(10000, 400000, threads=MIX, need=("calls_verbosity_0", "bytes_verbosity_1", "bytes_verbosity_2", "no_instant_capture", "many_iterations")),
            py(3000, 100000, need=("calls_verbosity_0", "bytes_verbosity_2", "other_functions", "many_iterations"))],
    "C28": [py(6000, 200000, need=("models", "pairs", "images", "published"))],
    "C29": [py(20000, 500000, need=("draws", "distributions", "unseeded", "ellipticities"))],
    "C30": [py(2000, 40000, program=True, need=("runs", "ends_help", "ends_error", "demos", "blocked", "benchmarks_image", "benchmarks_none",
                                               "benchmarks_fetched", "idle", "silent"))],
}

TRAPS = "a case is a random history of clouds met by one trap manager (2 to ~60 clouds, 1-4 species, four kinds); non-trivial when charge was captured and released; distinct by history and model"
IMAGE = "a case is a random model (readout type, phases, wells, traps, offsets, windows, express) and image; non-trivial when the call changed the image; distinct by model and image"
RULES = {
    "C01": TRAPS, "C02": TRAPS, "C03": TRAPS,
    "C04": IMAGE,
    "C05": "a case is 50 express matrices (exhaustive over small sizes and settings first, then random); each is judged row by row; distinct by settings",
    "C06": "a case is 25 readout settings judged from their save matrix and, every other case, a whole image judged from the states its passes start in; distinct by settings",
    "C07": "a case is a set of clocking sequences judged step by step and phase by phase and, every other case, an image whose recorded interactions are compared with the simulated movement of charge; distinct by settings",
    "C08": IMAGE, "C09": IMAGE, "C10": IMAGE, "C11": IMAGE, "C12": IMAGE + "; each repeats and interleaves calls with fresh and reused objects",
    "C13": IMAGE + "; each is computed with several numbers of threads, and concurrently by several callers; under TSan every memory access of the parallel sections is watched",
    "C14": "a case is one workload of another property, or an extreme image, run under Address, UB and leak sanitizers; distinct by the case within its workload",
    "C15": TRAPS + ", with pruning after random clouds; and " + IMAGE,
    "C16": IMAGE, "C17": "a case is 155 cloud sizes in a random well, checked against the formula and in order; distinct by well",
    "C18": "a case is one random trap species evaluated over times, fractions and depths; distinct by species",
    "C19": "a case is one Python call and the C++ library on the same model; non-trivial when it changed the image; distinct by call",
    "C20": "a case is a random image and bounce model; non-trivial when the bias is not zero; distinct by both",
    "C21": "a case is a set of image pairs for the compiled routine, or one separation by the Python class watched step by step; distinct by images and settings",
    "C22": "a case is one file (valid or damaged) loaded in a child process, and one use of each array utility; distinct by content",
    "C23": "a case is a configuration, valid or broken in one way, run in a child process; distinct by configuration",
    "C24": IMAGE, "C25": IMAGE, "C26": IMAGE,
    "C27": IMAGE + "; each is run at several levels of verbosity with file descriptor 1 captured",
    "C28": "a case is a set of dates (dense around the epochs) for which models are requested in random order; distinct by dates",
    "C29": "a case is a random species, area and seed for which draws are made, and every 25th case 400 draws judged together; distinct by species, area and seed",
    "C30": "a case is a random command line run by the program, built with Address and UB sanitizers, in a scratch directory with a stand-in for wget; distinct by command line and what lies in the directory",
}
ASSUME = {
    "all": ["a monitor judges the executions it sees: inputs outside the generators' ranges (see DESIGN.md) are not covered",
            "the library is compiled by g++ 13 with the harness's own flags, not by /repo/Makefile"],
    "C13": ["in the TSan build OpenMP directives run on harness/gomp.cpp (pthreads), not on libgomp"],
    "C03": ["for continuous traps the library's tabulated functions are taken as given in the differential part; C18 judges them, and the narrow-spread part compares with traps of a single release time"],
    "C04": ["for continuous traps the library's tabulated functions are taken as given here; C18 judges them"],
}
