"""Table of checks: which harness parts decide which property."""
ASSUME = [
    "sequentially consistent execution of synchronisation operations (the scheduler interleaves whole operations)",
    "recipes are virtual processes: what they print, write and how they end is chosen by the enumeration",
    "file modification times are set by a logical clock and are distinct",
]
WP = {"name": "wp", "src": ["harness/wp.cpp"], "flavour": "plain"}
HIST = {"name": "hist", "src": ["harness/hist.cpp"], "flavour": "plain"}
NAMES = {"name": "names", "src": ["harness/names.cpp"], "flavour": "plain"}
SCAN = {"name": "scan", "src": ["harness/scan.cpp"], "flavour": "plain"}
LOG = {"name": "log", "src": ["harness/log.cpp"], "flavour": "plain"}
CMDLINE = {"name": "cmdline", "src": ["harness/cmdline.cpp"], "flavour": "plain"}
CONFIG = {"name": "config", "src": ["harness/config.cpp"], "flavour": "plain"}
LOADERS = {"name": "loaders", "src": ["harness/loaders.cpp"], "flavour": "plain"}
RECIPES = {"name": "recipes", "src": ["harness/recipes.cpp"], "flavour": "plain"}
TEXT = {"name": "text", "src": ["harness/text.cpp"], "flavour": "plain"}
LEXAPI = {"name": "lexapi", "src": ["harness/lexapi.cpp"], "flavour": "plain", "api": True}
JSONAPI = {"name": "jsonapi", "src": ["harness/jsonapi.cpp"], "flavour": "plain", "api": True}
UNITS = {"name": "units", "src": ["harness/units.cpp"], "flavour": "tsan"}
RECIPES_PY = {"name": "recipes-py", "python": "recipecheck"}
SCHED = {"name": "sched", "src": ["harness/sched.cpp"], "flavour": "tsan"}
T_ENUM = "bounded exhaustive enumeration of projects and histories on the real program, compared with a reference model"
T_SCHED = "stateless model checking of the real program: all schedules up to a deviation bound under a controlled scheduler (happens-before state pruning), plus exhaustive enumeration of small projects"
T_TEXT = "bounded exhaustive enumeration of texts: real program and real scanner/parser on every text up to a length over an alphabet of critical fragments and at every buffer alignment, compared with an independent reference automaton"
T_UNITS = "stateless model checking of the real component: all schedules up to a delay bound under a controlled scheduler with happens-before race detection, for every script of a small grammar and every system-call fault"
B_GRAPH = "all dependency graphs on 3 files with 5 edge kinds, 2 files with self edges, 4 files with one edge kind, directory layouts and target-less files (thorough: 4 files with every edge kind)"
B_SCHED = "13 dependency shapes of up to 4 tasks x clean, forced, incremental (each file touched) and selected (each target) builds x 1-3 workers, delay bound 1-2 (thorough 2-4)"
CHECKS = {
    "C01": {"title": "order", "parts": [WP, SCHED], "level": "model_checking", "technique": T_SCHED, "bounds": B_GRAPH + "; " + B_SCHED},
    "C02": {"title": "termination", "parts": [WP, SCHED], "level": "model_checking", "technique": T_SCHED, "bounds": B_GRAPH + "; " + B_SCHED + " x every set of up to two failing tasks"},
    "C03": {"title": "failure", "parts": [WP, SCHED], "level": "model_checking", "technique": T_SCHED, "bounds": B_GRAPH + ", every task failing in each way; " + B_SCHED + " x every set of up to two failing tasks"},
    "C04": {"title": "incremental", "parts": [HIST], "level": "model_checking", "technique": T_ENUM,
            "bounds": "9 project shapes, all histories of 3 (thorough 4) operations out of 9 per shape with a build or no build after each; histories that change the dependency graph"},
    "C05": {"title": "minimal", "parts": [HIST], "level": "model_checking", "technique": T_ENUM,
            "bounds": "9 project shapes, all histories of 3 (thorough 4) operations out of 9 per shape with a build or no build after each; histories that change the dependency graph"},
    "C06": {"title": "refusal", "parts": [WP], "level": "model_checking", "technique": T_ENUM, "bounds": B_GRAPH},
    "C07": {"title": "invocation", "parts": [WP], "level": "model_checking", "technique": T_ENUM, "bounds": "all acyclic graphs of: " + B_GRAPH},
    "C08": {"title": "selection", "parts": [HIST], "level": "model_checking", "technique": T_ENUM, "bounds": "9 project shapes x every set of selected targets x clean tree or every single change"},
    "C09": {"title": "duplicates", "parts": [NAMES], "level": "model_checking", "technique": T_ENUM, "bounds": "three files in three directories x 8 spellings each; two files with two targets each x 5 spellings x both declaration styles; 5x5 kinds of files"},
    "C10": {"title": "scan", "parts": [SCAN, SCHED], "level": "model_checking", "technique": T_SCHED,
            "bounds": "every set of the 13-odd candidate files (hidden, nested, directory names with extensions, empty dirs) x filter sets x recursion; every pair of filters; every set of extensions; every kind of unusable file at 7 places x filters; scan of a three level tree with delay bound 1 (thorough 2) and of a two level tree with delay bound 2 (thorough 3), all schedules, 1-3 workers"},
    "C11": {"title": "includes", "parts": [TEXT, LEXAPI], "level": "model_checking", "technique": T_TEXT, "bounds": "real program: all texts of up to 3 (thorough 4) out of 17 fragments, buffer borders up to 131072 bytes; real scanner: all texts of up to 5 (thorough 6) out of 27 fragments and up to 7 (thorough 8) out of 11 characters, all splits into reads for short texts"},
    "C12": {"title": "tags", "parts": [TEXT, LEXAPI], "level": "model_checking", "technique": T_TEXT, "bounds": "real program: all combinations of 20^3 texts around three tag lines, error positions, buffer borders; real filters: all texts of up to 5 (thorough 6) out of 23 fragments, up to 7 (thorough 8) out of 11 characters, all splits into reads for short texts"},
    "C13": {"title": "json", "parts": [TEXT, JSONAPI], "level": "model_checking", "technique": T_TEXT, "bounds": "real program: recipe answers and rule files of up to 3 (thorough 4) out of 14 tokens, every truncation; real reader and writer: all texts of up to 5 (thorough 6) out of 20 tokens, strings, numbers, truncations, all splits into up to three reads for short texts"},
    "C14": {"title": "config", "parts": [CONFIG], "level": "model_checking", "technique": T_ENUM, "bounds": "all triples of 18 values for one key, all pairs of files over two keys, nested objects; all pairs (thorough triples) of configuration fragments; every truncation, removed key, retyped value, bad pattern of a full configuration"},
    "C15": {"title": "children", "parts": [UNITS], "level": "model_checking", "technique": T_UNITS, "bounds": "all child programs of up to 3 out of 10 steps x ways to end, sizes around buffers and pipes, all exit codes and signals, launch errors, two and three concurrent runs, every failing pipe/fork call; delay bound 0-2 (thorough 2-4)"},
    "C16": {"title": "pool", "parts": [UNITS], "level": "model_checking", "technique": T_UNITS, "bounds": "all sequences of up to 3 jobs out of 6 kinds on 1-3 workers, waiting or not, spurious wake-ups; delay bound 1-3 (thorough 3-6)"},
    "C17": {"title": "fifo", "parts": [UNITS], "level": "model_checking", "technique": T_UNITS, "bounds": "all sequences of up to 3 writes of 3 sizes x 16 pairs of read sizes, buffered transfers around buffer sizes; delay bound 1-3 (thorough 2-4)"},
    "C18": {"title": "inspection", "parts": [HIST], "level": "model_checking", "technique": T_ENUM, "bounds": "9 project shapes x states reached by up to two changes x every inspection option, dry run and force"},
    "C19": {"title": "log", "parts": [LOG, SCHED], "level": "model_checking", "technique": T_SCHED, "bounds": "3 log levels x 2 formats x outcomes x all pairs of output texts on both streams; dry runs; every ASCII character and 15 texts at 7 places given to a POSIX shell; concurrent tasks printing to both streams, delay bound 1-2"},
    "C20": {"title": "cmdline", "parts": [CMDLINE], "level": "model_checking", "technique": T_ENUM, "bounds": "all sequences of up to 3 (thorough 4) out of 20 options, permutations of 6; all wrong options and values; all lists of up to 6 (thorough 7-8) characters over separator and escape; every position and digit of a build id"},
    "C21": {"title": "races", "parts": [SCHED], "level": "model_checking", "technique": T_SCHED + "; happens-before race detection on every explored execution",
            "bounds": B_SCHED + " x every set of up to two failing tasks; scans of a three level tree with delay bound 1 (thorough 2) and of a two level tree with delay bound 2 (thorough 3)"},
    "C22": {"title": "recipes", "parts": [RECIPES_PY], "level": "model_checking", "technique": "exhaustive fault enumeration on the real recipes: every tool call of every case fails in every way, tools replaced by recording stand-ins", "bounds": "995 cases (recipe x configuration x action list x dependency kinds), each with every tool call failing in 8 ways"},
    "C23": {"title": "places", "parts": [NAMES], "level": "model_checking", "technique": T_ENUM, "bounds": "286 combinations of spellings of source directory, target directory and working directory x 9 spellings of a selected target; all references between 4 directories x 6 kinds x 6 spellings x 4 places"},
    "C24": {"title": "recipes", "parts": [RECIPES], "level": "model_checking", "technique": T_ENUM, "bounds": "all combinations of recipe locations, all pairs (thorough triples) of configure answers, all declarations x overrides, all pairs of tag sets in file and answer"},
    "C25": {"title": "repair", "parts": [HIST], "level": "model_checking", "technique": T_ENUM,
            "bounds": "9 project shapes x every first change x every task failing in 7 ways or the build stopped at every recipe step, optional edits, then a repair build"},
    "C26": {"title": "listings", "parts": [WP], "level": "model_checking", "technique": T_ENUM,
            "bounds": "all acyclic graphs of: " + B_GRAPH + "; every printable ASCII character and 15 texts in the names of files, directories and targets; with and without an output file; before and after a build"},
    "C27": {"title": "loader settings", "parts": [LOADERS], "level": "model_checking", "technique": T_ENUM,
            "bounds": "17 file names x 8 extensions x 4 modes x 4 directories, every pair of names, 11 contents; 66 sets of expressions for generated includes x 7 includes x 3 ways to name them; 6 kinds of loader x 6 action lists x 6 lists of the file's own x 3 kinds of target dependency"},
}
