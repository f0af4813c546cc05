# Table of checks: groups (separately compiled type families), cases per build
# variant and group, rule for the evidence file.  Included by run.py.
R_SPL = ("deterministic pseudo-random cases from VERIF_SEED: type family x degrees (zero, unequal, up to the binomial "
         "limit) x control-point mode (uniform, integer, one-hot, constant, zero, big, small, mixed, linear) x "
         "parameters (corners, edges, interior); non-trivial: some degree >= 1 and non-constant data; distinct by "
         "hash of the complete generated input")
CHECKS["P01"] = std([0, 1], 7200, 40000, R_SPL)
CHECKS["P02"] = std([0], 7800, 40000, R_SPL + "; derivative orders from 0 to above the degree")
CHECKS["P03"] = std([0], 7800, 40000, R_SPL + "; derivative orders from 0 to above the degree")
CHECKS["P04"] = std([0], 7800, 40000, R_SPL + "; histories of elevation directions")
CHECKS["P05"] = std([0], 6600, 30000, R_SPL + "; split positions and lists, valid and invalid")
CHECKS["P06"] = std([0, 1], 4500, 25000, R_SPL + "; operand pairs with equal, smaller, larger and crossed degrees, aliased operands")
CHECKS["P07"] = std([0, 1], 3600, 20000, R_SPL + "; operand pairs of scalar/point types, powers 0..7")
CHECKS["P08"] = std([0, 1], 2700, 12000, R_SPL + "; outer/inner pairs, inner control points in the unit cube (corners included), lists, refused inner functions")
CHECKS["P09"] = std([0, 1], 2700, 12000, R_SPL + "; outer/inner pairs with rational splines on either or both sides, positive weights over three decades")
CHECKS["P10"] = std([0, 1], 2700, 12000, R_SPL + "; outer/inner pairs of all four polynomial/rational combinations")
R_RAT = R_SPL + "; positive weights (equal, scaled, over three decades)"
CHECKS["P11"] = std([0], 7800, 40000, R_RAT)
CHECKS["P12"] = std([0], 6600, 30000, R_RAT + "; mixed derivative orders including above the degree")
CHECKS["P13"] = std([0, 1], 3600, 20000, R_RAT + "; operand pairs with equal, proportional, different weight functions and degrees, aliased operands")
CHECKS["P14"] = std([0], 6600, 30000, R_RAT + "; elevation histories, split positions and lists")
CHECKS["P15"] = std([0], 10800, 50000, R_RAT + "; flat components, values at and one rounding step outside the unit cube, aliased transposition/scale vectors")
CHECKS["P16"] = std([0, 1], 3600, 16000, "deterministic pseudo-random histories of 12 (thorough: 24) operations on a spline (degree updates, elevation, derivation, splitting, algebra, products, composition, copies) with every index form and accessor probed after each step; distinct by hash of the complete history")
R_AD = ("deterministic pseudo-random straight-line programs over variables and constants: every supported operation in "
        "value, in-place and scalar-left/right form, aliased operands, special values (0, 1, -1); each step checked "
        "against a long-double evaluator with running error bounds; distinct by hash of the complete program")
CHECKS["P17"] = std([0], 60000, 300000, R_AD)
CHECKS["P18"] = std([0, 1], 24000, 100000, R_AD + "; plus splines whose parameters and control points carry derivatives")
R_B64 = ("deterministic pseudo-random lists (14 element types of 1 to 16 bytes, lengths 0 to 3000, special values, spare "
         "capacity, removed elements, residue in freed memory)")
CHECKS["P19"] = std([0], 36000, 200000, R_B64 + ", text compared with an independent RFC 4648 coder; distinct by hash of the bytes")
CHECKS["P20"] = std([0], 36000, 200000, R_B64 + " and hostile texts (any byte, non-ASCII, padding anywhere, NUL, byte counts "
                    "that do not divide), also under memcheck for uninitialised bytes; distinct by hash of the text",
                    technique="ASan/UBSan/Valgrind memcheck over generated lists and hostile texts, with size and content monitors")
CHECKS["P20"]["quick"]["vg"] = 1200
CHECKS["P20"]["thorough"]["vg"] = 20000
CHECKS["P21"] = std([0], 36000, 200000, "deterministic pseudo-random points of 1 to 7 components over float, double, long double, int and "
                    "differentiated scalars, every operator in both forms, every component as aliased scalar, every text "
                    "precision; distinct by hash of the operands")
CHECKS["P22"] = std([0], 6000, 60000, "every binomial coefficient for maximum degrees 1, 5, 30, 31, 62, 68 (exhaustive, against prime "
                    "factorisation) and, deterministic pseudo-random, integer powers up to the last representable one for seven "
                    "integer types, lists with ties for the index sort, factor lists of one to five directions; distinct by hash of the input",
                    technique="monitors against exact integer references on exhaustive (binomials) and generated inputs, under ASan+UBSan and in five table sizes")
for v in ("max1", "max5", "max31", "max68"):
    CHECKS["P22"]["quick"][v] = 900
    CHECKS["P22"]["thorough"][v] = 20000
CHECKS["P23"] = std([0, 1], 900, 12000, "deterministic pseudo-random histories of 10 to 28 (thorough: 60) operations over a pool of twelve "
                    "splines of four kinds (20 + 16 + 16 operations, aliased operands, refused operations), every step against a "
                    "shadow model and every other spline against its snapshot, same histories in every build with digests compared; "
                    "distinct by hash of the complete history", same_cases=True,
                    technique="ASan+UBSan+library assertions, optimised builds and memcheck over generated operation histories with shadow models and cross-build result digests",
                    tvariants=("san", "rel", "clangsan", "rel3", "dbg"))
CHECKS["P23"]["quick"].update({"rel3": 900, "vg": 60})
CHECKS["P23"]["thorough"].update({"vg": 1500})
CHECKS["P24"] = std([0, 1], 0, 0, "deterministic pseudo-random programs for 3 to 6 threads over a shared pool of twelve splines: 44 "
                    "non-modifying operations, 12 operations on own copies, coding, differentiation, refused operations and reconfigured diagnostics, free "
                    "running or started in step; the concurrent run comes first and is compared with a sequential one; "
                    "interleavings as observed (thread-switches), distinct by hash of the program",
                    technique="ThreadSanitizer (two compilers, logging in and out) and byte comparison of concurrent with sequential runs",
                    workers=4, tsan_shards=8, shard_min=8)
CHECKS["P24"]["quick"] = {"tsan": 400, "clangtsan": 400, "tsanlog": 300, "thr": 1200}
CHECKS["P24"]["thorough"] = {"tsan": 12000, "clangtsan": 12000, "tsanlog": 6000, "thr": 60000}
CHECKS["P25"] = std([0], 0, 0, "deterministic pseudo-random histories of messages of all six severities (empty, long, multi-line, any byte), level "
                    "changes in every call form, library operations accepted and refused, seven ways of ending or disturbing a "
                    "history, each in a process of its own; same histories with logging compiled in and out; distinct by hash of the history",
                    technique="offline checker over recorded console and log files (exactly once, complete, in order, right sink) with crash and "
                    "open-failure injection, under ASan+UBSan and TSan; result digests across levels and builds",
                    same_cases=True, shard_min=20)
CHECKS["P25"]["quick"] = {"log": 700, "nolog": 700, "tsanlog": 200}
CHECKS["P25"]["thorough"] = {"log": 12000, "nolog": 12000, "tsanlog": 3000, "rel": 12000}
CHECKS["P26"] = std([0, 1], 7800, 40000, "deterministic pseudo-random splines of four kinds: ten ways of copying followed by 6 (thorough: 12) modifying "
                    "operations on either side, sequences of non-modifying operations over shared operands, results modified "
                    "afterwards, refused operations, equality after single-component changes and permuted degrees; distinct by hash of the input and operations")
CHECKS["P27"] = std([0, 1], 800, 10000, "deterministic pseudo-random pools of splines; for each of 43 non-modifying, 16 modifying, 6 refused operations, "
                    "coding, sorting and differentiation: the allocations made are counted, then the operation is repeated with each one (of "
                    "many: a sample) failing; distinct by hash of pool and operations",
                    technique="allocation-failure injection (replaced operator new) with monitors for report, leak, operand change and reuse, under ASan+UBSan",
                    shard_min=40)
CHECKS["P28"] = std([0], 0, 0, "programs of five units that include all headers in seeded orders (one of them a shared object) and one unit per "
                    "header on its own; deterministic pseudo-random histories of messages, level changes, library operations and "
                    "single-header workloads spread over the units, before main, in main and during static destruction, each in a "
                    "process of its own; distinct by hash of the history",
                    technique="offline checker over recorded console and log files of multi-unit processes and comparison of result digests across units, phases and builds, under ASan+UBSan",
                    same_cases=True, shard_min=20, units=True)
CHECKS["P28"]["quick"] = {"log": 600, "log2": 600}
CHECKS["P28"]["thorough"] = {"log": 12000, "log2": 12000, "nolog": 4000, "rel3": 8000}
CHECKS["P29"] = std([0, 1], 0, 0, "deterministic pseudo-random deformation functions and tiles with matching faces, split into up to 3 parts per "
                    "direction in any order and form, all compositions; rings of rational segments filled with crosses; the example program is built; "
                    "distinct by hash of the input")
CHECKS["P29"]["example"] = "example/Microstructure/microstructure_build.cpp"
CHECKS["P29"]["quick"] = {"san": {0: 1600, 1: 1200}, "rel": {0: 4000, 1: 3000}, "log": {0: 300, 1: 200}}
CHECKS["P29"]["thorough"] = {v: {0: 60000, 1: 40000} for v in ("san", "rel", "clangsan", "rel3", "dbg", "log")}
CHECKS["P30"] = std([0, 1, 2, 3, 4, 5, 6], 0, 0, "deterministic pseudo-random polynomial and rational splines (degrees up to 29) and composition pairs over seven scalar types (exact rationals; "
                    "long double; dual numbers over double, float, long double, rationals and over dual numbers), every scalar drawn with its own derivatives, compared with "
                    "exact (rational) or long double dual-number arithmetic; distinct by hash of the input",
                    technique="monitors against exact rational and dual-number arithmetic on generated inputs over seven scalar types, under ASan+UBSan",
                    optional=(0, 2))
CHECKS["P30"]["quick"] = {"san": {0: 3000, 1: 6000, 2: 1500, 3: 6000, 4: 6000, 5: 6000, 6: 6000}, "rel": {0: 10000, 1: 20000, 2: 6000, 3: 20000, 4: 20000, 5: 30000, 6: 20000}}
CHECKS["P30"]["thorough"] = {v: {0: 60000, 1: 200000, 2: 40000, 3: 200000, 4: 200000, 5: 200000, 6: 200000} for v in ("san", "rel", "clangsan", "rel3", "dbg")}
CHECKS["P31"] = std([0, 1], 0, 0, "deterministic pseudo-random calls (44 non-modifying, 12 modifying, 11 utility, 9 rare-branch, 10 refused operations) on pools of splines under altered "
                    "stream formats, rounding modes, flush-to-zero, foreign global locale, unusable console, environment variables; repeated calls and 150 calls with fresh operands "
                    "for the heap; distinct by hash of pool and calls",
                    technique="monitors on process state (console, files, descriptors, threads, stream/locale state, floating-point environment and exceptions, signal handlers, random numbers, environment, heap) around every operation, under ASan+UBSan")
CHECKS["P31"]["quick"] = {"san": 4000, "rel": 12000, "log": 2000}
CHECKS["P31"]["thorough"] = {v: 60000 for v in ("san", "rel", "clangsan", "rel3", "dbg", "log")}
