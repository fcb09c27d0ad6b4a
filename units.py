"""Which harness decides which property, and how it is built."""

COMMON_ASSUMPTIONS = [
    "IEEE double arithmetic; comparisons allow for the library's own absolute residual tolerance and rounding",
    "values outside the enumerated alphabets (listed under bounds) are not covered",
    "the reference model (harness/ref_fe.hpp) is an independent implementation of the stated mathematics",
]

UNITS = {}


def u(prop, rule, bounds, units=None, assumptions=()):
    UNITS[prop] = dict(rule=rule, bounds=bounds, assumptions=list(assumptions),
                       units=units or [dict(name=prop.lower(), src=prop.lower() + ".cpp")])


u("C01", "every configuration of the alphabet is built as a real instance and every strain letter is evaluated in it; the "
  "stress of each is compared with a dense-solver reference finite element model",
  {"quick": "2D grids 2..6 x 2..6 and 3D grids 2..4 per axis (all combinations) plus slender and larger grids up to 33x33, 65x4, 10x10x10; "
            "2 microstructures, 2-3 widths, 3-4 side length triples, 7 material pairs (E 1e4..2.1e11, nu -0.3..0.49, types 0,1,2); 15-18 strains each (2e-9 .. 20, 1e-30 .. 1e10 on cells without inner nodes), re-evaluated in rotated order; slender grids up to 130x3, 3x140; 3D side ratios up to 1:400; balls wider than a side; nearly incompressible and auxetic materials; cells so stiff that rounding keeps the residual above the tolerance; all also with the linear shortcut always taken; old age: the same answers, bit for bit, after up to 70000 evaluations, settings, queries or commits of nothing",
   "thorough": "2D grids 2..9 x 2..9, 3D grids 2..5 per axis, all widths, lengths and material pairs, grids up to 60x60, 300x3, 12x7x9, 4x4x25"})

u("C03", "all words over the strain alphabet are run as committed histories on fresh real instances; the stress after every step is "
  "compared with the reference J2 cell model carrying its own plastic state",
  {"quick": "12 strain letters (elastic, plastic, reversed, all shears, mixed, hydrostatic) to depth 4 on one element, 3 on layered elements, "
            "6 letters to depth 6; 6-12 letters to depth 2-3 on 8 cells with inner nodes; 5 material pairs; all ordered letter pairs cycled up to 60 times; incremental ramps; histories creeping over first yield in steps down to 1e-6 of it; 7 letters from 1e-9 to 3 to depth 2-4; cells of many elements; hardening above the elastic modulus or next to none",
   "thorough": "depth 5 (12 letters), 8 (6 letters), 4 on layered elements, 3-4 on cells with inner nodes, 200 cycles"})

u("C02", "the tangent of every configuration, strain and committed history of the alphabet is read from the real instance and compared with the "
  "exact (algorithmically consistent) tangent of the reference cell; elastic ones also for symmetry, definiteness and stress = tangent*strain",
  {"quick": "elastic: 2D grids 2..5, 3D grids 2..4 per axis, grids up to 20x20 and 8x8x8, 4 material pairs, up to 14 strains; plastic: 12 letters to depth 3 and 6 letters to depth 5 on one element, "
            "12 letters to depth 2 on 8 cells, 3 material pairs; 7 letters from 1e-9 to 3 to depth 2-4; yield strains of 2 % and 30 %; cells so stiff that the tolerance is never met; elastic cells also with the linear shortcut always taken; strains within 3e-7 of a yield surface are skipped (not differentiable); old age: the same answers, bit for bit, after up to 70000 evaluations, settings, queries or commits of nothing",
   "thorough": "elastic 2D grids 2..7, 3D grids 2..5; plastic depth 4/6 on one element, 3 on the cells"})

u("C04", "all operation words over {set strain, homogenize, commit} for one Gauss point are executed on real instances in lockstep with the interface model "
  "(trial/committed states of the reference cell); stress, tangent and flag are compared after every observable step and by probe evaluations at the end",
  {"quick": "words of length 8 (3 strains), 6 (5 strains), 10 (1 strain) on one element; 6 on a two-material row; 4-5 on cells with inner nodes; 7 with the linear shortcut active; all words also compared bit for bit with the committed history alone; strains of order 1e-9 and 10; trials that cannot converge, overflow or are not numbers, compared with the same word without them; cells of many elements; long lives of up to 3129 operations containing every word of length 4-5; old age: the same answers, bit for bit, after up to 70000 evaluations, settings, queries or commits of nothing",
   "thorough": "words of length 9, 8, 13; 8; 6-7; 8"})

u("C05", "all operation words over several Gauss points (set by id, homogenize, commit) run in lockstep with the interface model in which points are independent; "
  "all points compared after every evaluation and commit",
  {"quick": "words of length 7 (2 points x 2 strains), 6 (3 x 2), 7 (4 x 1) on one element; 15 id triples (collision-prone: powers of two, sign, extremes) to length 4; cells with inner nodes to length 4-5; "
            "up to 4200 points with 6 id patterns and 3 introduction orders, three committed rounds; words over two points bit for bit equal to each point on its own (ids incl. -7 and 65543, also read before the first evaluation); crowds of 5..110 points, also in cells with inner nodes, bit for bit equal to each point alone; long lives of up to 4099 operations containing every word of length 3-4; old age: the same answers, bit for bit, after up to 70000 evaluations, settings, queries or commits of nothing",
   "thorough": "one letter deeper throughout (id triples to length 6)"})

_wrap_all = ["-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc"]
_wrap = ["-Wl,--wrap=malloc,--wrap=free"]
u("C06", "every configuration and call script is run under each memory/stack fill pattern, after every other configuration in the same process, and in every "
  "interleaving with a second live instance; all observed numbers (and files) must be identical to the run in a pristine process",
  {"quick": "12 configurations x 4 scripts x 7 fill patterns (heap, freed blocks and stack); 12x12 ordered pairs x 4 scripts, earlier instance destroyed and alive; "
            "all ordered pairs of twin configurations that differ in one argument (by a lot or by a little); twins with exchanged arguments; crowds of instances, 400 in a row; larger cells under the fill patterns; output files observed as well; all 3432 interleavings of two 7-step scripts (construct .. destroy) for 6 configuration pairs and interleavings of three instances; -O2 and (reduced) -O0 builds; 2500 instances in a row",
   "thorough": "as quick with all 6 pairs also for 9-step scripts (11440 interleavings each)"},
  units=[dict(name="O2", src="c06.cpp", flags=["-O2", "-fno-builtin-malloc", "-fno-builtin-free"], ldflags=_wrap),
         dict(name="O0", src="c06.cpp", flags=["-O0"], ldflags=_wrap, variant="O0")])

u("C07", "operation words and threshold ladders run in lockstep with the interface model, which decides shortcut and flag from the reference elastic tangent and the reference "
  "cell; stress, tangent (which differ grossly between shortcut and full solution for these letters) and flag are compared",
  {"quick": "6 tolerances (negative, zero, tiny, two finite, huge) x 8 cells, 4 strains at 0.5..1.7 of the threshold, words of length 3-6; 12 directions x 2 signs x 2 tolerances x 7 fractions (0.02 .. 1.9, closest 1e-4 off); "
            "which answer was given (from the iteration report) for 40-52 strains x 10 tolerances x 6 cells; flags up to 40 times yield and over 700 steps; flag at 8 amplitudes around first yield of any point in 12 directions x 7 cells",
   "thorough": "words one operation longer"})

u("C08", "queries are letters of the operation alphabet: all words mixing set/homogenize/commit with getters, output and reports, and all insertions of one or two queries "
  "in fixed histories, compared with the interface model in which queries do nothing; buffers are guarded",
  {"quick": "words of length 5 (9 letters) and 6 (6 letters) on one element, 3-5 on larger cells and 2D; 21 queries (4 kinds x 5 ids, report) at all positions and pairs of positions of 5 histories (two ending with points never evaluated) on 4 cells; long lives of up to 7780 operations containing every word of length 2-5; every history also run bare (no query at all) and its report lines compared; old age: the same answers, bit for bit, after up to 70000 evaluations, settings, queries or commits of nothing",
   "thorough": "words of length 6 and 8; 5-7 on the others"})

u("C09", "output files of every configuration and operation word of the alphabet are parsed and every number of displ, strain, stress, b, plasticity and hardening is compared with the reference "
  "fields of (current strain, committed state)",
  {"quick": "2D grids 2..5 (3 side pairs), 3D grids 2..4 per axis (3 material type pairs), larger grids up to 20x20, 7x7x7; words of length 6 over 3 sets, homogenize, commit (one or two points) on one element, 4-5 on cells, output of all points twice at the end; strains from 1e-12 to 3 committed one after the other; cells of many elements; long lives with an output after every word; 9000 outputs in a row of one instance; cells so stiff that the tolerance is never met",
   "thorough": "2D grids 2..7, 3D grids 2..5, words one longer"})

u("C10", "each cell and each of its 48 (ball) / 8 (layers) axis permutations and mirrors (8 / 2 in 2D) is built and driven with the transformed strains or histories; all stresses and tangents must transform as tensors",
  {"quick": "2D grids 2..5 x 2 side ratios and 2 larger, 11 3D grids up to 4x5x6, unequal side lengths in 2D and 3D, 12 strains; plastic histories of 3 committed steps (72 on one element, subsets on 4 larger cells) x 3 material type pairs; histories of 9 sizes from 1e-9 to 1e4 times first-yield strains",
   "thorough": "2D grids 2..6, all 72 histories on all cells"})

u("C11", "cells and scaled copies are driven with the same strains or histories and compared; elastic cells with superposed strains; uniform cells with the closed-form material answer",
  {"quick": "24 cells (8 plastic) x 5 length factors 0.05..40 and 4 modulus factors 0.1..100; superposition of up to 16-24 combinations; patch tests on 2D grids 2..8 and 3D grids 2..5 (up to 80 nodes), plastic patch on 26 grids; E=1 and E=1e3 cells; unit systems (moduli 1e-60..1e60, lengths 1e-4..1e4) on cells without inner nodes, 2D lengths 1e-3..1e3",
   "thorough": "more histories per plastic cell, 3D patch grids 2..6"})

u("C12", "for every grid and number of unknowns, every element, every single entry, all subsets and all add/zero sequences of small grids are assembled and the whole matrix is read back through "
  "products with all unit vectors; exact integer arithmetic against a dense sum",
  {"quick": "2D grids 2..6 x 2..6 with 1-4 unknowns, 3D grids 2..4 per axis with 1-3 unknowns, slender and larger grids (40x2, 20x2x2, 6x5x7), 5 and 6 unknowns on two; all subsets up to 6 (2D) / 4 (3D) elements; sequences to length 6; matrices scaled by 2^-400 .. 2^400 and mixed orders; up to 17 unknowns, 4-13 on every small grid; grids up to a few thousand nodes through products with probing vectors, elongated along each axis; single entries on grids up to 4x4 and 3x3x3",
   "thorough": "2D grids 2..9, 3D grids 2..5 with 1-4 unknowns, subsets up to 9 / 8 elements, single entries up to 5x5 and 4x4x4"})
u("C13", "for every grid and number of unknowns the whole matrix is read through products with all unit vectors before and after the boundary condition call (once, twice, after re-assembly) and compared exactly with the dense matrix",
  {"quick": "2D grids 2..8 x 2..8 with 1-4 unknowns, 3D grids 2..6 per axis (1 unknown), 2..5 (2), 2..4 (3), up to 6 unknowns and slender grids up to 40x3, 15x3x3; 5 element matrix families (distinct entries, partial assemblies, zero, semi-definite), scaled by 2^-400 .. 2^400, up to 13 unknowns, also on every small grid; grids of thousands of nodes, elongated along each axis, through products with probing vectors",
   "thorough": "2D grids 2..11, 3D grids 2..6 for 1-3 unknowns"})
u("C14", "every solver is run on every matrix, right-hand side, start, tolerance and iteration limit of the alphabet; residual, reported error and iterations are judged with an independently assembled dense matrix",
  {"quick": "2D grids 2..5, 3D grids 2..4 (1-3 unknowns) and up to 12x9, 30x3, 5x5x5; 4 matrix families (Laplacian, coupled, contrast 1e4, diagonal over 4 decades) with and without boundary conditions; 4 right-hand sides, 4 starts (zero, exact, far, one entry off), 10 tolerance/limit combinations each including tolerances 1% around the starting residual; matrices scaled 1e-12..1e12, right-hand sides 1e-14..1e9, starts exact and half way; ill-conditioned and nearly singular systems needing many iterations, Jacobi on up to several hundred rows",
   "thorough": "2D grids 2..7, 6 right-hand sides"})
u("C15", "the files of every configuration are parsed as XML and compared with the mesh; all words over output calls (several ids, steps, an unknown id), strain changes, evaluations, commits and reports are run against a model of the directory contents",
  {"quick": "2D grids 2..7, 3D grids 2..5 up to 64 nodes, slender ones, 3 length triples, 2 microstructures, output before and after evaluation; words of length 4 (10 letters) and 3 (12 letters) with stale longer files present; 13x13 ids and steps including the extremes of int; meshes whose offsets exceed 65535; up to 4 points with consecutive steps",
   "thorough": "2D grids 2..9, 3D grids 2..6, words of length 5 and 4"})
u("C16", "all words over set (several points), homogenize, commit and write_info_files run in lockstep with the interface model; after each report the three files must have grown by exactly the line the getters, the model and the reference plastic state call for; constructors start from stale files",
  {"quick": "words of length 6 on one element (1-3 points, 3 id sets), 5 with the shortcut, 4-5 on six cells with both materials and inner nodes and in 2D (length 5-6); up to 120 points introduced over three rounds; 300 reports in a row; queries between reports; internal variables just beyond first yield and of the order of 1e-12; strains of extreme magnitude; cells of many elements; 20000 reports in a row of one state",
   "thorough": "one or two operations longer"})
u("C17", "all words over the wrapper's calls (construct of a second configuration included) are run through the wrapper and through a C++ instance; every value, guard word, argument and file must be identical; live allocations are counted over re-constructions",
  {"quick": "9 letters to length 5 on one element, 5 letters to length 6, id alphabet to length 5; 3-4 on a shortcut cell, two larger 3D cells and two 2D cells; long lives containing every word of length 3-6; the first 80 evaluations of a process probed one by one; re-construction for 6x6 configuration pairs x 4 amounts of use, 20 times; construction over construction for all ordered pairs of 36 configurations differing in one argument",
   "thorough": "one operation longer (8 for the 5-letter alphabet)"},
  units=[dict(name="c17", src="c17.cpp", flags=["-O2", "-fno-builtin"], ldflags=_wrap_all)])
_san = ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
u("C18", "every configuration, life cut at every point, operation word, matrix and wrapper use of the alphabet is executed three times: with address and undefined-behaviour sanitizers and heap arrays of exactly the documented extent, "
  "with live allocations and open files counted before and after, and (smaller bounds) under valgrind for use of uninitialised data",
  {"quick": "2D grids 2..6, 3D grids 2..4, both microstructures, all 9 material type pairs, widths none/all, slender grids; all prefixes of a 31-call script; words of length 3-7 (8 and 4 letters); 1-200 points; matrices on 2D grids 2..7, 3D 2..4 with 1-4 unknowns; valgrind: grids 2..4 / 2..3, words of length 2-4",
   "thorough": "2D grids 2..8, 3D 2..5, words one or two longer, matrices 2..9 / 2..5"},
  units=[dict(name="asan+ubsan", src="c18.cpp", flags=_san, env={"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:max_allocation_size_mb=4000:allocator_may_return_null=0", "UBSAN_OPTIONS": "print_stacktrace=1"}),
         dict(name="leaks", src="c18.cpp", flags=["-O2", "-fno-builtin", "-fno-allocation-dce"], hflags=["-DCOUNT"], ldflags=_wrap_all),
         dict(name="valgrind", src="c18.cpp", flags=["-O1", "-g"], hflags=["-DVG"], wrap=["valgrind", "-q", "--undef-value-errors=yes", "--leak-check=no"], cpu=400)],
  assumptions=["sanitizers and valgrind report the memory errors and undefined behaviour that the executed paths contain"])
u("C19", "every configuration of the alphabet is built and its output file read: the type of every element must follow the geometric rule, its mean stress must be that material's answer to its mean strain, and the macro stress their average",
  {"quick": "2D grids 2..8, 3D grids 2..5 (up to 48 nodes and 5x5x5), slender and larger ones, 2 microstructures, 4 length triples, 9-10 widths from none to all; slender cells with balls wider than a side; 22 exact ties of the ball (dyadic data) and all exact ties of layers on 2-8 layers, each also 1e-9 to both sides; every element of 81 grids with other spacings 2e-9 to both sides of the interface",
   "thorough": "2D grids 2..10, 3D grids 2..6"})
u("C20", "every evaluation of every configuration, strain and committed history of the alphabet is followed by a report, whose iteration counts and residuals are judged, compared with the residual field of the output file, and backed by the reference stress; a case that does not return is a violation",
  {"quick": "elastic: 2D grids 2..5, 3D grids 2..4, larger ones, 3 contrasts, 2 microstructures, 33-36 strains of amplitude 1e-7..5; plastic: 12 letters to depth 2-3 on 7 kinds of cells x 3 material type pairs, strains up to 10%; termination only: hardening 1e-6, 0, -0.02 of E, zero yield stress, strains of order 1-5; words of length 4-5 for two points with the shortcut; reports of an instance after tens of thousands of evaluations",
   "thorough": "2D grids 2..7, 3D grids 2..5, histories one step longer"})
u("C21", "every argument of every call of the enumerated words lives in its own pages in front of an inaccessible page, is write-protected during the call when it is an input and becomes inaccessible when the call returns "
  "(a later access ends the process, which is a violation); all results must be identical to those of a run with ordinary arrays",
  {"quick": "9 letters to length 4 and 5 letters to length 4-6 (each word followed by evaluation, queries and a commit) on 5 3D and 3 2D cells, C++ interface and wrapper; matrices on 2D grids 2..5, 3D grids 2..4 with 1-3 unknowns: element matrices, operands, right-hand sides",
   "thorough": "words of length 5 and 5-8, 2D grids 2..6"})
u("C22", "cells, stiffer copies, refined grids and committed plastic histories of the alphabet are evaluated and compared through inequalities of quadratic forms (all eigenvalues) and of work; no reference solution is used",
  {"quick": "2D grids 2..5 (2 side pairs), 3D grids 2..4 per axis and 4 larger, 2 microstructures, 1-2 widths, 4 phase pairs (swapped, nu -0.3..0.45): Voigt and Reuss bounds, 3 growth factors of E and bulk modulus of each phase, 7 widths; nested refinements by 2, 3, 4 along all axis subsets of layered grids; "
            "plastic: 12 letters committed to depth 1-2 on 8 cells x 2 hardening pairs, all pairs of up to 17 trial strains",
   "thorough": "2D grids 2..7, 3D grids 2..5, committed histories to depth 2-3"})
u("C23", "two call scripts are run with each kind of file trouble present during every interval of calls; every result must be identical, bit for bit, to the run without trouble, and every file and report line that could be written must be the same",
  {"quick": "scripts of 14 and 16 calls (two points, reports, outputs, destruction) on 4 cells; 3 kinds of trouble (name is a directory, disk full, path missing) for each file, plus working directory gone, no descriptors left, files cannot grow (at all, beyond 100 bytes); all 105 / 136 intervals of calls for each; trouble that no report met must leave no trace in any report, headings included",
   "thorough": "6 cells"})
u("C24", "every word of calls runs in a traced process; after every system call that may change files the directory - what a kill at that moment leaves - is compared with what earlier calls had written",
  {"quick": "words of length 3 (9 letters), 5 (4 letters) on one element, 2-3 (6-7 letters) on a 3D and a 2D cell, after construction over files of an earlier run; 40 and 130 reports in a row; 5, 9 and 40 points; every system call of every word is a crash point",
   "thorough": "words one call longer"},
  assumptions=["a kill loses nothing that a completed system call has handed to the kernel (process kill, not power failure)"])
u("C25", "two threads, each with instances of its own, run under a scheduler that can stop a thread at every basic block of the library: every schedule within the preemption bound is executed and every value and output file compared bit for bit with those of the same calls alone; "
  "the same pairs also run freely under a race detector: without conflicting accesses all interleavings are equivalent to the one executed",
  {"quick": "12 pairs of 2D, 3D, shortcut and inner-node cells, scripts of 5-12 calls (construct, set, homogenize, commit, queries, report, output, destroy); one preemption at the first 1-3 and the last execution of every basic block in every call; "
            "the same with the other thread after each of its calls; both threads preempted at every pair of basic blocks on the smallest pair; race detection on these and on all 81 ordered pairs of 9 cells",
   "thorough": "preemption at every executed basic block on four pairs, pairs of preemptions on seven pairs"},
  units=[dict(name="races", src="c25.cpp", flags=["-O1", "-g"], hflags=["-DFREE"], libflags=["-fsanitize=thread"], ldflags=["-fsanitize=thread", "-lpthread"], env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0"}),
         dict(name="schedules", src="c25.cpp", libflags=["-fsanitize-coverage=trace-pc"], ldflags=["-lpthread"])],
  assumptions=["the race detector reports every pair of conflicting accesses of the executed paths (ThreadSanitizer keeps the last four accesses per 8 bytes)", "the C++ runtime and the file system are correct under concurrent use"])
u("C26", "every word of calls over the C++ interface, the wrapper and the linear algebra is run; after every call everything a host can see of its own process is compared with what it was before, nothing may have been printed, and the working directory holds the documented files only",
  {"quick": "9 letters to length 5, 5 letters to length 6, wrapper with 7 letters to length 5 on one element, with the shortcut and in 2D; 5 letters to length 5 and wrapper words of length 4 on two cells with inner nodes and a 2D one; long lives of 120 steps; 250 configurations (odd moduli, softening, extreme Poisson ratios, widths, sizes) with 10 strains up to 1e10; 1500 points; matrices on 2D grids 2..4, 3D 2..3 with 1-3 unknowns; "
            "snapshot: standard output and error, floating-point control, locale, working directory, environment, mask, 64 signal actions, signal masks and stacks, timers, descriptors, resource limits, random generators, threads, children, handlers, scheduling, identity, stream formats; calls that leave no trace (system, fork, kill, sleep, nanosleep, atexit, exit) are recorded; hidden files count as files",
   "thorough": "words one or two calls longer, 2D grids 2..6, 3D 2..4"},
  units=[dict(name="c26", src="c26.cpp", ldflags=["-ldl"])])
u("C27", "two call scripts are run with each setting of the host in force during every interval of calls; every result and every file after every call must be identical, bit for bit, to those of the run without it",
  {"quick": "19 settings (global locale with decimal comma and grouping, stream formats, floating-point flags raised, traps enabled, standard descriptors closed, environment, every variable set to 1 or to 0, another time and process id, random seeds, umask, errno, calls from one other thread or from a new thread each, from a forked process, signals blocked, all signals ignored, standard streams on a terminal, other answers of the system: processors, affinity, user, priority, limits, host name), all 105 / 136 intervals of two scripts on 4 cells and 15 on a cell of 1089 nodes; three scripts run before main()",
   "thorough": "6 cells"},
  units=[dict(name="c27", src="c27.cpp", ldflags=["-lpthread"])])
