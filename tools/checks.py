"""Which harness decides which property (used by check.py and mkmanifest.py)."""
import os

V = ["validate.h"]
ALTSTD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "altstd.h")

TRUST = ("Search, not proof: nothing outside the generated cases is established. Trusted: gcc/clang and libstdc++, the engine in "
         "harness/pbt.cpp, and the reference model or oracle in the harness, written from the documentation.")


# arithmetic in the headers must not overflow either (part of "any input": the result would depend on the compiler)
UB = ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero", "-fno-sanitize-recover=all"]


def unit(name, src, defs=(), extra_flags=(), **kw):
    u = {"name": name, "src": [src], "flags": ["-O1"] + ["-D" + d for d in defs] + list(extra_flags), "headers": V}
    u.update(kw)
    return u


CHECKS = {}


def check(id, technique, rule, units, fuzz=60, note="", **kw):
    CHECKS[id] = dict(units=units, fuzz_seconds=fuzz, rule=rule, technique="property-based testing: " + technique, note=(note + " " + TRUST).strip(), **kw)


check("C01", "random documents and call scripts against a reference token-stream model",
      "A case is a document and a sequence of reading calls: documents are derived from the calls (mostly conforming) and then disturbed, or arbitrary bytes; "
      "non-trivial: at least two calls were judged before the end.",
      [unit("tokens", "h_input.cpp", ["P_C01"], extra_flags=UB), unit("tokens_clang", "h_input.cpp", ["P_C01"], cxx="clang++")], fuzz=300,
      note="Real tokens whose value is at the edge of the representable range and reals within 1e-15 (relative) of a tolerance threshold are not judged here (C03 judges exact boundaries).")
check("C04", "grammar-based tokens at the bounds against an independent matcher and strtold",
      "A case is a token (from the grammar, mutated, or one printed unit around a bound) with bounds and decimal limits; non-trivial: at least one token is read.",
      [unit("strict", "h_input.cpp", ["P_C04"], extra_flags=UB), unit("strict_clang", "h_input.cpp", ["P_C04"], cxx="clang++")], fuzz=120)
check("C11", "64-bit operands biased to the extremes against 128-bit arithmetic",
      "A case is a tuple of operands; non-trivial: modulus larger than 1 respectively a product beyond 64 bits, as counted per subproperty.",
      [unit("math", "h_math.cpp", ["P_C11"], extra_flags=UB), unit("math_noint128", "h_math.cpp", ["P_C11"], extra_flags=["-U__SIZEOF_INT128__"])], fuzz=120)
check("C12", "numbers, segments and ranges against trial division, a sieve and a deterministic Miller-Rabin test of the harness",
      "A case is a number, a block of numbers or a range; numbers include squares and products of close primes, strong pseudoprimes and Carmichael numbers; non-trivial as counted per subproperty (not divisible by a small prime, range not empty).",
      [unit("primes", "h_math.cpp", ["P_C12"], extra_flags=UB), unit("primes_O0", "h_math.cpp", ["P_C12"], extra_flags=["-O0"], fuzz=False), unit("primes_wide", "h_math.cpp", ["P_C12", "P_WIDE"], ["-O2", "-D_GLIBCXX_ASSERTIONS"], asan=False, fuzz=False, cpu=240)], fuzz=120)
check("C13", "nearly ordered/distinct/permuted sequences against the definitions",
      "A case is a sequence (sorted, constant, permuted or random, then locally disturbed); non-trivial: at least two elements.",
      [unit("sequences", "h_util.cpp", ["P_C13"], extra_flags=UB)], fuzz=60)
check("C14", "strings, numbers and containers against reference definitions",
      "A case is a string over any bytes, a number token, a range or a container; non-trivial as counted per subproperty (not empty).",
      [unit("text", "h_util.cpp", ["P_C14"], extra_flags=UB), unit("text_clang", "h_util.cpp", ["P_C14"], cxx="clang++")], fuzz=60)

PROG = unit("prog", "prog.cpp", engine=False, asan=False)
check("C02", "generated programs run as real processes against a model of streams, messages and verdicts",
      "A case is a program (kind, settings, reads, writes, final verdict) with the documents its streams read, run as a process; non-trivial: at least one read was judged (misuse cases: always).",
      [unit("process", "h_proc.cpp", ["P_C02"]), PROG], fuzz=0,
      note="Child processes are checked by their exit code, files and output only; an uncaught exception is accepted as the end of a misusing program.")
check("C03", "values at and around exact tolerance boundaries, and generated configurations of real processes, against the documented rule",
      "A case is a pair of reals with tolerances (dyadic, so that the boundary is decided exactly), a special value, or a program with settings, arguments and documents around its tolerances; non-trivial: given and expected differ, a value is not finite, or the tolerances are not the default.",
      [unit("float", "h_float.cpp"), unit("float_clang", "h_float.cpp", cxx="clang++"), unit("streams", "h_proc.cpp", ["P_C03P"], fuzz=False), PROG], fuzz=120,
      note="Not dyadic pairs within 1e-15 (relative) of a tolerance are not judged.")
check("C07", "generated configurations and command lines run as real processes against the documented precedence",
      "A case is a configuration of settings, arguments and documents whose judgement depends on the modes; non-trivial: at least one setting or flag differs from silence.",
      [unit("settings", "h_proc.cpp", ["P_C07"]), PROG], fuzz=0)
check("C08", "generated histories of constrained reads in real processes against a fold over the log",
      "A case is a history of bounded reads and direct logs under a few names; non-trivial: at least one line is expected.",
      [unit("constraints", "h_proc.cpp", ["P_C08"]), PROG], fuzz=0,
      note="Whether a real attained a bound is decided up to the default tolerance of 1e-6; values at its edge are not judged.")
check("C10", "generated histories of passes (process runs sharing a feedback directory) against a model of the state",
      "A case is a history of up to 8 passes; non-trivial: some pass reads the state of its predecessor.",
      [unit("multipass", "h_proc.cpp", ["P_C10"]), PROG], fuzz=0)
check("C05", "refused reads at all positions of generated documents against an independent line/column computation",
      "A case is a document with the calls reading it, refused at some point; non-trivial: the document is refused.",
      [unit("messages", "h_diag.cpp"), unit("messages_clang", "h_diag.cpp", cxx="clang++")], fuzz=120)
check("C06", "argument vectors and queries against a reference parser",
      "A case is an argument vector with queries for commands, raw arguments and positions through every accessor; non-trivial: at least one argument.",
      [unit("args", "h_args.cpp"), unit("args_clang", "h_args.cpp", cxx="clang++")], fuzz=120,
      note="The conversion of nan, inf and hexadecimal texts to reals is not judged (not documented).")
check("C09", "values of nested container types against a reference printer, and round trips through the reader",
      "A case is a sequence of values of about 40 types (nested containers, tuples, arrays) or a sequence handed to join in every way; non-trivial: more than one element.",
      [unit("output", "h_output.cpp"), unit("output_clang", "h_output.cpp", cxx="clang++")], fuzz=60)
check("C15", "lattice polygons (convex, star shaped, monotone, orthogonal) with degenerate disturbances against hull and pairwise-segment oracles",
      "A case is a point sequence or a pair of vectors; non-trivial: more than three points, or a convex or simple polygon.",
      [unit("polygons", "h_geo.cpp", ["P_C15"], extra_flags=UB), unit("polygons_clang", "h_geo.cpp", ["P_C15"], cxx="clang++")], fuzz=120)
check("C20", "parameters and seeds against geometric oracles in 128-bit arithmetic",
      "A case is a seed, n, dim and a point type; non-trivial: at least three points, or invalid parameters.",
      [unit("points", "h_geo.cpp", ["P_C20"], extra_flags=UB)], fuzz=60,
      note="convex is drawn with n up to 4*dim-4 (6*dim-6 for dim up to 5): the generator repeats failed attempts, for more points practically forever.")
check("C16", "parameters and random engines scripted with extreme words against the documented ranges",
      "A case is a script of engine words (zeros, ones, single bits, near the ends of the word range, then pseudo random) and parameters; non-trivial: the range is not empty.",
      [unit("ranges", "h_rand.cpp", ["P_C16"], extra_flags=UB), unit("ranges_noint128", "h_rand.cpp", ["P_C16"], extra_flags=["-U__SIZEOF_INT128__"])], fuzz=120,
      note="Not more than 8 zero words in a row; bounded distributions are asked for ranges with a probability of at least about 1% (they repeat until a number fits).")
check("C17", "parameters and random engines scripted with extreme words against the definition of the sequences",
      "A case is a script of engine words and parameters of one sequence function; non-trivial: at least two elements.",
      [unit("sequences", "h_rand.cpp", ["P_C17"], extra_flags=UB), unit("sequences_O0", "h_rand.cpp", ["P_C17"], extra_flags=["-O0"], cxx="clang++", fuzz=False)], fuzz=120)
check("C18", "samples for generated parameters and seeds against the exact distributions (chi-square, Kolmogorov-Smirnov)",
      "A case is a seed, a function and its parameters with some 3000 to 100000 samples; every case is non-trivial.",
      [unit("statistics", "h_stat.cpp", (), ["-O2"], asan=False, fuzz=False), unit("statistics_noint128", "h_stat.cpp", (), ["-O2", "-U__SIZEOF_INT128__"], asan=False, fuzz=False, scale=0.2), unit("graphs", "h_graph.cpp", ["P_C18G"], ["-O2"], asan=False, fuzz=False, headers=["graph_gen.h"])], fuzz=0,
      note="Every statistic has a false alarm probability of about 1e-12; deviations too small for the sample sizes are not seen. Combinatorial results are enumerated for small sizes only; exponential and geometric with bounds are judged for non-negative lower bounds.")
GG = dict(headers=["graph_gen.h"])
check("C21", "random histories of mutations and queries against a map from vertex pairs to data",
      "A case is a history on a graph or digraph without data, with integers or strings as data; non-trivial: an edge is added after another was erased.",
      [unit("histories", "h_graph.cpp", ["P_C21"], extra_flags=UB, **GG)], fuzz=180)
check("C22", "random graphs and operations against their textbook definitions",
      "A case is one or two graphs with an operation (or a chain of operations); non-trivial: the first graph has at least two edges.",
      [unit("operations", "h_graph.cpp", ["P_C22"], extra_flags=UB, **GG)], fuzz=180,
      note="Products and line graphs are compared including their vertex numbering (strong products in either order of the factors); undirected() may keep the data of either direction; combine is judged for non-empty graphs.")
check("C23", "sizes and template variants against explicit edge lists and a maximum flow algorithm of the harness",
      "A case is a family with its sizes; every case is non-trivial.",
      [unit("families", "h_graph.cpp", ["P_C23"], extra_flags=UB, **GG)], fuzz=60,
      note="completeTree(level) is judged from level 2 on (a star), where level counts vertices on a path from the root; the flow of ffWorstcase(n) is judged as 2^(n-1), see DESIGN.md.")
check("C24", "parameters and seeds against definitions, Erdos-Gallai and binomial statistics",
      "A case is a seed and parameters; non-trivial: more than one edge or two vertices are involved, as counted per subproperty.",
      [unit("random", "h_graph.cpp", ["P_C24"], extra_flags=UB, **GG)], fuzz=60,
      note="Statistics (edgeProbability) have a false alarm probability of about 1e-12 each.")
check("C25", "histories of edge insertions (trees, functional graphs, cycles, bipartite, acyclic, disturbed) with queries against brute force",
      "A case is a vertex range and a sequence of edges with queries in between, also on copies; non-trivial: at least two edges and vertices.",
      [unit("validation", "h_gval.cpp", headers=["graph_val.h"], extra_flags=UB), unit("validation_clang", "h_gval.cpp", cxx="clang++", headers=["graph_val.h"])], fuzz=120,
      note="Degrees count different neighbours (neighbours are documented as a set); the connectedness of the graph without vertices is not judged.")
check("C26", "random and extreme keys, blocks, counters and histories of draws and copies against AES-256 computed from FIPS 197",
      "A case is a key with blocks, or a history of draws, copies and assignments of up to 6 generators; non-trivial: at least two numbers are drawn.",
      [unit("aes", "h_rng.cpp", ["P_C26"], headers=["secure_rng.h"]), unit("aes_clang", "h_rng.cpp", ["P_C26"], cxx="clang++", headers=["secure_rng.h"])], fuzz=60)
check("C27", "random, sparse and extreme states and histories of draws, jumps and copies against the reference algorithm and its transition matrix",
      "A case is a state or seed with a history of draws, jumps, copies and assignments of up to 6 generators; non-trivial: at least two numbers are drawn.",
      [unit("xoshiro", "h_rng.cpp", ["P_C27"], headers=["rng.h"]), unit("xoshiro_clang", "h_rng.cpp", ["P_C27"], cxx="clang++", headers=["rng.h"])], fuzz=60)
PNGU = dict(headers=["visualizer_png.h"], )
check("C28", "images of all shapes and histories of writing, copying and moving against an independent PNG and deflate decoder",
      "A case is one or two images with a way of writing them; non-trivial: more than one row and column (or a very tall image).",
      [unit("files", "h_png.cpp", ["P_C28"], **PNGU), unit("files_clang", "h_png.cpp", ["P_C28"], cxx="clang++", **PNGU)], fuzz=60,
      note="Row y = 0 is the lowest row of the picture (FLIP_Y).")
check("C29", "histories of drawing calls against a model of the pixels, colours against exact arithmetic",
      "A case is a history of drawing calls on a small image, or colours with factors; non-trivial: two different colours respectively at least two calls.",
      [unit("drawing", "h_png.cpp", ["P_C29"], **PNGU), unit("drawing_clang", "h_png.cpp", ["P_C29"], cxx="clang++", **PNGU)], fuzz=120,
      note="Interpolation and blending are judged up to rounding (1, for translucent lower colours up to the rounding of alpha).")
SVGU = dict(headers=["visualizer_svg.h"])
check("C30", "pictures of all shapes drawn in one or several expressions against an XML parser and a model of elements and bounding box",
      "A case is a picture (objects, included points, enlargements) with a way of writing it, one element, or values; non-trivial: at least two objects respectively two different values.",
      [unit("pictures", "h_svg.cpp", (), **SVGU), unit("pictures_clang", "h_svg.cpp", (), cxx="clang++", **SVGU)], fuzz=120,
      note="Geometry is judged up to six significant digits, widths, heights and radii are not negative, and comments hold text XML allows in comments.")
check("C32", "calls on streams that hand out single characters on demand, and real processes in lockstep with the harness, against the characters each call needs by definition",
      "A case is a document with the calls reading it; the characters are handed out call by call, as many as the reference model had to look at; non-trivial: at least two calls had to wait for input.",
      [unit("lazy", "h_wait.cpp", ["P_LAZY"], extra_flags=UB), unit("lockstep", "h_wait.cpp", ["P_LOCKSTEP"], fuzz=False), PROG], fuzz=120,
      note="A process counts as waiting after it slept for about three seconds without any output.")
check("C33", "arguments drawn at and around the border of every function's domain against the definition of the domain",
      "A case is a call with arguments inside or outside of its domain (see labels); every judged call is non-trivial.",
      [unit("domains", "h_domain.cpp", extra_flags=UB), unit("domains_clang", "h_domain.cpp", extra_flags=["-O0"], cxx="clang++", fuzz=False), unit("graphs", "h_domain.cpp", ["P_GRAPH"], extra_flags=UB, headers=["graph_gen.h"])], fuzz=60,
      note="Any exception counts as an error, the type is not judged.")
check("C34", "documents printed by generators, read back by strict validators, unchanged and changed, with the promises of the generators checked by the validation functions",
      "A case is a list of printed values (numbers, strings, sequences, nested containers, polygons, graphs) and the reading calls for it; non-trivial: at least two values, or a graph with edges.",
      [unit("pipe", "h_pipe.cpp", extra_flags=UB, headers=["graph_gen.h"]), unit("pipe_clang", "h_pipe.cpp", cxx="clang++", headers=["graph_gen.h"], scale=0.3, fuzz=False)], fuzz=120)
SET = ["-DVH_SETTINGS"]
check("C31", "the cases and oracles of reading, printing, comparing, text and process checks, built with every compile-time setting replaced",
      "A case is one of C01, C02, C03, C07 to C10 or C14 in a program that overrides the settings; non-trivial as there.",
      [unit("tokens", "h_input.cpp", ["P_C01"], SET, scale=0.5, fuzz=False), unit("text", "h_util.cpp", ["P_C14"], SET, scale=0.2, fuzz=False),
       unit("output", "h_output.cpp", (), SET, scale=0.2, fuzz=False), unit("float", "h_float.cpp", (), SET, scale=0.2, fuzz=False),
       unit("process", "h_proc.cpp", ["P_C02", "P_C03P", "P_C07", "P_C08", "P_C10"], SET, scale=0.25, fuzz=False),
       unit("prog", "prog.cpp", (), SET, engine=False, asan=False)], fuzz=0,
      note="The settings are replaced by one other value each (precision 3, tolerance 1/64, upper case, exit codes shifted by 100); RandomEngine is replaced in C26 and C27.")


def diffbuild(name, opt, std="-std=c++20", **kw):
    u = unit(name, "diffprog.cpp", engine=False, asan=False, std=std, headers=["validate.h", "graph_gen.h"], **kw)
    u["flags"] = opt.split()
    return u


check("C19", "scripts of seeds and draws executed by builds of different compilers, optimisation levels, standards and word sizes, compared result by result",
      "A case is a script of seeds and calls with parameters; every case compares the results of at least two builds or two runs after the same seed (always non-trivial).",
      [unit("differential", "h_diff.cpp", fuzz=False),
       diffbuild("gcc_O1", "-O1"), diffbuild("gcc_O0_17", "-O0", "-std=c++17"), diffbuild("gcc_O3", "-O3", "-std=c++23"),
       diffbuild("clang_O2", "-O2 -DDOUBLE_FALLBACK", cxx="clang++"), diffbuild("gcc_m32", "-O2 -m32"),
       diffbuild("clang_m32_17", "-O1 -m32 -DDOUBLE_FALLBACK", "-std=c++17", cxx="clang++"), diffbuild("gcc_uchar", "-O1 -funsigned-char -U__SIZEOF_INT128__"),
       diffbuild("gcc_altstd", "-O0 -DDIFF_ALT -include " + ALTSTD), diffbuild("aes_gcc", "-O0 -DDIFF_AES"), diffbuild("aes_clang_m32", "-O1 -m32 -DDIFF_AES -DDOUBLE_FALLBACK", cxx="clang++"),
       diffbuild("xo_gcc", "-O0 -DDIFF_XO"), diffbuild("xo_clang_m32", "-O1 -m32 -DDIFF_XO -DDOUBLE_FALLBACK", cxx="clang++")], fuzz=0,
      note="Only libstdc++ is installed; a standard library that orders equivalent elements differently is imitated (altstd.h).")
