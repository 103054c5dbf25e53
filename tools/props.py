"""Source of properties.jsonl and of the texts in MANIFEST.json (run tools/mkmanifest.py)."""
V, GG, GV, R, S, P, SV = ("src/validate.h", "src/graph_gen.h", "src/graph_val.h", "src/rng.h", "src/secure_rng.h", "src/visualizer_png.h", "src/visualizer_svg.h")


def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    return d


PROPS = [
    p("C01", "Token reading accepts exactly the documents its calls describe",
      "For every byte document and every sequence of reading calls (string/integer/real with or without bounds, pattern and length limits, the vector forms, expectString/expectInt/expectReal, space, newline, eof, noteof) the calls return exactly the values the document spells, and the first call the document does not conform to ends the program with the verdict configured for that stream after printing a message. A whitespace-sensitive stream demands exactly the separators the calls ask for, an insensitive one ignores the kind and amount of white space between tokens, and a case-insensitive stream compares and returns strings without regard to case. Out-of-range, malformed or non-representable numbers are never accepted as some other value.",
      ["inputs", "histories"], "every byte document and every sequence of reading calls, for both whitespace modes, both case modes and all verdicts",
      "The tests read a few fixed files with a fixed call sequence; acceptance has to be exact for every document (stray bytes, boundary numbers, missing or doubled separators, truncated files) and every order of calls.",
      [V], [("InputStream string/integer/real/space/newline/eof/noteof/expect*", V + " class InputStream"), ("token regular expressions and parse<T>", V + " INTEGER_REGEX, REAL_REGEX, details::parse")],
      ["return values", "exit verdict", "message stream"]),
    p("C02", "A validator process always ends with the verdict that was reached",
      "A real input validator, answer validator, output validator or interactor process ends with exit code 42, 43 or any other verdict the program printed, with 43 when the stream it judges (standard input) does not conform to the reading calls and with 1 when the test case or judge answer file does not conform; it never crashes, hangs or ends with another code, whatever bytes the files and standard input hold. Everything written to the jury and team streams before the end, and the message of a refused read, is in judgemessage.txt and teammessage.txt of the feedback directory (output validator, interactor) or on standard output (input and answer validator), and the interactor's messages to the team arrive on standard output. A process that misuses the library (missing arguments or files, reading from a stream that does not exist, never calling init) never ends with accept or reject.",
      ["inputs", "programs", "configurations"], "every content of test case, judge answer and standard input, every sequence of reading calls, messages and a final verdict, for each of the program kinds",
      "The tests replace the exit function and never run a real process; what a contest system relies on is the exit code and the files of the real process for arbitrary input.",
      [V], [("verdicts as stream manipulators, exitVerdict", V + " namespace Verdicts"), ("init of InputValidator, AnswerValidator, OutputValidator, Interactor, Generator", V + " end of file"), ("refusing reads", V + " InputStream::fail")],
      ["process exit code", "judgemessage.txt", "teammessage.txt", "standard output"]),
    p("C03", "Floating point comparison is exactly the documented tolerance rule",
      "Two reals are equal for the library iff both are NaN, both are the same infinity, or both are finite and differ by at most the absolute tolerance or by at most the relative tolerance times the magnitude of the expected value; the less and greater comparisons add exactly the values on the respective side. The one- and two-tolerance overloads replace exactly the tolerances given and use the program's settings for the rest. Every stream of every program kind compares with the tolerances in force for the program (set before init or on the command line): expectReal accepts exactly the equal values, and real(lower, upper) exactly the values in the range or equal to one of its ends.",
      ["inputs", "configurations"], "all pairs of reals (zero, tiny, huge, infinite, NaN, values at the tolerance boundary), all tolerances, all program kinds",
      "Tests compare a handful of values; an error at the boundary, a wrong sign, a wrong reference value or a tolerance which does not reach one of the streams shows only for specific values and configurations.",
      [V], [("floatEqual, floatLess, floatGreater", V + " namespace ValidateBase, details::floatEqual"), ("real(lower, upper), expectReal", V + " class InputStream"), ("tolerances handed to the streams", V + " init of the program kinds")]),
    p("C04", "Strict reals obey the grammar, the decimal count and the exact bounds",
      "A strict real is accepted iff it is an optional minus sign, an integer part without superfluous leading zeros and an optional point with digits, its number of digits after the point is in [minDecimals, maxDecimals), and its value lies in [lower, upper) without any tolerance. The returned value is the one the text denotes; the vector form reads exactly the given number of such tokens.",
      ["inputs"], "all tokens, bounds and decimal limits, single and vector form, any tolerance settings",
      "Tests sample a few tokens; the accepted language and the comparison at the bounds quantify over all of them.",
      [V], [("realStrict, realsStrict", V + " class InputStream"), ("STRICT_REAL_REGEX", V)]),
    p("C05", "Failure messages point at the offending text of repositionable input",
      "When a reading call refuses a text of a file or other repositionable input, the message names the line (counted from 1) and the offset within that line at which the refused token or white space begins, and shows an excerpt of that line of at most 80 characters with a marker line below it whose caret and tildes cover the refused text as far as it is shown. If a token does not match an expected string, both are named and the reported position is the first one where they differ. For any other input the message is still produced and not empty, and producing it never changes the verdict or crashes.",
      ["inputs"], "every document (long lines, many lines, long tokens, any bytes) and every refused call",
      "Position arithmetic (long tokens, far columns, last line without newline) needs all positions; tests look at one or two messages.",
      [V], [("position search and excerpt", V + " InputStream::fail"), ("expectString message", V + " InputStream::expectString")]),
    p("C06", "Command line arguments are found and converted exactly as documented",
      "For every argument vector a command (an argument starting with -- and longer than that) exists iff it occurs, its parameters are exactly the arguments up to the next command, and raw lookup finds the first occurrence of any argument followed by all arguments behind it; arguments are also accessible by position. Accessors return the selected parameter converted to string, integer or real (all of them, or the first N as a tuple), the given default iff the command or parameter is missing, and raise an error for malformed or non-representable numbers, for a missing value without default, for too few parameters and for positions out of range. A repeated command is an error.",
      ["inputs"], "all argument vectors and all queries, for every value type",
      "Tests use a few fixed argument vectors with well-formed values.",
      [V], [("CommandParser, Command, Parameter", V)]),
    p("C07", "Settings reach every stream with the documented precedence; runs are seeded",
      "After init, case and white space sensitivity of every stream of the program are those of its kind (input and answer validators: sensitive; output validators and interactors: as set by the program before init, insensitive by default, with test case and judge answer never white space sensitive), and flags and tolerances on the command line override settings made before. The random generator starts from the seed given with --seed and from one fixed default otherwise, so equal command lines give equal output. Changing a setting after init, a second init, and a program that never calls init are errors.",
      ["configurations", "histories"], "all combinations of settings before init, command line flags and tolerances in any order, and program kinds",
      "Tests initialise once with one configuration; precedence and propagation to each stream need the product of configurations.",
      [V], [("SettingBase, Setting, SettingCaseSensitive", V), ("ValidateBase::details::init and the init of each kind", V)]),
    p("C08", "The constraints file records exactly the bounds and the values seen",
      "For every sequence of bounded reads (or direct logs) under named constraints, the file given with --constraints_file holds at the end of the program, in order of first use, one line per constraint that logged at least one value: the name, whether the lower and whether the upper bound was ever attained, the smallest and largest value seen, and the smallest lower and largest upper bound used, where integer and length ranges are reported as closed intervals. Without that argument nothing is written, and logging values of different types under one name is an error.",
      ["histories"], "all sequences of logged integers, reals and lengths over any set of names, however the program ends",
      "Aggregation over all histories (min, max, attained flags, order of names) is a fold that a model decides; tests log a few values.",
      [V], [("Bounds, Constraint, ConstraintsLogger", V)]),
    p("C09", "Printed output is exactly the documented text",
      "Values written to an output stream or converted to a string appear as decimal integers, reals in fixed notation with the configured number of digits, true/false, characters and strings verbatim; pairs, tuples, arrays and containers (nested to any depth) print their elements separated by one space, and join prints its elements separated by exactly the given separator (none for the no-separator constant), with nothing before the first and after the last. An empty sequence prints nothing, and reading printed tokens back gives the printed values.",
      ["inputs"], "all values, containers, nestings and separators",
      "Tests print a few values; the format for all shapes of containers and the round trip are not covered.",
      [V], [("OutputStream, join, TempWriter", V)]),
    p("C10", "Multipass state survives exactly as written from pass to pass",
      "In a multipass validator the pass number is 0 in the first process and grows by one with every further process on the same feedback directory, and every process after the first reads exactly the state its direct predecessor wrote, never that of an older one. Ending a pass with NEXT exits with the accept code and leaves exactly the text written for the next pass in nextpass.in of the feedback directory; a pass that ends with another verdict does not create or change it.",
      ["histories"], "all histories of passes with arbitrary state and next-input contents and any way of ending a pass",
      "The property is about histories of process runs sharing a feedback directory; tests look at one or two passes.",
      [V], [("namespace Multipass", V), ("nextpass.in, .pass, .state0/.state1", V)]),
    p("C11", "Modular arithmetic is exact for all 64-bit operands",
      "applyMod, mulMod and powMod return the mathematically exact residue in [0, mod) for all 64-bit operands (non-negative exponents) and all positive moduli, and multInv returns the inverse in [0, mod) iff one exists; non-positive moduli and negative exponents are refused. The results do not depend on whether the compiler offers 128-bit integers. sign and dist return the sign and the absolute difference.",
      ["inputs"], "all 64-bit operands and moduli",
      "Overflow appears only for large operands, a handful of samples cannot exclude it.",
      [V], [("applyMod, mulMod, powMod, multInv, sign, dist", V)]),
    p("C12", "Primality is decided correctly and drawn primes are primes in range",
      "isPrime is correct for all 64-bit integers, primes(lower, upper) lists exactly the primes in [lower, upper) in increasing order, and a random prime is always a prime in the half-open range it was asked for, with every prime of the range possible. Asking for a prime in a range without primes raises an error.",
      ["inputs"], "all 64-bit integers and ranges",
      "Strong pseudoprimes, range ends and segment boundaries are not found by a few samples.",
      [V], [("isPrime, primes, Random::prime", V)]),
    p("C13", "Sequence predicates are exact and their witnesses are genuine",
      "The predicates for increasing, non-decreasing, decreasing and non-increasing order, for any/all/none of the adjacent pairs, for distinctness and for being a permutation (of consecutive numbers from an offset, or of another sequence) are true exactly when the definition holds, for iterator ranges and containers of any element type. When the answer comes with a reason, order and adjacency predicates give the position of the first pair that decides it, distinctness an element occurring twice, and a permutation of consecutive numbers an element that is out of range or repeated (of another sequence: an element of the first one).",
      ["inputs"], "all sequences, element types, predicates and offsets",
      "Tests use a few arrays; correctness at all lengths, positions and extreme values is universal.",
      [V], [("isPerm, anyAdjacent, noneAdjacent, allAdjacent, areIncreasing..., areDistinct", V)]),
    p("C14", "Text, number and container helpers compute what they document",
      "The alphabet constants, character classes and case conversions (for characters and whole strings, with the first offending character as reason) are the ASCII ones for all 256 byte values; string comparison with and without case reports equality and otherwise the position of the first difference; isInteger and isReal accept exactly the numbers of the documented grammar that are representable and give their value. range, thueMorse, append, contains, flatten, asFunction, the shorter/longer orders, the priority queue aliases and point conversions return the value of their definition for all arguments.",
      ["inputs"], "all strings over all byte values, all numbers and containers",
      "A few literal examples cannot cover bytes above 127, boundary numbers and empty arguments.",
      [V], [("isLower ... toDefaultCase, stringEqual, isInteger, isReal, range, thueMorse, append, flatten, asFunction", V)]),
    p("C15", "Polygon predicates decide convexity, orientation and simplicity exactly",
      "For every sequence of at least three lattice points within the supported coordinates (|x|, |y| < 2^30), isConvex holds iff the points are, in counter-clockwise order, the boundary of a convex polygon of positive area traversed exactly once (further points on its edges allowed, no two consecutive points equal), isStrictlyConvex iff additionally no three consecutive points are collinear, and isSimple iff no two edges touch except consecutive ones in their common vertex. isCCW of a simple polygon is the sign of its area, dot and cross products are exact for such coordinates, and points beyond them are refused.",
      ["inputs"], "all point sequences within the supported coordinates, as containers or iterator ranges of any point type",
      "Degenerate polygons (doubly traversed, spikes, touching vertices, collinear overlaps) and large coordinates are a big family; tests draw a few.",
      [V], [("isConvex, isStrictlyConvex, isSimple, isCCW, dot, cross", V)]),
    p("C16", "Random numbers always lie in the requested range",
      "Whatever 64-bit words the random engine delivers, a random bit, integer, real, minimum, maximum, minmax, bounded or unbounded normal, exponential, geometric or binomial number, weighted discrete choice and selected element lies in its documented (half-open) range, for every valid parameter including ranges spanning the whole integer type and ranges with a single value; in particular a real drawn from [0,1) is never 1. Empty ranges and invalid parameters raise an error instead of giving a number.",
      ["inputs", "schedules"], "all outputs of the random engine (including all-zero and all-one words) and all parameters",
      "With a real engine the extreme words never occur in a test, and tests sample few parameters.",
      [V], [("namespace Random: bit, integer, real, normal, exponential, geometric, binomial, minimum, maximum, minmax, discrete, select", V)]),
    p("C17", "Random sequences are valid instances of what was asked for",
      "For all valid parameters: distinct gives that many different integers of the range; perm a permutation of the range from the offset, with exactly the requested cycle lengths respectively with all requested fixpoints; multiple, increasing, decreasing, nonDecreasing and nonIncreasing sequences of the right length, range and order; partition that many summands of at least the minimum with the right sum; string only characters of the alphabet (a-z by default), bracketSequence a balanced sequence of n pairs. shuffle and rotate only rearrange (rotate by the returned amount to the left), select returns an element of the collection, and impossible parameters raise an error.",
      ["inputs", "schedules"], "all parameters and all random seeds or engine outputs",
      "Validity must hold for all parameters (tight ranges, huge offsets, extreme bounds) and all random choices; tests try a few.",
      [V], [("namespace Random: sequences and utility", V)]),
    p("C18", "Random generators have the documented distribution",
      "Integers, reals and bits, selected elements, shuffles, rotations, distinct sequences, permutations (plain, with given cycle type, with fixpoints), the ordered sequences, partitions with positive minimum, strings and bracket sequences are uniformly distributed over all possible results, and random trees over all labelled trees. discrete chooses with probability proportional to the weights; minimum and maximum are distributed like those of n uniform draws; normal, exponential, geometric and binomial numbers have the stated mean, spread and distribution (restricted to the bounds where bounds are given, which for exponential and geometric numbers start at a non-negative lower bound).",
      ["inputs", "schedules"], "all parameters, over the random seeds",
      "A biased shuffle, modulo bias or a wrong scale parameter yields plausible single results; only statistics over many samples and many parameters decide.",
      [V, GG], [("namespace Random", V), ("randomTree", GG)]),
    p("C19", "Equal seeds give equal results with every compiler",
      "After the same seed, every function of the random generation library and of the graph generators returns the same sequence of results, whatever compiler (gcc, clang), optimisation level, language standard and word size the program is built with and however the algorithms of the standard library resolve what the standard leaves open, and independent of what ran before seeding. Different programs that draw in the same order see the same values.",
      ["inputs", "configurations"], "all seeds, all sequences of calls and parameters, all supported compilers and build modes",
      "Tests run one build; dependence on evaluation order, integer width or library facilities appears only between builds.",
      [V, GG, R, S], [("own implementations of all distributions instead of std ones", V + " namespace Random")]),
    p("C20", "Random point sets satisfy their geometric promise",
      "For all dim and 3 <= n <= 4*dim-4, convex(n, dim) gives n points with coordinates in (-dim, dim) that form, in counter-clockwise order, a convex polygon of positive area filling the full width and height of that square, and nonCollinearPoints(n, dim) gives n different points with coordinates in (-dim, dim) of which no three are collinear. Both work for every point type and raise an error for parameters beyond the documented limits. (convex accepts larger n, for which it repeats failed attempts practically forever; nothing is claimed for them.)",
      ["inputs", "schedules"], "all n, dim and seeds",
      "Small dims, extremes of n and unlucky random choices are rare in a test with one seed.",
      [V], [("Random::convex, Random::nonCollinearPoints", V)]),
    p("C21", "Generated graph objects behave like a simple edge map",
      "Under every history of adding, overwriting, finding and erasing edges and shifting ids, an undirected or directed graph of the generator library (with or without edge data) holds exactly the edges of a map from vertex pairs to data: finding, hasEdge, degrees, counts, iteration over all edges or those at a vertex, access by edge id the reversed view of undirected edges and the printed form (counts, then one edge with its data per line) agree with it after every step. Data written through an edge is visible from both end points of an undirected edge, and setMinId, normalize and getNextId shift all ids consistently.",
      ["histories"], "all histories of mutations and queries on Graph and DiGraph, with and without edge data",
      "Tests run short scripts; index bookkeeping on erase (moving the last edge) and self loops fails only for particular histories.",
      [GG], [("class Graph/DiGraph, addEdge, eraseEdge, findEdge, getEdges, setMinId", GG)]),
    p("C22", "Graph operations compute their textbook definitions",
      "combine, append, range, complement, permutate, permutateEdges, tensor, cartesian and strong product, line graph, power, transitive closure, directed, undirected and reverse yield exactly the vertices, edges and data their definition prescribes, for directed and undirected graphs with any smallest id. Operations documented to return a new graph leave their operands unchanged, and permutations only rename vertices or reorder edges.",
      ["inputs"], "all graphs, directed or not, with or without data, and any vertex numbering",
      "Definitions quantify over all vertex pairs of arbitrary graphs; tests check a few examples.",
      [GG], [("Graph operations", GG)]),
    p("C23", "Named graph families have exactly the documented structure",
      "For every size, independent, clique, bipartite, path, cycle, star, wheel, lolly, broom, grid, hypercube, booleanLattice, rado and completeTree (undirected and directed versions) have exactly the documented vertices, edges and edge directions, and completeTree numbers subtrees consecutively from root 0. ffWorstcase(n) has 2n vertices, a maximum flow of 2^(n-1) from 0 to 2n-1 and needs that many augmentations of a depth first search following its edges in order; mcmfWorstcase(n) is Zadeh's network with 2n+2 vertices, whose maximum flow 2^n+2^(n-2)-2 (n > 1) from 0 to 2n+1 needs that many successive shortest paths. Sizes out of bounds raise an error.",
      ["inputs"], "all sizes and template variants",
      "Tests look at single sizes of some families.",
      [GG], [("generator functions independent ... mcmfWorstcase", GG)]),
    p("C24", "Random graphs satisfy their parameters",
      "For all parameters and seeds, randomTree is a tree on [0,n) (directed: with edges away from root 0), randomGraph and randomBipartite with an edge count have exactly that many edges, without self loops or multi-edges and between the documented vertices, those with a probability contain each possible edge with that probability (none for 0, all for 1), randomGrowingGraph is a simple graph on [0,n), and randomGraph with a degree sequence realises exactly that sequence, whatever number of flips, for every realisable sequence. Impossible parameters raise an error.",
      ["inputs", "schedules"], "all parameters and seeds, directed and undirected",
      "Boundary parameters (0, maximal edge counts, forced degree sequences) and all random choices are out of reach of single examples.",
      [GG], [("randomTree, randomGraph, randomBipartite, randomGrowingGraph", GG)]),
    p("C25", "Graph validation answers agree with brute force on every graph",
      "For every sequence of added edges (self loops and multi-edges included) on any vertex range, hasEdge, neighbours, degrees, counts, hasSelfloop, hasMultiedge, isConnected, isForest, isTree, isBipartite and areConnected of undirected graphs, and hasEdge, hasReverse, in/out neighbours and degrees, hasSelfloop, hasMultiedge, isDAG and isTree of directed graphs give the mathematically right answer at every point of the history. Witnesses are genuine: a self loop vertex has one, a multi-edge occurs twice, a topological order contains every vertex once and respects every edge, a root reaches every vertex of a directed tree. Degrees count different neighbours. UnionFind connects exactly the united elements.",
      ["histories", "inputs"], "all histories of edge insertions interleaved with queries",
      "Incremental bookkeeping (union-find with parity, edge counters) is right for all histories or wrong for special ones; tests check a few small graphs.",
      [GV], [("Graph, DiGraph, UnionFind", GV)]),
    p("C26", "The AES generator is real AES-256 in counter mode",
      "For every key and block the block cipher output equals AES-256 as standardised (at run time and in constant expressions). The random generator built on it increments a 128-bit little endian counter, starting from the given initial value and carrying across all bytes, before each number, and returns the exclusive or of the two little endian 64-bit halves of its encryption; a 64-bit seed selects digits of pi as key and initial value, with the seed combined into the low half of the latter. Equal seeds give equal streams, copies continue independently and identically, and the generator can drive the random library as its RandomEngine.",
      ["inputs", "histories"], "all keys, blocks, initial counter values and numbers of draws",
      "Known-answer tests cover a few vectors; carries across counter bytes and table errors for single byte values need many.",
      [S], [("class AES, class AES_RNG", S)]),
    p("C27", "The xoshiro generator matches its specification",
      "For every 256-bit state the generator returns the words of xoshiro256** and jump advances it exactly as 2^128 calls do; the documented min and max are 0 and 2^64-1. A 64-bit seed gives the state of digits of pi combined with the seed by exclusive or, after one jump, and never the all-zero state. Equal seeds or states give equal streams, copies continue identically and independently, and the generator can drive the random library as its RandomEngine.",
      ["inputs", "histories"], "all states, seeds and interleavings of draws and jumps",
      "A few golden values fix neither the jump polynomial nor rotations for all states.",
      [R], [("class Xoshiro256ss", R)]),
    p("C28", "Written PNG files decode to exactly the drawn image",
      "For every image size and pixel content the file written (explicitly or when the image object ends) is a valid PNG: signature, header with the true width and height, correct chunk lengths and checksums, a well-formed compressed stream with correct checksum and block structure, and nothing after the end chunk. Decoding it with an independent decoder gives exactly the width, height and RGBA value of every pixel of the image.",
      ["inputs"], "all image sizes (including one pixel wide or high, rows crossing block boundaries, empty images) and pixel contents",
      "Tests compare few images; block boundaries and checksums depend on the sizes and bytes.",
      [P], [("PNG writer: chunks, CRC, Adler, stored blocks", P)]),
    p("C29", "PNG drawing primitives touch exactly the right pixels",
      "clear, pixel access, fillRectangle (with and without border, corners in any order), floodFill and drawLine change exactly the pixels of their definition (the closed rectangle, the 4-connected area of equal colour, a connected line from one end point to the other within half a pixel of the ideal one) with every blend mode, and leave all others as they were; the colour is the one given at the call, also when it is a pixel of the image itself. Colour arithmetic (addition, subtraction, scaling, interpolation, blending) works per channel and clamps to [0,255] instead of wrapping.",
      ["inputs", "histories"], "all images, sequences of drawing calls, colours, factors and blend modes",
      "Tests draw a few shapes; corner orders, overlaps and clamping at all values need generation.",
      [P], [("Color, PNG::fillRectangle, floodFill, drawLine, blend modes", P)]),
    p("C30", "SVG output is well-formed and contains every drawn object",
      "For every sequence of drawn objects the written SVG is well-formed XML with the elements in drawing order, each with the given geometry, colours, stroke and fill attributes, and its view box (with the y axis flipped) is the smallest which contains the origin, every drawn object (circles and ellipses by their radii, without strokes) and every explicitly included point, otherwise changed only by the program itself (moving, resizing), however the objects are chained in an expression. Geometry is given to six significant digits. The image may be written explicitly or when the object ends, with the same result, and colours, points and dimensions obey their documented arithmetic.",
      ["inputs", "histories"], "all sequences of drawn objects and attribute values",
      "Bounding box maintenance and attribute output depend on all orders and signs of coordinates; tests draw one picture.",
      [SV], [("class SVG, shapes, attributes", SV)]),
    p("C31", "Compile-time settings replace their default everywhere",
      "A program that defines precision, tolerance, default case, large constant, random engine or exit method in namespace Settings before including the library behaves like one with the default settings except for exactly that value. Reals are printed with that precision on every stream, in every string conversion and in the constraints file, comparisons, streams and constraints use that tolerance unless given others, case-insensitive reading returns tokens in that case. Every verdict ends the program through that exit method, and random numbers come from that engine.",
      ["inputs", "configurations"], "all settings, with all inputs and uses of the library",
      "The tests are compiled with one choice of settings; a constant used instead of the setting shows only in a program that replaces it.",
      [V, "doc/validate.advanced.md"], [("namespace Settings", V)]),
    p("C32", "No call waits for more input than it needs",
      "A reading call asks its source for no character beyond those it is defined by: a token call skips white space as far as the mode allows and looks at the token and the one character behind it, space and newline look at one character in sensitive mode and at none otherwise, noteof and eof look at one character (after white space in insensitive mode), a vector call does this for its elements and separators only, and creating, moving or ending a stream reads nothing. This also holds for refused reads: message and verdict need no further input from a source that cannot be repositioned. So a program that talks to another one through pipes goes on, and ends with its verdict, as soon as what it needs has arrived, and all it wrote to the team has been delivered before it waits.",
      ["schedules", "inputs"], "all documents, calls, modes and arrival schedules of the input",
      "Tests read complete files; waiting for one character too many only shows as a deadlock with a live partner.",
      [V], [("InputStream reading calls, fail()", V), ("Interactor::toTeam, fromTeam", V)]),
    p("C33", "Calls outside of a function's domain raise an error, calls at its border do not",
      "A call with arguments for which the library defines no result raises an exception and neither returns a value nor ends the program with a verdict, and the same call with arguments inside of the domain, up to its very border, is not refused. This concerns moduli and exponents, empty ranges, step zero, negative or NaN tolerances, coordinates beyond 2^30-1, every random function (empty or infinite ranges, probabilities and parameters of distributions, counts which do not fit, empty containers and alphabets, sizes beyond the limits, ranges without primes), names and expected strings that are empty or hold white space, separators, positions, missing or repeated commands, values of another type, files that cannot be opened, reading from a stream that was never given a text, settings changed after init, and graphs (vertices, edges, self loops, vertex ranges, permutations, edge counts, probabilities, degree sequences). A refused call has no effect on the settings or the graph.",
      ["inputs"], "all functions with a restricted domain, all arguments inside, outside and at the border",
      "Tests call functions with sensible arguments; a wrong or missing check shows only one step beyond the border, and then as a silently wrong test case.",
      [V, GG], [("judgeAssert", V), ("assertNode, judgeAssert", GG)]),
    p("C34", "What a generator prints, a strict validator accepts, reads back and confirms",
      "A document printed through an output stream (integers, reals with a fixed number of decimals, strings, sequences joined by spaces or newlines, nested containers, pairs and tuples, points and whole graphs) is accepted by an input stream that is sensitive to case and white space and reads the same things in the same order with bounds that contain the values, and the values read are the ones printed. It is refused as soon as one bound, length, number of decimals or expected value excludes what was printed, and after any change of its white space, truncation, addition, or leading zero or plus sign of a number. What generator functions promise is confirmed by the validation functions on what was read: permutations, distinct and ordered sequences, primes, partitions, cycle lengths, alphabets, bracket sequences, convex polygons in counter clockwise order, points without three on a line, and graphs whose neighbours, degrees, edge count, connectedness, cycles, trees and roots, bipartiteness and topological orders according to graph_val.h are those of the generated graph and its family, before and after renumbering, permuting, reversing and directing it.",
      ["inputs", "programs"], "all lists of printed values and the reading calls that fit them, all generator functions with their parameters and seeds",
      "Tests check the reading side only and never a generator against a validator; each side can be consistent with itself while the two do not fit together.",
      [V, GG, GV], [("OutputStream, join", V), ("InputStream", V), ("Random", V), ("operator<< of graphs", GG), ("Graph, DiGraph", GV)]),
]
