"""What each check builds, runs and claims."""
from util import Build

CORE = ["int", "long long", "float", "double"]
FLOATS = ["float", "double"]
EXOTIC = ["short", "signed char", "unsigned char", "unsigned", "long double"]


def tid(t):
    return t.replace(" ", "_").replace("std::complex<", "c").replace(">", "").replace("::", "_")


def d(**kw):
    return ["VMC_%s=%s" % (k, v) for k, v in kw.items()]


CHECKS = {}


def check(prop, bounds, assumptions=(), level="model_checking", technique=None, note=None, **kw):
    def deco(fn):
        CHECKS[prop] = dict(run=lambda ctx, spec: fn(ctx), level=level, bounds=bounds, assumptions=list(assumptions),
                            technique=technique, note=note, **kw)
        return fn
    return deco


ROUND = "the floating point environment is round-to-nearest without contraction of a*b+c (-ffp-contract=off)"


def cplx(prop):
    """complex elements, where an operation takes them"""
    return [Build("c%02d_complex_%s" % (prop, t), "cplx.cpp", ["VMC_T=std::complex<%s>" % t, "VMC_PROP=%d" % prop], core=False) for t in ("double", "float")]


def sizes(prop, slices=2, types=None):
    """every length of lines and thin matrices, every square size, exactly"""
    return [Build("c%02d_sizes_%s_%d" % (prop, tid(t), k), "sizes.cpp", ["VMC_T=" + t, "VMC_PROP=%d" % prop, "VMC_SLICE=%d" % k, "VMC_SLICES=%d" % slices]) for t in (types or CORE) for k in range(slices)]


def part9(src, slices=2):
    """every size, in harnesses of their own"""
    return [Build("%s_p9_%s_%d" % (src[:3], tid(t), k), src, d(T=t, PART=9, SLICE=k, SLICES=slices)) for t in CORE for k in range(slices)]


@check("C01",
       bounds={"quick": "17 forms of the operations; shapes r x c for r,c in 1..6 and 27 larger up to 300x300 and 65537x1; 4 core and 5 further element types; "
                        "per shape all valuations over a boundary alphabet (27-52 values) or bases with <=2 (<=1) deviating elements; the same object as both operands; "
                        "all values of 8/16-bit types, 6M values of 32-bit types",
               "thorough": "as quick with up to 3M two-deviation cases per shape and all 2^32 values of the 32-bit types with every alphabet scalar"},
       assumptions=[ROUND, "element positions are independent of each other except in the patterns enumerated (at most two deviating elements in large shapes)"],
       technique="exhaustive bounded enumeration of operand valuations on the real code against scalar reference semantics",
       note="Every operation is run on every valuation of the bounded operand space and compared bit for bit with scalar arithmetic.")
def c01(ctx):
    bs = []
    for t in CORE:
        bs.append(Build("c01_shapes_" + tid(t), "c01.cpp", d(T=t, PART=0), workers=3))
    for t in ["short", "signed char", "unsigned char", "unsigned"]:
        noabs = ["VMC_NO_ABS"] if t.startswith("unsigned") else []
        bs.append(Build("c01_values_" + tid(t), "c01.cpp", d(T=t, PART=1) + noabs, opt="-O2", core=False))
    for t in ["long double", "unsigned short"]:
        noabs = ["VMC_NO_ABS"] if t.startswith("unsigned") else []
        bs.append(Build("c01_shapes_" + tid(t), "c01.cpp", d(T=t, PART=0) + noabs, core=False))
    for t in ["int", "float"]:
        bs.append(Build("c01_values_" + tid(t), "c01.cpp", d(T=t, PART=1), opt="-O2", workers=1 if ctx.tier == "quick" else 8))
    ctx.explore(sizes(1) + bs + cplx(1))


@check("C02",
       bounds={"quick": "all n,m,p in 1..5; n x n, 1 x n x 1, n x 1 x n, 2 x n x 3 for 26 sizes n up to 129, lines up to 70000; bases with <=2/<=1 deviations, all pairs of unit matrices "
                        "(or each unit matrix times a distinct one); the same object as both operands; infinities and NaN in 96 shapes; 2x2 product and strassen over all 7^8 valuations of two alphabets",
               "thorough": "as quick with 25-75 times the work per shape"},
       assumptions=[ROUND, "signed overflow is outside the domain"],
       technique="exhaustive bounded enumeration of operand valuations on the real code against the row-by-column definition",
       note="Exact comparison for integers and integer-valued floats, forward error bound otherwise.")
def c02(ctx):
    bs = []
    for t in CORE:
        bs.append(Build("c02_large_" + tid(t), "c02.cpp", d(T=t, PART=1), workers=2))
        bs.append(Build("c02_small_" + tid(t), "c02.cpp", d(T=t, PART=0)))
        bs.append(Build("c02_2x2_" + tid(t), "c02.cpp", d(T=t, PART=2)))
    bs.append(Build("c02_2x2_unsigned", "c02.cpp", d(T="unsigned", PART=2), core=False))
    for t in ["short", "unsigned", "long double"]:
        bs.append(Build("c02_small_" + tid(t), "c02.cpp", d(T=t, PART=0), core=False))
    bs.append(Build("c02_2x2_long_double", "c02.cpp", d(T="long double", PART=2), core=False))
    ctx.explore(sizes(2) + bs + cplx(2))


ENUM = "exhaustive bounded enumeration of operand valuations on the real code against "
FITS = "results that do not fit the element type are outside the domain"


def simple(ctx, src, parts, types=(), exotic=(), opt=None, workers=None):
    """one executable per part and type; workers: {part: n}"""
    bs = []
    for p in parts:
        w = (workers or {}).get(p, 1)
        for t in types:
            bs.append(Build("%s_p%d_%s" % (src[:3], p, tid(t)), src, d(T=t, PART=p), workers=w, opt=opt))
        for t in exotic:
            bs.append(Build("%s_p%d_%s" % (src[:3], p, tid(t)), src, d(T=t, PART=p), workers=w, opt=opt, core=False))
    return bs


@check("C03",
       bounds={"quick": "division of 50 shapes up to 257x257 and 65537x1 by every scalar of the boundary alphabet with every position of an offending element; "
                        "inv and negative pow of 1x1..4x4 over small alphabets (complete), structured singular and barely regular matrices up to 12x12; all sequences of 4 calls over 16 (throwing and not throwing)",
               "thorough": "as quick with wider alphabets"},
       assumptions=[ROUND],
       technique=ENUM + "the division-by-zero rule; exhaustive enumeration of call sequences",
       note="How each call ends (result, std::overflow_error, anything else) is decided for every case of the space; after a throw the operands are compared with their earlier contents.")
def c03(ctx):
    bs = simple(ctx, "c03.cpp", [0], CORE, workers={0: 2}) + simple(ctx, "c03.cpp", [1], CORE) + simple(ctx, "c03.cpp", [2], CORE)
    bs += simple(ctx, "c03.cpp", [0], [], exotic=["unsigned", "unsigned char", "short", "unsigned long long", "long double"]) + simple(ctx, "c03.cpp", [1, 2], [], exotic=["long double", "short"])
    ctx.explore(sizes(3, 1) + bs)


@check("C04",
       bounds={"quick": "1x1..3x3 over alphabets with 2.5 M valuations; all {-1,0,1} 4x4 matrices (43 M) for 4 types; all {0,1} 5x5 matrices (33 M, double); "
                        "all row or column permutations of triangular matrices up to 7x7, <=2/<=1 deviations from 11 structured matrices up to 12x12, sizes up to 65, magnitudes to both ends of the exponent range; 2x2, 4x4 and 5x5 integers to the limits of 6 integer types (permuted diagonals and deviations over limit values)",
               "thorough": "as quick with larger alphabets"},
       assumptions=[ROUND, FITS, "for n >= 4 in floating types the tolerance is a forward error bound relative to Hadamard's bound"],
       technique=ENUM + "the exact integer determinant (Leibniz and Bareiss in 128 bits)",
       note="Exact for integers and for floats where every intermediate value is exact, error bound otherwise.")
def c04(ctx):
    bs = simple(ctx, "c04.cpp", [1], CORE, workers={1: 4}, opt="-O2") + simple(ctx, "c04.cpp", [0, 2], CORE, exotic=["short", "long double"], workers={0: 3}) + simple(ctx, "c04.cpp", [0], [], exotic=["signed char", "unsigned"])
    ctx.explore(bs + cplx(4))


@check("C05",
       bounds={"quick": "2x2, 3x3 over small and boundary alphabets; all {-1,0,1} 4x4 matrices (43 M, double); all row permutations of band and triangular matrices up to 6x6, all unimodular products of small triangular factors, <=2/<=1 deviations from structured matrices up to 10x10, sizes up to 33, magnitudes to the smallest and largest determinants of the type",
               "thorough": "as quick with larger alphabets"},
       assumptions=[ROUND, FITS, "tolerances scale with the condition number of the matrix; matrices too close to singular for the type are outside the domain"],
       technique=ENUM + "the adjugate over the exact integer determinant and by A*inv(A)",
       note="A*inv(A) and inv(A)*A against the identity within a condition-dependent bound, exact where the inverse is exact.")
def c05(ctx):
    bs = simple(ctx, "c05.cpp", [1], ["double"], workers={1: 8}, opt="-O2") + simple(ctx, "c05.cpp", [0], ["double", "float", "int"], exotic=["long double", "long long"], workers={0: 2})
    bs += simple(ctx, "c05.cpp", [2], ["double", "float", "int"], exotic=["long double", "long long"])
    ctx.explore(bs)


@check("C06",
       bounds={"quick": "all factor pairs of 1x1..3x3 (and {0,1} 4x4) over small integers at 11 magnitudes, bases with <=2/<=1 deviations up to 33x33, every pivot position with 28 pivot values up to 32x32; all small-integer matrices up to 3x3 and {0,1} 4x4, real-valued families up to 128x128", "thorough": "as quick with larger alphabets"},
       assumptions=[ROUND, "an elimination that overflows the element type (growth without pivoting) is not judged"],
       technique=ENUM + "the defining equations of the Doolittle factors",
       note="Triangularity, the unit diagonal and zeros exactly; L*U against A within a backward error bound.")
def c06(ctx):
    ctx.explore(simple(ctx, "c06.cpp", [0], FLOATS, exotic=["long double"], workers={0: 3}))


@check("C07",
       bounds={"quick": "chol: L*trans(L) for all lower factors over small alphabets up to 5x5 (with magnitudes to 2^+-900), <=2/<=1 deviations up to 33x33, diagonally dominant matrices up to 128x128; "
                        "isSymetric: all small-alphabet matrices up to 4x4, every single (and up to 20x20 double) asymmetry position up to 65x65, single ones to 300x300",
               "thorough": "as quick with larger alphabets"},
       assumptions=[ROUND, "positive definite matrices whose definiteness survives rounding in the element type"],
       technique=ENUM + "the defining equations of the Cholesky factor and the definition of symmetry",
       note="Exact where every root and quotient is exact, backward error bound otherwise.")
def c07(ctx):
    ctx.explore(simple(ctx, "c07.cpp", [0], ["double", "float"], exotic=["long double"]) + simple(ctx, "c07.cpp", [1], ["double", "float", "int", "long long"], exotic=["unsigned", "std::complex<double>"]))


@check("C08",
       bounds={"quick": "1x1..16x16, exponents -40..70, up to 2^63-1 and the smallest of 9 exponent types; small alphabets complete up to 3x3; nilpotent, unipotent, permutation and diagonal families for the large exponents",
               "thorough": "as quick with larger alphabets"},
       assumptions=[ROUND, FITS],
       technique=ENUM + "repeated multiplication",
       note="Exact as long as values fit, error bound otherwise.")
def c08(ctx):
    ctx.explore(simple(ctx, "c08.cpp", [0], CORE, exotic=["short", "long double"]))


@check("C09",
       bounds={"quick": "trans: all shapes r x c for r,c <= 8 and 130 larger to 300x300 and 65537x1; swaps: all shapes to 8x8 and 60 larger to 65x65 with every pair of indices; minors: 24 sizes to 257 (every index pair to 33); distinct contents and <=2/<=1 deviations over the boundary alphabet",
               "thorough": "as quick with two deviations"},
       technique=ENUM + "index maps",
       note="Elements only move, so matrices with pairwise distinct contents decide each index map for the shape; deviations cover value-dependent behaviour.")
def c09(ctx):
    bs = simple(ctx, "c09.cpp", [0, 1, 2], CORE, exotic=[])
    bs += simple(ctx, "c09.cpp", [0, 1, 2], [], exotic=["std::complex<double>"]) + simple(ctx, "c09.cpp", [2], [], exotic=["signed char"]) + simple(ctx, "c09.cpp", [0, 1], [], exotic=["long double"]) + simple(ctx, "c09.cpp", [1], [], exotic=["unsigned char"])
    ctx.explore(sizes(9) + bs)


@check("C10",
       bounds={"quick": "all pairs of shapes to 6 that share a dimension, both orders, 26 square sizes to 257 and 42 larger pairs to 65537 rows; both operands the same object; distinct contents and <=2/<=1 deviations", "thorough": "as quick with two deviations"},
       technique=ENUM + "index maps",
       note="Elements only move; both halves of the result pair are compared for square operands.")
def c10(ctx):
    ctx.explore(simple(ctx, "c10.cpp", [0], CORE, exotic=["short", "std::complex<double>", "long double", "unsigned char"]) + sizes(10))


@check("C11",
       bounds={"quick": "images 1x1..6x6 (valid from 3x3) and 74 larger to 100x100 and 300x1, three modes; all pairs of unit images and unit kernels, bases with deviations, {0,1} images up to 3x3 with all {0,1} kernels; image and kernel the same object",
               "thorough": "as quick with more deviations"},
       assumptions=[ROUND, FITS],
       technique=ENUM + "the convolution sum",
       note="The operation is bilinear, so all pairs of unit operands fix it on each shape; deviations cover value-dependent behaviour.")
def c11(ctx):
    ctx.explore(simple(ctx, "c11.cpp", [0], CORE, exotic=["short", "long double"]) + cplx(11) + sizes(11))


@check("C12",
       bounds={"quick": "all shapes to 6x6 and larger to 300x300; all valuations over 3-9 values for up to 9 elements, every value at every place, every count of a value up to 90000, up to 66049 different keys", "thorough": "as quick with larger alphabets"},
       assumptions=["no NaN among the elements (not an ordered key)"],
       technique=ENUM + "counting",
       note="The returned maps are compared entry by entry, cumulative against prefix sums in key order.")
def c12(ctx):
    ctx.explore(part9("c12.cpp") + simple(ctx, "c12.cpp", [0], CORE, exotic=["unsigned char", "long double", "short"]))


@check("C13",
       bounds={"quick": "all shapes to 6x6 and 80 larger to 300x300; all small-alphabet valuations to 9 elements, common offsets to 2^48, every position of a deviation; integer means to the limits of 7 types, with more elements than the type can count",
               "thorough": "as quick with more deviations"},
       assumptions=[ROUND, FITS],
       technique=ENUM + "exact sums in extended precision",
       note="Integer means exactly; floating statistics within a bound relative to the deviations.")
def c13(ctx):
    ctx.explore(part9("c13.cpp") + simple(ctx, "c13.cpp", [0], CORE, exotic=["short", "long double", "unsigned", "signed char", "unsigned char"]) + cplx(13))


@check("C14",
       bounds={"quick": "all permutations of distinct contents to 9 elements and all small-alphabet valuations; every shape to 6x6 and 95 larger to 300x300 and 70001x1, every position of extreme elements",
               "thorough": "as quick with more"},
       technique=ENUM + "the order statistic",
       note="All element orders up to 9 elements (9! permutations) are enumerated, so the result cannot depend on where an element stands in those shapes.")
def c14(ctx):
    ctx.explore(part9("c14.cpp") + simple(ctx, "c14.cpp", [0], CORE, exotic=["unsigned", "signed char", "long double", "short", "unsigned char"]))


@check("C15",
       bounds={"quick": "compare: shapes to 5x5 and 44 larger to 257x257 and 65537x1, 27 tolerances (negative and infinite included), 8 element types to their limits, operands exchanged and the same object, every position of every delta around the tolerance, pairs of deltas to 6 elements; isIdentity: 30 sizes to 300, every position (pair) of every boundary value",
               "thorough": "as quick with pairs to 16 elements"},
       assumptions=["differences whose rounding decides the comparison are not judged"],
       technique=ENUM + "the predicate's definition in extended precision",
       note="Both answers are decided, at every position.")
def c15(ctx):
    ctx.explore(simple(ctx, "c15.cpp", [0], CORE, exotic=["long double", "unsigned", "signed char", "unsigned char"], workers={0: 2}) + simple(ctx, "c15.cpp", [1], CORE + ["unsigned"], exotic=["signed char", "bool", "long double"]) + cplx(15) + sizes(15, 1))


@check("C16",
       bounds={"quick": "shapes 1..8 x 1..8 and 20 larger to 300x300 and 65537x1, 31 square sizes to 300, 9 element types, every alphabet value, three memory paintings; all sequences of 3 of 36 constructor calls",
               "thorough": "all sequences of 4 constructor calls"},
       technique=ENUM + "the stated contents; exhaustive enumeration of call sequences",
       note="Results are constructed in memory and on stacks painted with junk; result types are compared with the stated ones.")
def c16(ctx):
    ctx.explore(part9("c16.cpp", 4) + simple(ctx, "c16.cpp", [0], CORE + ["unsigned", "short", "unsigned char"], exotic=["long double", "std::complex<double>"]) + simple(ctx, "c16.cpp", [1], CORE))


@check("C17",
       bounds={"quick": "6144 stream format states (base, float format, adjustment, showpos/showbase/uppercase/showpoint/boolalpha, 8 precisions, fill, two locales) on small shapes; "
                        "shapes 1..6 x 1..6 and larger with every boundary value at every place; all pairs of 30 prints",
               "thorough": "as quick, two deviating elements, all triples of prints"},
       assumptions=["no field width is set when print is called"],
       technique="exhaustive enumeration of stream format states, shapes, values and print sequences on the real code against the stream's own formatting of single elements",
       note="The bytes that reach std::cout are captured at its stream buffer and compared exactly; the format state is compared afterwards.")
def c17(ctx):
    ctx.explore(simple(ctx, "c17.cpp", [0], [], exotic=["long double"], workers={0: 8}) + part9("c17.cpp") + simple(ctx, "c17.cpp", [0], ["double", "float"], exotic=["std::complex<double>"], workers={0: 4})
                + simple(ctx, "c17.cpp", [0], ["int", "long long"], exotic=["signed char", "unsigned char", "bool", "unsigned", "short"], workers={0: 2}))


SMALL = ["shape<%d,%d>();" % (r, c) for r in range(1, 7) for c in range(1, 7)]
LARGE = ["shape<%d,%d>();" % s for s in [(7, 7), (8, 8), (9, 9), (12, 12), (1, 17), (17, 1), (16, 16), (3, 20), (33, 33), (64, 64), (65, 3)]]
HUGE = ["shape<%d,%d>();" % s for s in [(100, 100), (128, 128), (2, 300), (256, 256), (3000, 1), (1, 3000), (320, 330)]]


def chunks(x, n):
    return [x[k::n] for k in range(n)]


@check("C18",
       bounds={"quick": "about 600 operations x shapes (12 shapes up to 9x9 and 2x17; and 8 shapes of float, double, int and long long mixed in one process), 24-47 argument sets each (singular before and after an exchange of rows, rounded, far larger elements, one element changed ...); every call as first call of a fresh process; all triples of argument sets of one operation (26 sets), "
                        "all ordered pairs of 4-10 calls per operation and shape, all 3-call openings of a fresh process over 2x2/3x3/4x4, 70000 or 3000 repetitions; "
                        "a register machine over two 2x2 registers modulo 5: all 390625 reachable states x 29 commands",
               "thorough": "all argument sets in triples, a third of all calls and all special ones in pairs, openings across shapes"},
       assumptions=["results are compared by a 64-bit hash of their exact contents", "state kept by the library survives from call to call, so a history is also judged after all histories explored before it in the same process"],
       technique="exhaustive enumeration of call histories on the real code against fresh-process results; explicit-state search of a register machine over the real operations",
       note="Any dependence on earlier calls, on the object's address or on left-over state within these histories shows as a difference from the result of the same call in a fresh process.")
def c18(ctx):
    types = ["double", "int"] if ctx.tier == "quick" else CORE
    bs = [Build("c18_histories_" + tid(t), "c18.cpp", d(T=t, PART=0), workers=4 if ctx.tier == "quick" else 8) for t in types]
    bs.append(Build("c18_histories_mixed", "c18.cpp", d(T="double", PART=0) + ["VMC_MIXED"], workers=4 if ctx.tier == "quick" else 8))
    bs += simple(ctx, "c18.cpp", [1], CORE)
    ctx.explore(bs)


TSAN = ["-std=c++17", "-O1", "-w", "-ffp-contract=off", "-fsanitize=thread", "-ftemplate-depth=2000"]


@check("C19",
       bounds={"quick": "two threads; all ordered pairs of the 42-62 operations on 2x2, 3x3 and 2x3, each operation against itself on 11 larger shapes up to 24x25; 4 argument sets, shared or different, with and without an earlier call; "
                        "all schedules with <=2 preemptions at conflicting accesses and synchronisation operations (up to 2000 per pair, 200 and 40 after 30000 and 60000 schedules of a worker), serial schedules and a switch at every access for every pair; pairs with conflicts also with 2, 5, 9 and 17 calls in one thread, 3 calls in both, and a third thread",
               "thorough": "<=3 preemptions, up to 40000 schedules per pair, four element types"},
       assumptions=["results are explored under sequentially consistent memory; unordered conflicting accesses are violations by themselves", "code inside the C++ library's shared object and libc runs without interruption", "accesses to a thread's own stack are private"],
       technique="stateless model checking of the compiled operations: controlled scheduler over instrumented memory accesses, conflict-based reduction, preemption bound; happens-before race detection on every schedule",
       note="Calls without conflicting accesses have one schedule up to commutation; the reduction is recomputed from the accesses actually seen on every run.")
def c19(ctx):
    small, large = "shape<2,2>(); shape<3,3>(); shape<2,3>();", "shape<1,1>(); shape<4,4>(); shape<5,5>(); shape<1,6>(); shape<7,2>(); shape<8,8>(); shape<11,11>(); shape<17,17>(); shape<33,2>(); shape<2,65>(); shape<24,25>();"
    bs = []
    for t in (["double", "int"] if ctx.tier == "quick" else CORE):
        for tag, shapes in (("small", small), ("large", large)):
            bs.append(Build("c19_%s_%s" % (tag, tid(t)), "c19_rt.cpp", [], cxx="clang++", link=["-ldl"], workers=8 if tag == "small" else 4,
                            pre=("c19_ops.cpp", "clang++", TSAN, ["VMC_T=" + t, "VMC_SHAPES=" + shapes]), timeout=600))
    ctx.explore(bs)


@check("C20",
       bounds={"quick": "all operations but histogram, cumulative_histogram and print; shapes 1..6 x 1..6 and 18 larger up to 320x330 and 3000x1; contents complete over 5 values for <=6 elements, 7 base contents with one deviating element to 36 elements; "
                        "each call with a working allocator (no request) and with one that refuses every request (same result)",
               "thorough": "contents complete over 5 values for 9 elements, deviations to 150 elements"},
       assumptions=["dynamic memory is obtained through malloc and its relatives or operator new"],
       technique="exhaustive enumeration of calls with every allocation request observed and, in a second run of each call, failing",
       note="The allocation functions of the process are replaced; a single request during a call that returns is a violation.")
def c20(ctx):
    bs = []
    for t in CORE:
        for k, g in enumerate(chunks(SMALL, 3) + [LARGE]):
            bs.append(Build("c20_%s_%d" % (tid(t), k), "c20.cpp", ["VMC_T=" + t, "VMC_SHAPES=" + "".join(g)]))
    bs.append(Build("c20_double_huge", "c20.cpp", ["VMC_T=double", "VMC_SHAPES=" + "".join(HUGE)], workers=7))
    bs.append(Build("c20_short", "c20.cpp", ["VMC_T=short", "VMC_SHAPES=" + "".join(SMALL[::5])], core=False))
    bs.append(Build("c20_long_double", "c20.cpp", ["VMC_T=long double", "VMC_SHAPES=" + "".join(SMALL[::5])], core=False))
    ctx.explore(bs)


@check("C21",
       bounds={"quick": "all operations; shapes 1..6 x 1..6 and 11 larger; all index pairs; contents complete over 5 values for <=6 elements, 7 bases with one deviating element to 36 elements; "
                        "address and undefined-behaviour sanitizers with checked std::array indexing (g++), initialisation sanitizer (clang++); 11 shapes to 5x5 of 5 integer types with contents at their limits whenever the exact scalar results fit",
               "thorough": "contents complete over 5 values for 9 elements, deviations to 150 elements, four element types"},
       assumptions=["contents for which the exact scalar results fit the type", "histogram's map is judged by the address sanitizer only"],
       technique="exhaustive enumeration of shapes, indices and contents on the real code with every memory access, index and arithmetic operation monitored",
       note="Every element access goes through the checked operator[] of std::array; out-of-range rows and columns inside the matrix are found as well.")
def c21(ctx):
    bs = []
    types = ["double", "int"] if ctx.tier == "quick" else CORE
    for t in types:
        for k, g in enumerate(chunks(SMALL, 4) + chunks(LARGE, 2)):
            bs.append(Build("c21_asan_%s_%d" % (tid(t), k), "c21.cpp", ["_GLIBCXX_ASSERTIONS", "VMC_T=" + t, "VMC_SHAPES=" + "".join(g)],
                            flags=["-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"], env={"ASAN_OPTIONS": "detect_stack_use_after_return=1:detect_leaks=0"}))
    for k, g in enumerate(chunks(SMALL, 2) + [LARGE]):
        bs.append(Build("c21_msan_double_%d" % k, "c21.cpp", ["VMC_MSAN", "VMC_T=double", "VMC_SHAPES=" + "".join(g)], cxx="clang++", flags=["-g1", "-fsanitize=memory"]))
        if ctx.tier != "quick":
            bs.append(Build("c21_msan_int_%d" % k, "c21.cpp", ["VMC_MSAN", "VMC_T=int", "VMC_SHAPES=" + "".join(g)], cxx="clang++", flags=["-g1", "-fsanitize=memory"]))
    limits = ["shape<%d,%d>();" % s for s in [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (2, 3), (3, 2), (3, 3), (4, 4), (5, 5), (1, 4)]]
    for t in ["int", "long long"] + ["short", "signed char", "unsigned char"]:
        bs.append(Build("c21_limits_" + tid(t), "c21x.cpp", ["_GLIBCXX_ASSERTIONS", "VMC_T=" + t, "VMC_SHAPES=" + "".join(limits)], workers=2, core=t in CORE,
                        flags=["-g1", "-fsanitize=undefined,float-cast-overflow", "-fno-sanitize-recover=all"]))
    for t, shapes in (("signed char", [(16, 16), (1, 128), (1, 127), (256, 1), (15, 17)]), ("unsigned char", [(16, 16), (1, 256), (255, 1)]), ("short", [(181, 181), (1, 32768)])):
        bs.append(Build("c21_counts_" + tid(t), "c21x.cpp", ["_GLIBCXX_ASSERTIONS", "VMC_T=" + t, "VMC_SHAPES=" + "".join("counts<%d,%d>();" % s for s in shapes)], core=False,
                        flags=["-g1", "-fsanitize=undefined,float-cast-overflow", "-fno-sanitize-recover=all"]))
    ctx.explore(bs)


@check("C22",
       bounds={"quick": "42 operations; operand shapes 1..4 (all 256 combinations for two operands), kernels 1..5 x 1..5, 1..6 x 1..6 for one operand, larger shapes up to 100x100 and 2000x1 (fitting and not); double and int", "thorough": "operand shapes 1..5 (625 combinations), 1..7 for one operand, larger shapes up to 33x33, four element types"},
       assumptions=["g++ 13 decides what compiles"],
       technique="exhaustive enumeration of operand shape combinations, each decided by the compiler on the real headers",
       note="Fitting shapes are instantiated and their result types compared; a combination that does not fit is a violation only if a complete program with it compiles.")
def c22(ctx):
    import c22 as mod
    mod.run(ctx)


@check("C23",
       bounds={"quick": "g++ and clang++ x C++11, 14, 17, 20, 23 at -O0, and nine configurations with -O1, -O2, -O3, -Os, NDEBUG, assertions, GNU dialects; two source files per program; every operation, 4 element types, 13 shapes", "thorough": "240 configurations: both compilers x ten dialects x twelve sets of optimisation, NDEBUG and debug macros"},
       assumptions=["the two compilers installed here stand for conforming compilers"],
       technique="exhaustive enumeration of build configurations of a program using every operation, outputs compared",
       note="Each configuration compiles, links two source files and runs; all outputs must be identical.")
def c23(ctx):
    import c23 as mod
    mod.run(ctx)

# what the explorers of every size (sizes.cpp, PART 9) and of complex elements (cplx.cpp) add to the bounds
for _i in (1, 2, 3, 9, 10, 11, 15):
    CHECKS["C%02d" % _i]["bounds"]["quick"] += "; every line length and thin matrix to 80 and every square size to 80, each position of one deviating element (to 40 also n x n+1)"
for _i in (12, 13, 14, 16, 17):
    CHECKS["C%02d" % _i]["bounds"]["quick"] += "; every line length and thin matrix to 80%s and every square size to %d" % (", lines to 260" if _i < 15 else "", 48 if _i == 16 else 40)
for _i in (1, 2, 4, 11, 13):
    CHECKS["C%02d" % _i]["bounds"]["quick"] += "; complex elements of two precisions"
