"""C22: which shapes the compiler takes. Every operation on every combination of shapes up to a bound
is judged by the compiler itself."""
import concurrent.futures as cf
import itertools
import os
from util import JOBS, CheckError, Violation, sh, BASE_FLAGS

HEAD = """#include "matrix.hpp"
#include <cstdio>
#include <type_traits>
#include <utility>
using std::size_t;
template <class T, size_t r, size_t c> using M = mlib::Matrix<T, r, c>;
typedef %(T)s T;
namespace use {
using mlib::operator+; using mlib::operator-; using mlib::operator*; using mlib::operator/; using mlib::operator++; using mlib::operator--;
template <class...> struct V { typedef void type; };
#define OP(e) (%(expr)s)
template <class A, class B, class = void> struct Ok : std::false_type {};
template <class A, class B> struct Ok<A, B, typename V<decltype(%(decl)s)>::type> : std::true_type {};
template <class A, class B> struct Res { static A a; static B b; typedef typename std::decay<decltype(%(real)s)>::type type; };
template <class A, class B> void call() { A a{}; B b{}; auto f = [&] { (void)(%(real)s); }; if (std::getenv("VMC_NEVER")) f(); }
}
"""


def m(r, c, t="T"):
    return "M<%s,%d,%d>" % (t, r, c)


class O:
    """name, expression of a and b, right(ra,ca,rb,cb) -> result type, or None (does not fit), or '?' (not judged), or '?' and a type
    (may be rejected, but what compiles has that type)"""

    def __init__(self, name, expr, right, shapes=None, need=()):
        self.name, self.expr, self.right, self.shapes = name, expr, right, shapes


def same(ra, ca, rb, cb):
    return m(ra, ca) if (ra, ca) == (rb, cb) else None


def concat(ra, ca, rb, cb):
    if ra != rb and ca != cb:
        return None
    if (ra, ca) == (rb, cb):
        return "std::pair<%s, %s>" % (m(ra + rb, ca), m(ra, ca + cb)) if ra == ca else "?"
    return m(ra, ca + cb) if ra == rb else m(ra + rb, ca)


def conv(dr, low=0):
    def right(ra, ca, rb, cb):
        if min(ra, ca) <= low:
            return "?"
        return m(ra + dr, ca + dr) if (rb, cb) == (3, 3) else None
    return right


def sq(res):
    def right(ra, ca, rb, cb):
        return res(ra) if ra == ca else None
    return right


def strict(f):
    """the second operand does not matter: only b of shape 1x1 is enumerated"""
    return f


def ops(n):
    two = list(itertools.product(range(1, n + 1), repeat=4))
    one = [(r, c, 1, 1) for r in range(1, n + 3) for c in range(1, n + 3)]
    ker = [(r, c, k, l) for r in range(1, n + 1) for c in range(1, n + 1) for k in range(1, 6) for l in range(1, 6)]
    # larger shapes, fitting and not
    big = [7, 8, 9, 12, 16, 17, 33]
    far = [(r, c) for r in big for c in (1, 2, 3)] + [(c, r) for r in big for c in (1, 2, 3)] + [(r, c) for r in big for c in big if abs(big.index(r) - big.index(c)) < 2]
    one += [(r, c, 1, 1) for r, c in far]
    two += [(r, c, r, c) for r, c in far] + [(r, c, c, r) for r, c in far] + [(r, c, r, k) for r, c in far for k in (1, 9)] + [(r, c, k, c) for r, c in far for k in (1, 9)]
    ker += [(r, c, k, l) for r, c in far for k, l in ((3, 3), (r, c), (1, 3), (3, 1), (5, 5))]
    # far larger fitting ones
    vast = [(40, 30), (30, 40), (64, 64), (100, 100), (1, 300), (300, 1), (1, 2000), (2000, 1), (257, 3), (128, 2), (2, 129)]
    one += [(r, c, 1, 1) for r, c in vast]
    two += [(r, c, r, c) for r, c in vast] + [(r, c, c, 2) for r, c in vast] + [(2, r, r, c) for r, c in vast] + [(r, c, 1, c) for r, c in vast] + [(r, c, r, 1) for r, c in vast]
    ker += [(r, c, 3, 3) for r, c in vast]
    two, one, ker = ([t for t in dict.fromkeys(x)] for x in (two, one, ker))
    o = []

    def add(name, expr, right, shapes):
        o.append(O(name, expr, right, shapes))
    add("A + B", "a + b", same, two)
    add("A - B", "a - b", same, two)
    add("sum(A, B)", "mlib::sum(a, b)", same, two)
    add("sub(A, B)", "mlib::sub(a, b)", same, two)
    add("compare(A, B, e)", "mlib::compare(a, b, 0.5f)", lambda ra, ca, rb, cb: "bool" if (ra, ca) == (rb, cb) else None, two)
    add("A * B", "a * b", lambda ra, ca, rb, cb: m(ra, cb) if ca == rb else None, two)
    add("mult(A, B)", "mlib::mult(a, b)", lambda ra, ca, rb, cb: m(ra, cb) if ca == rb else None, two)
    add("strassen(A, B)", "mlib::strassen(a, b)", lambda *s: m(2, 2) if s == (2, 2, 2, 2) else None, two)
    add("concatenate(A, B)", "mlib::concatenate(a, b)", concat, two)
    add("concatenateV(A, B)", "mlib::concatenateV(a, b)", lambda ra, ca, rb, cb: None if ca != cb else ("" if ra == ca == rb else "?") + m(ra + rb, ca), two)
    add("concatenateH(A, B)", "mlib::concatenateH(a, b)", lambda ra, ca, rb, cb: None if ra != rb else ("" if ra == ca == cb else "?") + m(ra, ca + cb), two)
    add("conv2(A, K)", "mlib::conv2(a, b)", conv(0), ker)
    add("conv2_full(A, K)", "mlib::conv2_full(a, b)", conv(2), ker)
    add("conv2_valid(A, K)", "mlib::conv2_valid(a, b)", conv(-2, 2), [(r + 2, c + 2, k, l) for r, c, k, l in ker])
    add("det(A)", "mlib::det(a)", sq(lambda k: "T"), one)
    add("inv(A)", "mlib::inv(a)", sq(lambda k: m(k, k)), one)
    add("pow(A, p)", "mlib::pow(a, 2)", sq(lambda k: m(k, k)), one)
    add("lu(A)", "mlib::lu(a)", sq(lambda k: "std::pair<%s, %s>" % (m(k, k), m(k, k))), one)
    add("chol(A)", "mlib::chol(a)", sq(lambda k: m(k, k)), one)
    # any shape fits these
    for name, expr, res in [
            ("trans(A)", "mlib::trans(a)", lambda r, c: m(c, r)), ("abs(A)", "mlib::abs(a)", m), ("A + s", "a + T(2)", m), ("s + A", "T(2) + a", m),
            ("A - s", "a - T(2)", m), ("A * s", "a * T(2)", m), ("s * A", "T(2) * a", m), ("A / s", "a / T(2)", m), ("A++", "a++", m), ("A--", "a--", m),
            ("sum(A, s)", "mlib::sum(a, T(2))", m), ("sub(A, s)", "mlib::sub(a, T(2))", m), ("mult(A, s)", "mlib::mult(a, T(2))", m), ("div(A, s)", "mlib::div(a, T(2))", m),
            ("mean(A)", "mlib::mean(a)", lambda r, c: "T"), ("var(A)", "mlib::var(a)", lambda r, c: "T"), ("stddev(A)", "mlib::stddev(a)", lambda r, c: "T"),
            ("median(A)", "mlib::median(a)", lambda r, c: "T"), ("histogram(A)", "mlib::histogram(a)", lambda r, c: "std::map<T, size_t>"),
            ("cumulative_histogram(A)", "mlib::cumulative_histogram(a)", lambda r, c: "std::map<T, size_t>")]:
        add(name, expr, (lambda f: lambda ra, ca, rb, cb: f(ra, ca))(res), one)
    add("getminor(A, i, j)", "mlib::getminor(a, 0, 0)", lambda ra, ca, rb, cb: ("" if ra == ca else "?") + m(ra - 1, ca - 1) if min(ra, ca) > 1 else "?", one)
    add("isSymetric(A)", "mlib::isSymetric(a)", lambda ra, ca, rb, cb: "bool" if ra == ca else "?", one)
    add("isIdentity(A)", "mlib::isIdentity(a)", lambda ra, ca, rb, cb: "bool" if ra == ca else "?", one)
    return o


def source(op, T):
    import re
    decl = re.sub(r"\ba\b", "std::declval<A&>()", op.expr)
    decl = re.sub(r"\bb\b", "std::declval<B&>()", decl)
    return HEAD % {"T": T, "expr": op.expr, "decl": decl, "real": op.expr} 


def run(ctx):
    n = 5 if ctx.tier == "thorough" else 4
    types = ["double", "int"] if ctx.tier == "quick" else ["double", "int", "float", "long long"]
    jobs = []
    for T in types:
        for k, op in enumerate(ops(n)):
            fit = [(s, op.right(*s)) for s in op.shapes]
            good = [(s, r) for s, r in fit if r and r[0] != "?"]
            bad = [s for s, r in fit if r is None]
            maybe = [(s, r[1:]) for s, r in fit if r and r[0] == "?" and r != "?"]
            jobs.append((T, k, op, good, bad, maybe))
    flags = [f for f in BASE_FLAGS if not f.startswith("-O")] + ["-O0", "-I", ctx.inc]

    def write(name, text):
        p = os.path.join(ctx.scratch, name)
        with open(p, "w") as f:
            f.write(text)
        return p

    def compiles(src, syntax=True, out=None):
        cmd = ["g++"] + flags + (["-fsyntax-only", src] if syntax else [src, "-o", out])
        rc, o, e = sh(cmd, 600)
        if rc is None or rc < 0 or "Killed" in e:
            raise CheckError("compiler failed: " + e[-500:])
        return rc == 0, e

    def single(T, op, s, tag):
        ra, ca, rb, cb = s
        text = source(op, T) + "#include <cstdlib>\nint main() { %s a{}; %s b{}; (void)a; (void)b; using namespace use; (void)(%s); return 0; }\n" % (m(ra, ca), m(rb, cb), op.expr)
        # names looked up inside the namespace that has the operators
        text = source(op, T).replace("template <class A, class B> void call()", "template <class A, class B> void unused()") + \
            "namespace use { int go() { %s a{}; %s b{}; (void)a; (void)b; (void)(%s); return 0; } }\nint main() { return use::go(); }\n" % (m(ra, ca), m(rb, cb), op.expr)
        text = "#include <cstdlib>\n" + text
        return compiles(write("c22_%s.cpp" % tag, text), syntax=False, out=os.path.join(ctx.scratch, "c22_%s.exe" % tag))

    def one(job):
        T, k, op, good, bad, maybe = job
        tag = "%d_%s" % (k, T.replace(" ", "_"))
        res = {"programs": 0, "real": 0, "types": 0}
        # right shapes: instantiated for real, result type compared
        body = ["#include <cstdlib>\n" + source(op, T), "template <class X, class Y> void check(const char* s) { if (!std::is_same<X, Y>::value) std::printf(\"TYPE %s\\n\", s); }", "int main() {"]
        for (ra, ca, rb, cb), r in good:
            a, b = m(ra, ca), m(rb, cb)
            body.append('  use::call<%s, %s>(); check<typename use::Res<%s, %s>::type, %s>("%dx%d %dx%d");' % (a, b, a, b, r, ra, ca, rb, cb))
        body.append("  return 0; }")
        exe = os.path.join(ctx.scratch, "c22g_" + tag)
        ok, log = compiles(write("c22g_%s.cpp" % tag, "\n".join(body).replace("typename use::Res", "use::Res")), False, exe)
        if not ok:
            # name the first shape that does not compile
            for s, r in good:
                ok1, log1 = single(T, op, s, tag + "_s")
                if not ok1:
                    return Violation("%s does not compile for %s operands of fitting shapes %dx%d, %dx%d:\n%s" % ((op.name, T) + s + (err(log1),)),
                                     {"kind": "compile", "log": log1[-4000:]})
            return Violation("%s does not compile for %s operands of fitting shapes:\n%s" % (op.name, T, err(log)), {"kind": "compile", "log": log[-4000:]})
        rc, out, e = sh([exe], 60)
        if rc != 0:
            return Violation("%s: program of fitting shapes ended with %s" % (op.name, rc), {"stderr": e})
        wrong = [l for l in out.splitlines() if l.startswith("TYPE")]
        if wrong:
            return Violation("%s (%s): the result type does not have the shape of the result for operands %s" % (op.name, T, wrong[0][5:]), {"kind": "type", "all": wrong[:50]})
        res["programs"] += len(good); res["types"] += len(good)
        # shapes an operation need not take: what compiles has the right result type
        if maybe:
            body = ["#include <cstdlib>\n" + source(op, T), "template <class A, class B, class W, bool ok> struct Chk { static bool right() { return true; } };",
                    "template <class A, class B, class W> struct Chk<A, B, W, true> { static bool right() { return std::is_same<typename use::Res<A, B>::type, W>::value; } };", "int main() {"]
            for (ra, ca, rb, cb), r in maybe:
                a, b = m(ra, ca), m(rb, cb)
                body.append('  if (!Chk<%s, %s, %s, use::Ok<%s, %s>::value>::right()) std::printf("TYPE %d %d %d %d\\n");' % (a, b, r, a, b, ra, ca, rb, cb))
            body.append("  return 0; }")
            exe = os.path.join(ctx.scratch, "c22m_" + tag)
            ok, log = compiles(write("c22m_%s.cpp" % tag, "\n".join(body)), False, exe)
            wrong = [tuple(int(x) for x in l.split()[1:]) for l in sh([exe], 60)[1].splitlines() if l.startswith("TYPE")] if ok else []
            for s in wrong[:12]:
                res["real"] += 1
                if single(T, op, s, tag + "_m")[0]:
                    return Violation("%s (%s) compiles for operands of shapes %dx%d and %dx%d, but the result type does not have the shape of the result" % ((op.name, T) + s), {"kind": "type", "op": op.name, "shapes": list(s)})
            res["programs"] += len(maybe) if ok else 0
        if not bad:
            return res, "%s %s: %d fitting shapes" % (op.name, T, len(good))
        # wrong shapes: asked through substitution; what substitution lets through is compiled for real
        body = ["#include <cstdlib>\n" + source(op, T), "int main() {"]
        for ra, ca, rb, cb in bad:
            body.append('  if (use::Ok<%s, %s>::value) std::printf("TAKEN %d %d %d %d\\n");' % (m(ra, ca), m(rb, cb), ra, ca, rb, cb))
        body.append("  return 0; }")
        exe = os.path.join(ctx.scratch, "c22b_" + tag)
        ok, log = compiles(write("c22b_%s.cpp" % tag, "\n".join(body)), False, exe)
        if ok:
            rc, out, e = sh([exe], 60)
            taken = [tuple(int(x) for x in l.split()[1:]) for l in out.splitlines() if l.startswith("TAKEN")]
            extra = [bad[0]] if T == "double" else []        # one rejection seen by the full compiler, too
        else:
            taken, extra = list(bad), []            # asking is an error by itself (body needed for the type): ask one by one
        small = [s for s in taken if max(s) <= 3] or taken
        for s in small + extra:
            res["real"] += 1
            ok1, _ = single(T, op, s, tag + "_w")
            if ok1:
                return Violation("%s (%s) compiles for operands of shapes %dx%d and %dx%d, which do not fit" % ((op.name, T) + s),
                                 {"kind": "accepted", "op": op.name, "shapes": list(s)})
        res["programs"] += len(bad)
        return res, "%s %s: %d fitting shapes accepted with the right type, %d others rejected" % (op.name, T, len(good), len(bad))

    def err(log):
        return "\n".join([l for l in log.splitlines() if "error" in l][:4])
    if not ctx.toolchain_ok("g++", []):
        raise CheckError("the compiler does not work here")
    with cf.ThreadPoolExecutor(JOBS) as pool:
        results = list(pool.map(one, jobs))
    good = bad = 0
    for r, j in zip(results, jobs):
        if isinstance(r, Violation):
            raise r
        c, text = r
        ctx.totals["states"] = ctx.totals.get("states", 0) + c["programs"]
        ctx.totals["transitions"] = ctx.totals.get("transitions", 0) + c["programs"] + c["types"] + c["real"]
        ctx.totals["validated"] = ctx.totals.get("validated", 0) + c["types"] + c["real"]
        ctx.totals["units"] = ctx.totals.get("units", 0) + 1
        good += len(j[3]); bad += len(j[4])
        ctx.samples.append(text)
    ctx.totals["programs_accepted"], ctx.totals["programs_rejected"] = good, bad
