"""C23: one header, every standard, several source files."""
import concurrent.futures as cf
import os
from util import JOBS, CheckError, Violation, sh


def run(ctx):
    H = os.path.join(ctx.here, "harness")
    stds = ["c++11", "c++14", "c++17", "c++20", "c++23"]
    ND = "-DNDEBUG"
    if ctx.tier == "quick":
        configs = [(c, s, "-O0") for c in ("g++", "clang++") for s in stds]
        configs += [("g++", "c++11", "-O2 " + ND), ("clang++", "c++17", "-O2 " + ND), ("g++", "c++17", "-O3"), ("clang++", "c++11", "-O3"),
                    ("g++", "gnu++14", "-O2"), ("clang++", "gnu++20", "-Os"), ("g++", "gnu++11", "-O0 " + ND), ("g++", "gnu++20", "-O0 -D_GLIBCXX_ASSERTIONS -D_DEBUG -DDEBUG"), ("clang++", "gnu++11", "-O1 -funsigned-char")]
    else:
        stds += ["gnu++11", "gnu++14", "gnu++17", "gnu++20", "gnu++23"]
        configs = [(c, s, o) for o in ("-O0", "-O0 " + ND, "-O1", "-O2", "-O2 " + ND, "-O3 " + ND, "-O3", "-Os " + ND, "-O0 -D_GLIBCXX_ASSERTIONS -D_DEBUG -DDEBUG", "-O1 -D_GLIBCXX_DEBUG", "-O1 -funsigned-char", "-O2 -fPIC -fno-inline")
                   for c in ("g++", "clang++") for s in stds]
    configs.sort(key=lambda c: "-O0" in c[2])       # the slow ones first
    for cxx in ("g++", "clang++"):
        if not ctx.toolchain_ok(cxx, []):
            raise CheckError(cxx + " does not work here")

    def one(cfg):
        cxx, s, o = cfg
        tag = "".join(x if x.isalnum() else "_" for x in "%s_%s_%s" % cfg)
        objs = []
        for tu in "ab":
            out = os.path.join(ctx.scratch, "c23_%s_%s.o" % (tag, tu))
            cmd = [cxx, "-std=" + s] + [x if tu == "a" or ctx.tier != "quick" or not x.startswith("-O") else "-O0" for x in o.split()] + ["-w", "-I", ctx.inc, "-I", H, "-c", os.path.join(H, "c23_%s.cpp" % tu), "-o", out]
            rc, so, e = sh(cmd, 600)
            if rc is None or rc < 0 or "Killed" in e:
                raise CheckError("compiler failed: " + e[-500:])
            if rc != 0:
                return Violation("a program that includes only matrix.hpp does not compile with %s -std=%s %s:\n%s" % (cxx, s, o, "\n".join([l for l in e.splitlines() if "error" in l][:5])),
                                 {"kind": "compile", "command": cmd, "log": e[-6000:]})
            objs.append(out)
        exe = os.path.join(ctx.scratch, "c23_" + tag)
        cmd = [cxx] + objs + ["-o", exe]
        rc, so, e = sh(cmd, 600)
        if rc is None or rc < 0 or "Killed" in e:
            raise CheckError("linker failed: " + e[-500:])
        if rc != 0:
            return Violation("two source files including matrix.hpp do not link with %s -std=%s %s:\n%s" % (cxx, s, o, e[-800:]), {"kind": "link", "command": cmd, "log": e[-6000:]})
        rc, so, e = sh([exe], 300)
        if rc != 0:
            return Violation("the program built with %s -std=%s %s ended with %s" % (cxx, s, o, rc), {"stderr": e[-2000:]})
        return so.split("---\n")
    with cf.ThreadPoolExecutor(JOBS) as pool:
        results = list(pool.map(one, configs))
    base = None
    for cfg, r in zip(configs, results):
        if isinstance(r, Violation):
            raise r
        ctx.totals["units"] = ctx.totals.get("units", 0) + 1
        for part, text in enumerate(r):
            lines = text.splitlines()
            ctx.totals["states"] = ctx.totals.get("states", 0) + 1
            ctx.totals["transitions"] = ctx.totals.get("transitions", 0) + len(lines)
            if base is None:
                base = (cfg, lines)
                ctx.totals["distinct_outcomes"] = len(set(lines))
                ctx.samples += lines[5:8]
                continue
            if lines != base[1]:
                diff = next(((x, y) for x, y in zip(base[1], lines) if x != y), (len(base[1]), len(lines)))
                raise Violation("results differ between configurations:\n  %s: %s\n  %s, source file %d: %s" % (" ".join(base[0]), diff[0], " ".join(cfg), part + 1, diff[1]),
                                {"kind": "difference", "first": list(base[0]), "other": list(cfg), "lines": [str(x) for x in diff]})
            ctx.totals["validated"] = ctx.totals.get("validated", 0) + len(lines)
        ctx.samples.append("%s -std=%s %s: two source files compiled and linked, results as with the others" % cfg)
