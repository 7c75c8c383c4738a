"""Building, running and reporting for the checks."""
import concurrent.futures as cf
import json
import os
import resource
import shutil
import signal
import subprocess
import time

JOBS = max(1, min(8, os.cpu_count() or 8))
BASE_FLAGS = ["-std=c++17", "-O1", "-fno-strict-aliasing", "-ffp-contract=off", "-w", "-ftemplate-depth=2000", "-pthread"]


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, text, data=None, source=None):
        super().__init__(text)
        self.text = text
        self.data = data or {}
        self.source = source


class Build:
    """One executable: sources (relative to harness/), defines, compiler and flags, and how to run it.
    core=False: an element type whose failure to compile is noted, not reported."""

    def __init__(self, name, src, defs=(), cxx="g++", flags=(), workers=1, core=True, env=None, only=None,
                 link=(), objs=(), std=None, timeout=800, opt=None, pre=None):
        self.name, self.src, self.defs, self.cxx = name, src, list(defs), cxx
        self.flags, self.workers, self.core, self.env = list(flags), workers, core, env or {}
        self.pre = pre      # source compiled to an object first: (source, compiler, flags, defines)
        self.only, self.link, self.objs, self.std, self.timeout, self.opt = only, list(link), list(objs), std, timeout, opt


def big_stack():
    try:
        soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
        want = 512 << 20
        if hard != resource.RLIM_INFINITY:
            want = min(want, hard)
        resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
    except (ValueError, OSError):
        pass


def sh(cmd, timeout, env=None, stdin=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=e,
                           stdin=subprocess.DEVNULL, preexec_fn=big_stack)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode(errors="replace"), "timeout"


class Ctx:
    def __init__(self, prop, tier, scratch, here, repo, inc):
        self.prop, self.tier, self.scratch, self.here, self.repo, self.inc = prop, tier, scratch, here, repo, inc
        self.notes, self.known, self.totals, self.samples, self.modes = [], [], {}, [], {}
        self.extra = {}
        self.exes = 0

    # ------------------------------------------------------------ compiling
    def cmdline(self, b, out):
        src = [os.path.join(self.here, "harness", s) for s in ([b.src] if isinstance(b.src, str) else b.src)]
        fl = list(BASE_FLAGS)
        if b.std:
            fl[0] = "-std=" + b.std
        if b.opt:
            fl[1] = b.opt
        return ([b.cxx] + fl + b.flags + ["-D" + d for d in b.defs] + ["-I", self.inc, "-I", os.path.join(self.here, "harness")]
                + src + b.objs + ([out + ".pre.o"] if b.pre else []) + ["-o", out] + b.link)

    def precmd(self, b, out):
        src, cxx, flags, defs = b.pre
        return ([cxx] + flags + ["-D" + d for d in defs] + ["-I", self.inc, "-I", os.path.join(self.here, "harness"), "-c",
                                                          os.path.join(self.here, "harness", src), "-o", out + ".pre.o"])

    def toolchain_ok(self, cxx, flags):
        t = os.path.join(self.scratch, "sanity.cpp")
        with open(t, "w") as f:
            f.write("#include <array>\n#include <map>\n#include <cmath>\nint main(){std::map<int,int> m; m[1]=2; return m[1]-2;}\n")
        rc, _, _ = sh([cxx] + BASE_FLAGS + [t, "-o", t + ".exe"], 120)
        return rc == 0

    def compile(self, builds):
        def one(b):
            out = os.path.join(self.scratch, b.name)
            t = time.time()
            rc, o, e = 0, "", ""
            if b.pre:
                rc, o, e = sh(self.precmd(b, out), 800)
            if rc == 0:
                rc, o, e = sh(self.cmdline(b, out), 800)
            return b, out, rc, o + e, time.time() - t
        exes = {}
        with cf.ThreadPoolExecutor(JOBS) as pool:
            res = list(pool.map(one, builds))
        for b, out, rc, log, dt in res:
            if os.environ.get("VMC_VERBOSE"):
                print("compile %s %.1fs" % (b.name, dt))
            if rc == 0:
                exes[b.name] = out
                continue
            if rc is None or rc < 0 or "Killed" in log or "out of memory" in log or "Cannot allocate" in log:
                raise CheckError("compiler failed on %s (rc %s): %s" % (b.name, rc, log[-2000:]))
            if not self.toolchain_ok(b.cxx, b.flags):
                raise CheckError("the compiler does not work here: " + log[-2000:])
            if b.core:
                errs = [l for l in log.splitlines() if "error" in l][:6]
                raise Violation("the operations of %s no longer compile for shapes and types they compiled for:\n%s"
                                % (b.name, "\n".join(errs)),
                                {"kind": "compile", "command": self.cmdline(b, "a.out"), "log": log[-8000:]})
            self.notes.append("%s does not compile and was left out: %s" % (
                b.name, next((l for l in log.splitlines() if "error" in l), "")[:200]))
        return exes

    # ------------------------------------------------------------ running
    def run_exe(self, b, exe, worker, extra=()):
        args = [exe] + list(extra) + ["--worker", "%d/%d" % (worker, b.workers)]
        if self.tier == "thorough":
            args.append("--thorough")
        t = time.time()
        limit = b.timeout * (20 if self.tier == "thorough" else 1)
        rc, o, e = sh(args, limit, b.env)
        return b, exe, worker, rc, o, e, time.time() - t, args

    def last_json(self, out):
        for l in reversed(out.splitlines()):
            if l.startswith("{"):
                try:
                    return json.loads(l)
                except ValueError:
                    pass
        return None

    def explore(self, builds, judge=None):
        builds = [b for b in builds if not b.only or b.only == self.tier]
        exes = self.compile(builds)
        jobs = [(b, exes[b.name], w) for b in builds if b.name in exes for w in range(b.workers)]
        self.exes += len(exes)
        bad = None
        with cf.ThreadPoolExecutor(JOBS) as pool:
            futs = [pool.submit(self.run_exe, *j) for j in jobs]
            results = [f.result() for f in futs]
        for r in results:
            b, exe, w, rc, o, e, dt, args = r
            if os.environ.get("VMC_VERBOSE"):
                print("run %s %d/%d rc=%s %.1fs" % (b.name, w, b.workers, rc, dt))
            j = self.last_json(o)
            if rc == 0 and j and not j.get("violation"):
                self.add(j)
                continue
            if bad is None:
                bad = r
        if bad:
            self.report(bad)

    def report(self, r):
        """Replay before report: the same worker must fail in the same way again."""
        b, exe, w, rc, o, e, dt, args = r
        if rc is None:
            raise CheckError("%s: no answer within the time limit" % b.name)
        if rc == -signal.SIGKILL:
            raise CheckError("%s was killed (memory?)" % b.name)
        _, _, _, rc2, o2, e2, _, _ = self.run_exe(b, exe, w)
        j, j2 = self.last_json(o), self.last_json(o2)
        if rc2 == 0 or rc2 is None:
            raise CheckError("%s failed (rc %s) and passed when run again: %s %s" % (b.name, rc, o[-1500:], e[-1500:]))
        if j and j.get("violation"):
            same = bool(j2) and j.get("expr") == j2.get("expr") and j.get("operands") == j2.get("operands")
            text = "%s\n  %s\n  operands: %s\n  got:      %s\n  expected: %s\n  (%s, reproduced%s)" % (
                b.name, j.get("expr"), " ".join(j.get("operands", []))[:1500], j.get("got", "")[:600], j.get("expected", "")[:600],
                j.get("note", ""), " identically" if same else ", with another case first")
            raise Violation(text, j, (b, args))
        text = "%s ended with %s:\n%s\n%s" % (b.name, rc, o[-1500:], e[-3000:])
        raise Violation(text, {"kind": "crash", "stderr": e[-6000:], "stdout": o[-2000:]}, (b, args))

    def add(self, j):
        for k, v in j.items():
            if isinstance(v, bool):
                self.totals[k] = self.totals.get(k, False) or v
            elif isinstance(v, int):
                self.totals[k] = self.totals.get(k, 0) + v
            elif isinstance(v, float):
                self.totals[k] = max(self.totals.get(k, 0.0), v)
            elif k == "samples":
                self.samples += v
            elif k == "modes":
                for m, n in v.items():
                    self.modes[m] = self.modes.get(m, 0) + n
            elif k == "info":
                self.extra.setdefault("info", []).append(v)

    def coverage(self, spec):
        t = self.totals
        s = self.samples
        pick = s[:: max(1, len(s) // 6)][:8]
        if spec["level"] == "model_checking":
            cov = {"states": t.get("states", 0), "transitions": t.get("transitions", 0),
                   "traces_validated_against_impl": t.get("validated", 0)}
        else:
            cov = {"evaluations": t.get("transitions", 0), "distinct_nontrivial": t.get("states", 0),
                   "rule": spec["rule"]}
        cov["samples"] = pick
        cov["exhaustive"] = True
        cov["bounds"] = spec["bounds"][self.tier] if isinstance(spec["bounds"], dict) else spec["bounds"]
        cov["units"] = t.get("units", 0)
        cov["distinct_outcomes"] = t.get("distinct_outcomes", 0)
        cov["enumeration_modes"] = self.modes
        for k in ("undefined_skipped", "exceptions", "schedules", "preemption_points", "conflicting_locations", "allocations_seen",
                  "worst_error_over_tolerance", "programs_accepted", "programs_rejected", "deadlocks"):
            if k in t:
                cov[k] = t[k]
        cov.update(self.extra)
        if self.notes:
            cov["notes"] = self.notes
        return cov

    def summary(self, cov):
        return ", ".join("%s %s" % (k, cov[k]) for k in
                         ("units", "states", "transitions", "evaluations", "distinct_nontrivial", "traces_validated_against_impl",
                          "schedules", "distinct_outcomes") if k in cov)

    # ------------------------------------------------------------ replays
    def write_replay(self, v):
        d = os.path.join(self.here, "replay", self.prop)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, "violation.json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "text": v.text, "data": v.data}, f, indent=1)
        j = v.data
        if v.source:
            b, args = v.source
            with open(os.path.join(d, "rerun.sh"), "w") as f:
                f.write("#!/bin/bash\n# rebuilds the explorer and runs the worker that found it\nset -e\nT=$(mktemp -d)\n%s%s\nrc=0\nulimit -s unlimited || true\n%s || rc=$?\nrm -rf \"$T\"\nexit $rc\n" % (
                    (" ".join(quote(a) for a in self.precmd(b, "$T/x")) + "\n") if b.pre else "",
                    " ".join(quote(a) for a in self.cmdline(b, "$T/x")).replace(self.scratch, "$T"),
                    " ".join(["%s=%s" % kv for kv in b.env.items()] + ["\"$T/x\""] + [quote(a) for a in args[1:]])))
        if j.get("expr") and j.get("operands") is not None and not j.get("noreplay"):
            with open(os.path.join(d, "replay.cpp"), "w") as f:
                f.write(REPLAY_CPP % ("\n".join("  " + o for o in j["operands"]), j["expr"], c_string(j.get("expected", ""))))
            exe = os.path.join(self.scratch, "replay_exe")
            if sh(["g++", "-std=c++17", "-w", "-I", self.inc, os.path.join(d, "replay.cpp"), "-o", exe], 300)[0] == 0:
                with open(os.path.join(d, "replay.sh"), "w") as f:
                    f.write("#!/bin/bash\n# the failing call alone, without the explorer\ncd \"$(dirname \"$0\")\" && T=$(mktemp -d) && g++ -std=c++17 -I %s replay.cpp -o $T/r && $T/r; rm -rf \"$T\"\n" % self.inc)
            else:
                os.remove(os.path.join(d, "replay.cpp"))        # a history, a schedule: rerun.sh shows it
        return d


def quote(a):
    return a if all(c.isalnum() or c in "-_=+/.,:$" for c in a) else "'" + a + "'"


def c_string(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'


REPLAY_CPP = r'''#include "matrix.hpp"
#include <cstdio>
#include <complex>
#include <iostream>
#include <iomanip>
#include <map>
using namespace mlib;
template <class T> void show(const T& x) { std::cout << std::setprecision(20) << +x << " "; }
template <class T> void show(const std::complex<T>& x) { std::cout << x << " "; }
template <class T, std::size_t C, std::size_t R> void show(const std::array<std::array<T, C>, R>& A)
{ std::cout << "\n"; for (auto& r : A) { for (auto& x : r) show(x); std::cout << "\n"; } }
template <class A, class B> void show(const std::pair<A, B>& p) { show(p.first); std::cout << "; "; show(p.second); }
template <class K, class V> void show(const std::map<K, V>& m) { for (auto& p : m) std::cout << p.first << ":" << p.second << " "; }
int main()
{
%s
  try { auto result = (%s); std::cout << "got: "; show(result); }
  catch (const std::exception& e) { std::cout << "exception: " << e.what(); }
  std::cout << "\nexpected: " << %s << "\n";
}
'''
