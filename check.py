#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of its real code.

  check.py PROPERTY [--tier quick|thorough] [--only HARNESS] [--keep]

Every run recompiles the harnesses of the property against /repo's current
sources to LLVM IR, executes them symbolically (engine/ksym), replays every
counterexample on a natively compiled, sanitized build of the same harness,
and replays a sample of the explored paths to validate the encoding.
"""
import argparse, glob, hashlib, json, math, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("KSYM_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
import checks as C
import bounds as B

IRFLAGS = ["-std=gnu++14", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-gline-tables-only",
           "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DKSYM_SYMBOLIC", "-fno-builtin", "-fno-pic", "-w",
           "-I" + HERE + "/shim", "-I" + HERE + "/rt", "-I" + REPO, "-c", "-emit-llvm"]
NATFLAGS = ["-std=gnu++14", "-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr",
            "-fno-omit-frame-pointer", "-ffp-contract=off", "-I" + HERE + "/rt/native_inc", "-I" + HERE + "/rt", "-I" + REPO]


class Fail(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)
    if p.returncode:
        raise Fail("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), (p.stdout + p.stderr)[-4000:]))
    return p.stdout


def newer(target, srcs):
    if not os.path.exists(target):
        return True
    t = os.path.getmtime(target)
    return any(os.path.getmtime(s) > t for s in srcs)


def build_common():
    """Engine and runtime; they depend on /verif only."""
    os.makedirs(BUILD, exist_ok=True)
    import fcntl
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sh(["make", "-s", "-j4", "-C", os.path.join(HERE, "engine")])
        shim = glob.glob(HERE + "/shim/**/*", recursive=True) + glob.glob(HERE + "/rt/*.h")
        shim = [f for f in shim if os.path.isfile(f)]
        rt, rtc, nat = (os.path.join(BUILD, f) for f in ("rt.bc", "rtc.bc", "native.o"))
        jobs = []
        if newer(rt, shim + [HERE + "/rt/rt.cc"]):
            jobs.append(["clang++"] + IRFLAGS + ["-o", rt, HERE + "/rt/rt.cc"])
        if newer(rtc, [HERE + "/rt/rtc.c"]):
            jobs.append(["clang", "-O1", "-ffreestanding", "-fno-builtin", "-fno-vectorize", "-w", "-c", "-emit-llvm", "-o", rtc, HERE + "/rt/rtc.c"])
        if newer(nat, shim + [HERE + "/rt/native.cc"]):
            jobs.append(["g++"] + NATFLAGS + ["-c", "-o", nat, HERE + "/rt/native.cc"])
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(sh, jobs))


class Source:
    """One harness source file, compiled both ways against the current tree."""

    def __init__(self, name, work):
        self.name, self.work = name, work
        self.bc = os.path.join(work, name + ".bc")
        self.exe = os.path.join(work, name + ".exe")
        self.lock = threading.Lock()

    def build_ir(self):
        o = os.path.join(self.work, self.name + ".h.bc")
        sh(["clang++"] + IRFLAGS + ["-o", o, "%s/harness/%s.cc" % (HERE, self.name)])
        sh(["llvm-link-18", "-o", self.bc, BUILD + "/rt.bc", BUILD + "/rtc.bc", o])

    def build_native(self):
        with self.lock:
            if not os.path.exists(self.exe):
                o = self.exe + ".o"
                sh(["g++"] + NATFLAGS + ["-c", "-o", o, "%s/harness/%s.cc" % (HERE, self.name)])
                sh(["g++", "-fsanitize=address,undefined", "-rdynamic", "-o", self.exe + ".tmp", o, BUILD + "/native.o", "-ldl"])
                os.rename(self.exe + ".tmp", self.exe)

    def build_plain(self):
        """Uninstrumented build, for memcheck."""
        with self.lock:
            exe = self.exe + ".plain"
            if not os.path.exists(exe):
                fl = [f for f in NATFLAGS if "sanitize" not in f]
                sh(["g++"] + fl + ["-rdynamic", "-o", exe + ".tmp", "%s/harness/%s.cc" % (HERE, self.name), HERE + "/rt/native.cc", "-ldl"])
                os.rename(exe + ".tmp", exe)
            return exe


def scratch_run(cmd, inputs, env, timeout):
    d = tempfile.mkdtemp(prefix="ksymrun.")
    try:
        with open(d + "/INPUTS", "w") as f:
            f.writelines("%s %s\n" % (a, b) for a, b in inputs)
        e = dict(os.environ)
        e.update(env)
        p = subprocess.Popen(cmd, cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             text=True, errors="replace", start_new_session=True,
                             preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_STACK, (64 << 20, 64 << 20)))
        try:
            out, err = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
            rc = "timeout"
        rep = []
        try:
            rep = open(d + "/report.txt", errors="replace").read().splitlines()
        except OSError:
            pass
        return rc, rep, err
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Run:
    def __init__(self, prop, h, tier, src, work):
        self.prop, self.h, self.tier, self.src, self.work = prop, h, tier, src, work
        self.params = dict(h.get("params", {}))
        self.opts = {k: h[k] for k in ("real", "budget", "qt", "jobs", "steps", "depth", "samples", "cvc5", "fptab") if k in h}
        if tier == "thorough":
            self.params.update(h.get("tparams", {}))
            for k in ("budget", "qt", "steps", "samples"):
                if "t" + k in h:
                    self.opts[k] = h["t" + k]
        self.name = h["entry"] + ("" if not self.params else "[" + ",".join("%s=%s" % kv for kv in sorted(self.params.items())) + "]")

    def pargs(self):
        return ["%s=%s" % kv for kv in sorted(self.params.items())]

    def symbolic(self, jobs):
        o = self.opts
        out = tempfile.mkdtemp(prefix="k.", dir=self.work)
        cmd = [BUILD + "/ksym", self.src.bc, "--entry", self.h["entry"], "--out", out, "--jobs", str(o.get("jobs", jobs)),
               "--budget", str(o.get("budget", 200 if self.tier == "quick" else 600)),
               "--query-timeout", str(o.get("qt", 60 if self.tier == "quick" else 200)),
               "--samples", str(o.get("samples", 4))]
        if o.get("real"):
            cmd.append("--real")
        if o.get("cvc5") is False:
            cmd.append("--no-cvc5")
        if o.get("fptab"):
            cmd += ["--fp-table", str(o["fptab"])]
        cmd += ["--max-steps", str(o.get("steps", 20000000))]
        if "depth" in o:
            cmd += ["--max-depth", str(o["depth"])]
        for p in self.pargs():
            cmd += ["--param", p]
        for k in known_findings(self.prop):
            if k["harness"] == self.h["entry"]:
                cmd += ["--known", k["message"]]
        t = time.time()
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        self.wall = time.time() - t
        r = dict(covers={}, check_msgs={}, violations=[], samples=[], errors=[], unknowns=[], functions={}, truncated=False, max_query=0.0, workers=0)
        for f in glob.glob(out + "/res.*.json"):
            d = json.load(open(f))
            r["workers"] += 1
            for k, v in d.items():
                if k in ("violations", "samples", "errors", "unknowns"):
                    r[k] += v
                elif k in ("covers", "check_msgs"):
                    for a, b in v.items():
                        r[k][a] = r[k].get(a, 0) + b
                elif k == "functions":
                    for a, b in v:
                        r["functions"][a] = r["functions"].get(a, 0) + b
                elif k == "truncated":
                    r[k] |= v
                elif k == "max_query":
                    r[k] = max(r[k], v)
                else:
                    r[k] = r.get(k, 0) + v
        shutil.rmtree(out, ignore_errors=True)
        self.rc, self.log, self.r = p.returncode, p.stdout[-3000:], r
        if p.returncode and not r["errors"]:
            r["errors"].append("ksym exit %d: %s" % (p.returncode, p.stdout[-1500:]))
        return self

    # ---- native side
    def native(self, inputs, timeout=30, env=None):
        self.src.build_native()
        e = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:exitcode=77", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}
        if env:
            e.update(env)
        return scratch_run([self.src.exe, self.h["entry"], "INPUTS"] + self.pargs(), inputs, e, timeout)

    def bad(self, rc, rep, err):
        """Why a native run shows a violation, or None."""
        if any(l == "ASSUME-FAILED" or l.startswith("UNSUPPORTED") for l in rep):
            return None
        fails = [l[13:] for l in rep if l.startswith("CHECK-FAILED ")]
        listed = [k["message"] for k in known_findings(self.prop) if k["harness"] == self.h["entry"]]
        if fails:
            return ([f for f in fails if f not in listed] or fails)[0]
        if rc == "timeout":
            return "does not terminate"
        if rc == 0 or not rep:
            return None
        m = re.search(r"ERROR: AddressSanitizer: (\S+)|runtime error: (.*)|Assertion `(.*)' failed|terminate called after throwing an instance of '(.*)'|what\(\):\s*(.*)", err)
        if m:
            return "crash: " + next(x for x in m.groups() if x)
        if isinstance(rc, int) and (rc < 0 or rc == 77 or rc == 1):
            return "crash: signal/exit %s" % rc
        return None

    def reproduce(self, v):
        inputs = v["inputs"]
        tmo = 20 if v["kind"] in ("steps", "recursion") else 40
        why = self.bad(*self.native(inputs, tmo))
        if why:
            return why
        if v["undef"] or v["kind"] == "memory":
            for b in (0, 1, 0x40, 0x7f, 0xff):
                opt = "detect_leaks=0:exitcode=77:allocator_may_return_null=1:max_malloc_fill_size=1000000:malloc_fill_byte=%d" % b
                why = self.bad(*self.native(inputs, tmo, {"ASAN_OPTIONS": opt}))
                if why:
                    return why + " (value of uninitialised memory)"
            exe = self.src.build_plain()
            rc, rep, err = scratch_run(["valgrind", "-q", "--error-exitcode=99", "--undef-value-errors=yes", exe, self.h["entry"], "INPUTS"] + self.pargs(), inputs, {}, 120)
            if rc == 99 and not any(l == "ASSUME-FAILED" for l in rep):
                m = re.search(r"==\d+== (Conditional jump.*|Use of uninit.*|Invalid .*|Syscall param.*)", err)
                return "memcheck: " + (m.group(1) if m else "error")
        return None

    def validate(self, s):
        """Replay one explored path; returns (ok, violation, message)."""
        rc, rep, err = self.native(s["inputs"])
        why = self.bad(rc, rep, err)
        if why:
            return False, why, why
        if s["undef"]:
            return True, None, "skipped: depends on uninitialised memory"
        if rc != 0 or not rep or rep[-1] != "END":
            return False, None, "native run ended with %s: %s %s" % (rc, rep[-2:], err[-600:])
        nn, nc = [], []
        for l in rep:
            w = l.split(" ")
            if w[0] in ("NOTE", "NOTEF"):
                nn.append((w[1], w[0] == "NOTEF", int(w[2])))
            elif w[0] == "COVER":
                nc.append(w[1])
        sn = [(a, bool(b), int(c)) for a, b, c in s["notes"]]
        if sorted(set(nc)) != sorted(set(s["covers"])):
            return False, None, "covers differ: native %s, symbolic %s" % (sorted(set(nc)), sorted(set(s["covers"])))
        if len(sn) != len(nn):
            return False, None, "notes differ in number"
        for a, b in zip(sn, nn):
            if a[:2] != b[:2]:
                return False, None, "notes differ: %s %s" % (a, b)
            if a[2] != b[2]:
                if a[1]:
                    x, y = (struct.unpack("<d", struct.pack("<Q", z & (2**64 - 1)))[0] for z in (a[2], b[2]))
                    if (x != x and y != y) or x == y or abs(x - y) <= 1e-5 * max(1.0, abs(x), abs(y)):
                        continue
                    return False, None, "note %s: symbolic %r, native %r" % (a[0], x, y)
                return False, None, "note %s: symbolic %d, native %d" % (a[0], a[2], b[2])
        return True, None, ""


def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, "known_findings.jsonl")):
            l = l.strip()
            if l and not l.startswith("#") and l.startswith("{"):
                d = json.loads(l)
                if d["property"] == prop:
                    out.append(d)
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default="quick", choices=["quick", "thorough"])
    ap.add_argument("--only")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    spec = C.CHECKS.get(a.property) or C.SELFTEST[a.property]
    build_common()
    work = tempfile.mkdtemp(prefix="ksym.%s." % a.property)
    try:
        rc = decide(a, spec, work, t0)
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def decide(a, spec, work, t0):
    hs = [h for h in spec["harnesses"] if h.get("tier", "quick") == "quick" or a.tier == "thorough"]
    hs = [h for h in hs if not (a.tier == "thorough" and h.get("quick_only"))]
    if a.only:
        hs = [h for h in hs if a.only in h["entry"]]
    srcs = {n: Source(n, work) for n in dict.fromkeys(h["src"] for h in hs)}
    with ThreadPoolExecutor(8) as ex:
        f = [ex.submit(s.build_ir) for s in srcs.values()]
        g = [ex.submit(s.build_native) for s in srcs.values()]
        for x in f + g:
            x.result()
    tbuild = time.time() - t0
    runs = [Run(a.property, h, a.tier, srcs[h["src"]], work) for h in hs]
    par = min(spec.get("par", 4), len(runs)) or 1
    jobs = max(2, 8 // par)
    soft = []   # paths the engine could not decide: nothing is claimed about them
    viol, errs, incomplete, known, validated, samples_out = [], [], [], [], 0, []
    mismatch = []
    kf = known_findings(a.property)
    kf_hit = {}
    # bound the whole check: harnesses share the remaining time
    with ThreadPoolExecutor(par) as ex:
        list(ex.map(lambda r: r.symbolic(jobs), sorted(runs, key=lambda r: -r.h.get("weight", 1))))
    rdir = os.path.join(HERE, "build", "replay", a.property)
    shutil.rmtree(rdir, ignore_errors=True)
    for r in runs:
        n_unrep = 0
        seen, listed = set(), set()
        vs = sorted(r.r["violations"], key=lambda v: v["kind"] in ("steps", "recursion"))
        for v in vs:
            key = (v["kind"], v["msg"], v["where"])
            if (key in seen and len(viol) >= 1) or key in listed:
                continue
            if len(viol) >= 4:
                break
            why = r.reproduce(v)
            if not why:
                n_unrep += 1
                if n_unrep <= 3:
                    soft.append("%s: counterexample does not reproduce natively: %s %s %s inputs %s" % (r.name, v["kind"], v["msg"], v["where"], v["inputs"][:30]))
                continue
            seen.add(key)
            hit = [k for k in kf if k["harness"] == r.h["entry"] and v["kind"] == "check" and k["message"] == v["msg"]]
            if hit:
                listed.add(key)
                kf_hit[hit[0]["id"]] = hit[0]
                continue
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s.%d.json" % (r.h["entry"], len(viol)))
            json.dump(dict(property=a.property, harness=r.h["entry"], source="harness/%s.cc" % r.h["src"], params=r.params, kind=v["kind"], message=v["msg"],
                           where=v["where"], trace=v["trace"], native=why, inputs=v["inputs"]), open(path, "w"), indent=1)
            viol.append((path, r, v, why))
        for e in r.r["errors"]:
            (soft if r.r.get("paths", 0) else errs).append(r.name + ": " + e)
        smp = r.r["samples"][: (12 if a.tier == "quick" else 40)]
        with ThreadPoolExecutor(8) as ex:
            for s, (ok, w, msg) in zip(smp, ex.map(r.validate, smp)):
                if ok:
                    if not msg:
                        validated += 1
                        if len(samples_out) < 12 and sum(1 for x in samples_out if x["harness"] == r.name) < 2:
                            samples_out.append(dict(harness=r.name, inputs=dict((k, int(x)) for k, x in s["inputs"][:60]), observed=[[n[0], n[2]] for n in s["notes"]][:20], covers=s["covers"]))
                elif w:
                    hit = [k for k in kf if k["harness"] == r.h["entry"] and k["message"] == w]
                    if hit:
                        kf_hit[hit[0]["id"]] = hit[0]
                    elif not any(x[1] is r for x in viol):
                        os.makedirs(rdir, exist_ok=True)
                        path = os.path.join(rdir, "%s.s%d.json" % (r.h["entry"], len(viol)))
                        json.dump(dict(property=a.property, harness=r.h["entry"], source="harness/%s.cc" % r.h["src"], params=r.params, kind="native replay of an explored path", native=w, inputs=s["inputs"]), open(path, "w"), indent=1)
                        viol.append((path, r, dict(kind="replay", msg=w, where=""), w))
                else:
                    mismatch.append("%s: encoding disagrees with the real code on an explored path: %s inputs %s" % (r.name, msg, s["inputs"][:30]))
        if r.r["truncated"] or r.r.get("unknown", 0):
            incomplete.append("%s: %s%s" % (r.name, "time budget or step limit reached; " if r.r["truncated"] else "", "%d undecided queries %s" % (r.r.get("unknown", 0), r.r["unknowns"][:2])))
        elif not r.r["errors"] and not [v for v in r.r["violations"] if not any(k["harness"] == r.h["entry"] and k["message"] == v["msg"] for k in kf)]:
            for c in r.h.get("covers", []):
                if not r.r["covers"].get(c):
                    errs.append("%s: vacuous: no explored path reaches '%s'" % (r.name, c))
            if not r.r.get("checks", 0):
                errs.append("%s: vacuous: no assertion was reached" % r.name)
    (errs if os.environ.get("KSYM_STRICT") else incomplete).extend(soft)
    # A single path the encoding gets wrong is not believed; if nothing agrees, the encoding is broken.
    (incomplete if validated > len(mismatch) and not os.environ.get("KSYM_STRICT") else errs).extend(mismatch)
    T = lambda k: sum(r.r.get(k, 0) for r in runs)
    repo_fns = {}
    for r in runs:
        for f, n in r.r["functions"].items():
            if "kws::" in f:
                repo_fns[f] = repo_fns.get(f, 0) + n
    fn_list = sorted(repo_fns)
    ev = dict(
        property=a.property, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking",
        coverage=dict(
            states=T("states"), transitions=T("inst"), traces_validated_against_impl=validated, samples=samples_out,
            exhaustive=bool(not incomplete and not errs and not viol),
            paths=T("paths"), infeasible_paths=T("infeasible"), branch_decisions=T("sym_branches"), assertions=T("checks"), assertions_decided_by_solver=T("checks_solver"),
            solver=dict(queries=T("queries"), calls=T("solver_calls"), cache_hits=T("cache_hits"), sat=T("sat"), unsat=T("unsat"), unknown=T("unknown"), unsat_by_abstract_arithmetic=T("abs_unsat"),
                        cvc5_calls=T("cvc5"), solver_seconds=round(T("solver_time"), 3), max_query_seconds=max([r.r["max_query"] for r in runs] or [0])),
            functions_encoded=len(fn_list), functions=[f[:160] for f in fn_list[:150]],
            harnesses=[dict(name=r.name, bounds=B.of(r.h["src"], r.h["entry"]), paths=r.r.get("paths", 0), assertions=r.r.get("checks", 0), reached=r.r["covers"], checks=r.r["check_msgs"], real_arithmetic=bool(r.opts.get("real")),
                            wall_s=round(r.wall, 2), solver_s=round(r.r.get("solver_time", 0), 2), truncated=r.r["truncated"], undecided=r.r.get("unknown", 0)) for r in runs],
            incomplete=incomplete, build_seconds=round(tbuild, 2)),
        assumptions=C.COMMON_ASSUMPTIONS + spec.get("assumptions", []),
        violations=len(viol), wall_s=round(time.time() - t0, 2))
    if a.property in C.SELFTEST:
        ev_dir = work
    else:
        ev_dir = HERE + "/evidence"
    os.makedirs(ev_dir, exist_ok=True)
    with open("%s/%s.json" % (ev_dir, a.property), "w") as f:
        json.dump(ev, f, indent=1)
    for r in runs:
        print("%-46s paths %-7d checks %-7d queries %-6d solver %.1fs wall %.1fs" % (r.name, r.r.get("paths", 0), r.r.get("checks", 0), r.r.get("queries", 0), r.r.get("solver_time", 0), r.wall))
    print("%s %s: %d states, %d paths, %d assertions (%d by solver), %d traces replayed, %.1fs" % (a.property, a.tier, T("states"), T("paths"), T("checks"), T("checks_solver"), validated, time.time() - t0))
    for k in kf_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (a.property, k["what"]))
    for i in incomplete:
        print("INCOMPLETE: " + i)
    if viol:
        for path, r, v, why in viol:
            print("VIOLATION property=%s replay=%s" % (a.property, path))
            print("  %s: %s %s %s; native: %s" % (r.name, v["kind"], v["msg"], v["where"], why))
        return 1
    if errs:
        for e in errs[:12]:
            print("ERROR: " + e[:1500])
        return 2
    return 0


if __name__ == "__main__":
    try:
        main()
    except Fail as e:
        print("ERROR: " + str(e))
        sys.exit(2)
