#!/usr/bin/env python3
"""Runs the check of one property: check.py P01 [--tier quick|thorough] [--repo DIR] [--job N] [--keep] [-v]

Every run compiles /repo's current sources to LLVM IR together with the harnesses of the property, executes them
symbolically with build/symx (every branch, address and assertion over symbolic data is decided by z3), and replays each
counterexample against natively compiled code before it is reported."""
import argparse, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time, mmap
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import jobs as J, propdoc

CLANG, LINK, OPT, GCC = "clang", "llvm-link-18", "opt-18", "gcc"
CORES = max(1, min(8, os.cpu_count() or 1))
PASSES = "function(sroa,early-cse,instsimplify,simplifycfg)"

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def die(msg):
    print(msg); sys.exit(2)

def engine():
    exe = os.path.join(HERE, "build", "symx"); h = hashlib.sha256()
    for f in ("ex.h", "symx.cpp", "build.sh"):
        h.update(open(os.path.join(HERE, "engine", f), "rb").read())
    stamp = exe + ".stamp"
    if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return exe
    tmp = tempfile.mkdtemp(prefix="vf-eng-"); r = sh([os.path.join(HERE, "engine", "build.sh"), tmp])
    if r.returncode:
        shutil.rmtree(tmp); die("engine build failed:\n" + r.stdout[-4000:])
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    shutil.copy(os.path.join(tmp, "symx"), exe + ".new"); os.replace(exe + ".new", exe)
    open(stamp, "w").write(h.hexdigest()); shutil.rmtree(tmp); return exe

class Build:
    """IR modules and native programs, each compiled once per run from the current sources."""
    def __init__(self, repo, work):
        self.repo, self.work, self.memo, self.lock = repo, work, {}, threading.Lock()
        self.H = os.path.join(HERE, "harness"); self.compile_s = 0.0
    def once(self, key, fn):
        with self.lock:
            if key not in self.memo:
                self.memo[key] = [threading.Lock(), None]
            e = self.memo[key]
        with e[0]:
            if e[1] is None:
                t = time.time(); e[1] = (fn(),); self.compile_s += time.time() - t
            return e[1][0]
    def flags(self, variant):
        # what gcc 13 merely warns about must not stop the check either
        f = ["-Wno-int-conversion", "-Wno-implicit-function-declaration", "-Wno-incompatible-function-pointer-types", "-Wno-implicit-int", "-Wno-return-type"]
        f += ["-I" + self.repo, "-I" + self.H, "-include", os.path.join(self.H, "vf_heap.h")]
        for v in J.VARIANTS[variant]:
            f.append(v.replace("@H", self.H))
        return f
    def run(self, cmd):
        r = sh(cmd)
        if r.returncode:
            die("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    def bc_one(self, src, variant):
        def go():
            out = os.path.join(self.work, "%s-%s.bc" % (os.path.basename(src), variant))
            self.run([CLANG, "-O0", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-g", "-emit-llvm", "-c", "-w"] + self.flags(variant) + ["-o", out, src]); return out
        return self.once(("bc", src, variant), go)
    def compiles(self, variant):
        # a build the repository may not have: a source that is no C++ is no violation
        def go():
            for cc in (CLANG, GCC):
                r = sh([cc, "-w", "-O0", "-c", "-o", os.path.join(self.work, "try-%s.o" % cc)] + self.flags(variant) + [os.path.join(self.repo, "tommyds", "tommy.c")])
                if r.returncode: return r.stdout[-300:]
            return ""
        return self.once(("try", variant), go)
    def module(self, harness, variant):
        def go():
            a = self.bc_one(os.path.join(self.repo, "tommyds", "tommy.c"), variant); b = self.bc_one(os.path.join(self.H, harness), variant)
            out = os.path.join(self.work, "%s-%s.linked.bc" % (harness, variant))
            self.run([LINK, "-o", out + ".l", a, b]); self.run([OPT, "-passes=" + PASSES, "-o", out, out + ".l"]); return out
        return self.once(("mod", harness, variant), go)
    def native(self, harness, variant, kind):
        def go():
            out = os.path.join(self.work, "%s-%s-%s.exe" % (harness, variant, kind)); m = "m32" if variant.startswith("m32") else ""
            fl = self.flags(variant) + ["-DVF_NATIVE", "-w", "-g"]
            if kind == "gcc":
                cc = [GCC, "-O3"] + ([] if m else ["-march=native"])
            elif kind == "cost":
                cc = [CLANG, "-O0", "-fsanitize-coverage=trace-pc"]
            else:
                cc = [CLANG, "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,shift,integer-divide-by-zero,null,builtin,unreachable", "-fno-sanitize-recover=all"]
            wrap = ["-Dmalloc=vf_foreign_malloc", "-Dcalloc=vf_foreign_calloc", "-Drealloc=vf_foreign_realloc", "-Dfree=vf_foreign_free", "-include", "stdlib.h"]
            lib, har, rt = out + ".lib.o", out + ".h.o", out + ".rt.o"
            wl = ["-include", "stdlib.h", "-include", os.path.join(self.H, "vf_foreign.h")]
            self.run(cc + fl + wl + ["-c", "-o", lib, os.path.join(self.repo, "tommyds", "tommy.c")]); self.run(cc + fl + wl + ["-c", "-o", har, os.path.join(self.H, harness)])
            rtf = [x for x in fl if "vf_portable" not in x]
            if "-x" in rtf:
                i = rtf.index("-x"); del rtf[i:i + 2]; rtf = [x for x in rtf if not x.startswith("-std=") and x != "-fno-rtti"]
            while "-include" in rtf:
                i = rtf.index("-include"); del rtf[i:i + 2]
            self.run([c for c in cc if "coverage" not in c] + rtf + ["-DVF_WRAP", "-c", "-o", rt, os.path.join(self.H, "vf_native.c")])
            self.run(cc + (["-m32"] if m else []) + ["-o", out, lib, har, rt]); return out
        return self.once(("nat", harness, variant, kind), go)

ENV = dict(os.environ, ASAN_OPTIONS="exitcode=77:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:abort_on_error=0", UBSAN_OPTIONS="exitcode=77:halt_on_error=1:print_stacktrace=0")

def write_input(path, job, c):
    with open(path, "w") as f:
        for p in job.get("p", []): f.write("P %d\n" % p)
        for n, w, v in c["inputs"]: f.write("I %s\n" % v)
        for s, o, v in c["uninit"]: f.write("U %d %d %d\n" % (s, o, v))

def native_run(exe, entry, inp, obs, timeout):
    def lim():
        import resource
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        r = subprocess.run([exe, entry, inp] + ([obs] if obs else []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ENV, preexec_fn=lim)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return "timeout", ""

def bad(rc, nonterm):
    if rc == "timeout": return nonterm
    return rc in (99, 77) or rc < 0 or rc in (132, 134, 135, 136, 139)

class Check:
    def __init__(self, a):
        self.a = a; self.pid = a.id; self.tier = a.tier; self.t0 = time.time(); self.work = tempfile.mkdtemp(prefix="vf-%s-" % a.id)
        self.b = Build(a.repo, self.work); self.violations = []; self.unrep = []; self.stop = False; self.results = []; self.val = dict(ok=0, bad=0, skipped=0); self.procs = {}; self.badsamples = []
        self.lock = threading.Lock()
    def replay(self, job, cand, tag):
        inp = os.path.join(self.work, tag + ".in"); write_input(inp, job, cand); v = job.get("v", "def"); out = []
        kinds = ["cost"] if job.get("cost") else ["asan", "gcc"]
        for k in kinds:
            rc, txt = native_run(self.b.native(job["h"], v, k), job["e"], inp, None, 60 if k == "asan" else 30); out.append((k, rc, txt))
            if bad(rc, cand.get("kind") == "nontermination"): return True, k, rc, txt, inp
        return False, "", out, "", inp
    def known(self, job, cand):
        for k in J.KNOWN:
            if k["property"] == self.pid and k["entry"] == job["e"] and k["msg"] in cand["msg"]: return k
        return None
    def report(self, *a):
        with self.lock:
            if not self.stop: self.report1(*a)
    def report1(self, job, cand, kind, rc, txt, inp):
        d = os.path.join(HERE, "build", "replay", "%s-%s-%d" % (self.pid, job["e"], len(self.violations))); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        shutil.copy(inp, os.path.join(d, "input.txt")); json.dump(dict(property=self.pid, job=job, counterexample=cand, native=dict(build=kind, exit=rc, output=txt[-6000:])), open(os.path.join(d, "violation.json"), "w"), indent=1)
        with open(os.path.join(d, "replay.sh"), "w") as f:
            f.write("#!/bin/sh\n# rebuilds the harness and the library from the current tree and runs the counterexample natively\nexec python3 %s %s --replay %s \"$@\"\n" % (os.path.join(HERE, "check.py"), self.pid, d))
        os.chmod(os.path.join(d, "replay.sh"), 0o755)
        self.violations.append(dict(job=job["name"], kind=cand["kind"], msg=cand["msg"], where=cand["where"], native=[kind, rc], replay=d))
        print("counterexample: job %s: %s: %s" % (job["name"], cand["kind"], cand["msg"])); print("  at %s" % cand["where"])
        print("  inputs: %s" % ", ".join("%s=%s" % (n, v) for n, w, v in cand["inputs"][:40]))
        print("  native replay (%s build): exit %s %s" % (kind, rc, next((l for l in txt.splitlines() if "VF-FAIL" in l or "ERROR" in l or "runtime error" in l), "")))
        print("VIOLATION property=%s replay=%s" % (self.pid, d)); sys.stdout.flush(); self.stop = True
    def run_job(self, job, tok):
        name = job["name"]; out = os.path.join(self.work, "out-" + name); os.makedirs(out); v = job.get("v", "def")
        mod = self.b.module(job["h"], v); left = self.deadline - time.time()
        if left <= 1 or self.stop:
            self.results.append(dict(job=job, skipped=True)); return
        cmd = [self.exe, "-o", out, "-e", job["e"], "-t", "%.1f" % min(left, job.get("t", 100 if self.tier == "quick" else 1200)), "-tok", self.tok, "-seed", str(self.a.seed), "-logic", str(job.get("logic", 4)), "-rlimit", str(job.get("rlimit", 3000000)), "-steps", str(job.get("steps", 60000000)), "-samples", str(job.get("samples", 3)), "-cand", "4"]
        for p in job.get("p", []): cmd += ["-p", str(p)]
        if self.a.verbose: cmd.append("-v")
        p = subprocess.Popen(cmd + [mod], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True); self.procs[name] = p; seen = set(); t0 = time.time(); tries = {}
        killed = False; log = []; rd = threading.Thread(target=lambda: log.append(p.stdout.read())); rd.start()
        while True:
            rc = p.poll()
            for f in sorted(os.listdir(out)):
                if f.startswith("cand-") and f.endswith(".json") and f not in seen:
                    seen.add(f); c = json.load(open(os.path.join(out, f)))
                    ok, kind, nrc, txt, inp = self.replay(job, c, name + "-" + f)
                    if self.known(job, c):
                        self.knownhit[(job["e"], c["msg"])] = c; continue
                    if ok and not self.stop: self.report(job, c, kind, nrc, txt, inp)
                    elif not ok:
                        with self.lock: self.unrep.append(dict(job=name, kind=c["kind"], msg=c["msg"], where=c["where"], native=[(k, r) for k, r, t in nrc] if isinstance(nrc, list) else nrc, inputs=c["inputs"][:60]))
            if rc is not None: break
            if self.stop or time.time() > self.deadline + 20:
                try: os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError: pass
                p.wait(); killed = True; break
            time.sleep(0.02)
        rd.join(5); st = []
        for f in os.listdir(out):
            if f.startswith("stats-"):
                try: st.append(json.load(open(os.path.join(out, f))))
                except Exception: pass
        self.results.append(dict(job=job, rc=0 if killed else p.returncode, killed=killed, wall=time.time() - t0, stats=st, log=(log[0] if log else b"").decode("utf-8", "replace")[-3000:]))
        if self.a.verbose and log: sys.stderr.write("[%s] %s\n" % (name, log[0].decode()[-2000:]))
        if not self.stop: self.validate(job, st)
    def validate(self, job, st):
        sam = [(i, s) for i, x in enumerate(st) for s in x.get("samples", [])][: job.get("validate", 3)]; v = job.get("v", "def")
        for n, (i, s) in enumerate(sam):
            inp = os.path.join(self.work, "%s-s%d.in" % (job["name"], n)); write_input(inp, job, s); ob = inp + ".obs"
            rc, txt = native_run(self.b.native(job["h"], v, "gcc"), job["e"], inp, ob, 60)
            if rc == 0:
                got = open(ob).read().split() if os.path.exists(ob) else []
                if got == s["obs"]: self.val["ok"] += 1; continue
            if rc in (96, "timeout"): self.val["skipped"] += 1; continue
            if bad(rc, False) and not self.stop:
                # the compiled library fails on an input the encoding accepts: that run is itself a counterexample
                ok, kind, nrc, t2, inp2 = self.replay(job, dict(s, kind="assert"), "%s-s%d" % (job["name"], n))
                if ok: self.report(job, dict(s, kind="native", msg="the compiled library fails on a sampled path", where=""), kind, nrc, t2, inp2); return
            self.val["bad"] += 1; self.badsamples.append(dict(job=job["name"], rc=rc, out=txt[-300:], expected=s["obs"][:20], got=(open(ob).read().split()[:20] if os.path.exists(ob) else [])))
    def main(self):
        self.exe = engine(); jl = J.jobs(self.pid, self.tier)
        if self.a.job: jl = [j for j in jl if j["name"] in self.a.job.split(",")]
        if not jl: die("no job for " + self.pid)
        self.notbuilt = ["%s: not run, the library does not compile in the %s build: %s" % (j["name"], j["v"], self.b.compiles(j["v"])) for j in jl if j.get("optional") and self.b.compiles(j["v"])]
        jl = [j for j in jl if not (j.get("optional") and self.b.compiles(j["v"]))]
        self.knownhit = {}
        budget = self.a.budget or (300 if self.tier == "quick" else 840); self.deadline = self.t0 + budget
        self.tok = os.path.join(self.work, "tok"); n = min(len(jl), CORES); open(self.tok, "wb").write(struct.pack("i", CORES - n) + b"\0" * 124)
        fd = os.open(self.tok, os.O_RDWR); self.mm = mmap.mmap(fd, 128); q = list(jl); ths = []
        def addtok(): # the only non-atomic writer besides the workers' atomic updates is guarded by retry
            with self.lock:
                t = struct.unpack("i", self.mm[:4])[0]; self.mm[:4] = struct.pack("i", t + 1)
        err = []
        def worker():
            try:
                while True:
                    with self.lock:
                        if not q: break
                        j = q.pop(0)
                    self.run_job(j, None)
            except SystemExit as e: err.append(e.code)
            except Exception as e:
                import traceback; traceback.print_exc(); err.append(2)
            addtok()
        for _ in range(n):
            t = threading.Thread(target=worker); t.start(); ths.append(t)
        for t in ths: t.join()
        if err and not self.violations: self.cleanup(); sys.exit(2)
        self.evidence(jl); self.cleanup()
        for k in J.KNOWN:
            if k["property"] == self.pid: print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        crashed = [r["job"]["name"] for r in self.results if not r.get("skipped") and (r["rc"] not in (0,) or not (r["stats"] or r["killed"]))]
        if self.violations: sys.exit(1)
        if crashed and not self.stop:
            print("symbolic execution failed in: " + ", ".join(crashed)); [print(r["log"][-600:]) for r in self.results if r["job"]["name"] in crashed]; sys.exit(2)
        if self.a.strict and (self.unrep or self.badsamples): print(json.dumps(dict(unreproduced=self.unrep, badsamples=self.badsamples), indent=1)[:6000])
        print("OK property=%s jobs=%d paths=%d queries=%d solver=%.1fs validated=%d wall=%.1fs%s" % (self.pid, len(jl), self.tot["paths"], self.tot["queries"], self.tot["solver_s"], self.val["ok"], time.time() - self.t0, " (bounds cut short: see the evidence file)" if self.incomplete else "")); sys.exit(0)
    def evidence(self, jl):
        tot = {}; funcs = {}; jobs_out = []; samples = []; incomplete = list(self.notbuilt); solver_unknown = 0
        for k in ("paths", "infeasible", "queries", "sat", "unsat", "unknown", "branches", "forks", "asserts", "asserts_by_simplification", "asserts_by_solver", "steps", "truncated", "unsupported", "concretizations", "choices"): tot[k] = 0
        tot["solver_s"] = 0.0
        for r in self.results:
            j = r["job"]
            if r.get("skipped"): incomplete.append(j["name"] + ": not started within the time budget"); jobs_out.append(dict(job=j["name"], skipped=True)); continue
            jt = {k: sum(s[k] for s in r["stats"]) for k in tot}
            for k in tot: tot[k] += jt[k]
            if r["killed"] and not self.stop: incomplete.append(j["name"] + ": stopped at the time limit")
            notes = sorted(set(n for s in r["stats"] for n in s["notes"] + s["unsupported_msgs"]))
            if jt["truncated"] or jt["unsupported"] or (notes and not self.stop): incomplete += ["%s: %s" % (j["name"], n) for n in notes]
            reach = {}
            for s in r["stats"]:
                for k, v in s["reach"].items(): reach[k] = reach.get(k, 0) + v
                for fn, h in s["functions"].items():
                    fn = fn.rsplit(".", 1)[0] if fn.rsplit(".", 1)[-1].isdigit() else fn; mg = re.match(r"_ZL?(\d+)(.*)", fn); fn = mg.group(2)[:int(mg.group(1))] if mg else fn; o = funcs.get(fn)
                    funcs[fn] = h if not o or len(o) != len(h) else "".join("1" if a == "1" or b == "1" else "0" for a, b in zip(o, h))
            miss = [x for x in j.get("reach", []) if not reach.get(x)]
            if miss and not self.stop: incomplete.append("%s: never reached: %s" % (j["name"], ", ".join(miss)))
            for s in r["stats"]:
                for x in s["samples"][:1]:
                    if len(samples) < 12 and not any(y["job"] == j["name"] for y in samples): samples.append(dict(job=j["name"], inputs=[[a, int(c)] for a, b, c in x["inputs"][:60]], path_constraints=x["constraints"], instructions=x["steps"]))
            jobs_out.append(dict(job=j["name"], harness=j["h"], entry=j["e"], build=j.get("v", "def"), params=j.get("p", []), bounds=j.get("bounds", ""), exhausted_within_bounds=not (jt["truncated"] or jt["unsupported"]) and not notes, paths=jt["paths"], queries=jt["queries"], solver_s=round(jt["solver_s"], 3), wall_s=round(r["wall"], 2), reach=reach))
        self.tot = tot; self.incomplete = incomplete
        ev = dict(property=self.pid, tier=self.tier, seed=self.a.seed, level="model_checking", wall_s=round(time.time() - self.t0, 2), violations=len(self.violations),
            coverage=dict(states=tot["paths"] + tot["forks"], transitions=tot["steps"], traces_validated_against_impl=self.val["ok"], samples=samples or [dict(note="no path completed")],
                exhaustive=not incomplete and not self.violations, what="states: completed symbolic paths plus symbolic states forked; transitions: IR instructions executed symbolically; traces: sampled complete paths whose solver model was run on the gcc -O3 build with identical observations",
                symbolic_paths=tot["paths"], infeasible_paths=tot["infeasible"], solver="z3 " + J.z3version(), queries=tot["queries"], queries_sat=tot["sat"], queries_unsat=tot["unsat"], queries_unknown=tot["unknown"], solver_s=round(tot["solver_s"], 2), assertions=tot["asserts"], assertions_closed_by_solver=tot["asserts_by_solver"], assertions_closed_by_simplification=tot["asserts_by_simplification"], address_concretisations=tot["concretizations"],
                functions_encoded={f: "%d/%d blocks" % (h.count("1"), len(h)) for f, h in sorted(funcs.items())}, jobs=jobs_out, not_completed=incomplete, unreproduced_candidates=self.unrep, mismatching_traces=self.badsamples, compile_s=round(self.b.compile_s, 2)),
            assumptions=["bounds: " + propdoc.D[self.pid]["bounds"], "outside the bounds: " + propdoc.D[self.pid]["outside"]] + propdoc.ASSUME)
        if self.violations: ev["coverage"]["violations_found"] = self.violations
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True); p = os.path.join(HERE, "evidence", self.pid + ".json"); json.dump(ev, open(p + ".tmp", "w"), indent=1); os.replace(p + ".tmp", p)
    def cleanup(self):
        for p in self.procs.values():
            try: os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError): pass
        if self.a.keep: print("work directory: " + self.work)
        else: shutil.rmtree(self.work, ignore_errors=True)

def replay_dir(a):
    v = json.load(open(os.path.join(a.replay, "violation.json"))); job = v["job"]; work = tempfile.mkdtemp(prefix="vf-replay-"); b = Build(a.repo, work); rcs = []
    for k in (["cost"] if job.get("cost") else ["asan", "gcc"]):
        rc, txt = native_run(b.native(job["h"], job.get("v", "def"), k), job["e"], os.path.join(a.replay, "input.txt"), None, 60); print("[%s build] exit %s\n%s" % (k, rc, txt[-4000:])); rcs.append(rc)
    shutil.rmtree(work); sys.exit(1 if any(bad(r, True) for r in rcs) else 0)

if __name__ == "__main__":
    ap = argparse.ArgumentParser(); ap.add_argument("id"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick"); ap.add_argument("--repo", default="/repo"); ap.add_argument("--job"); ap.add_argument("--keep", action="store_true"); ap.add_argument("-v", dest="verbose", action="store_true"); ap.add_argument("--budget", type=float); ap.add_argument("--replay"); ap.add_argument("--strict", action="store_true"); a = ap.parse_args()
    a.seed = int(os.environ.get("VERIF_SEED") or 1)
    if a.tier not in ("quick", "thorough"): a.tier = "quick"
    if a.id == "setup": print(engine()); sys.exit(0)
    if a.replay: replay_dir(a)
    Check(a).main()
