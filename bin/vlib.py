"""Shared machinery of the checks: compile a harness against /repo, run it, run TLC, decide, write evidence."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
HARN = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(2, min(8, os.cpu_count() or 2))


class MachineryError(Exception):
    """The check itself is broken (not the code under test): reported as an error exit."""


class Violation(Exception):
    def __init__(self, text, replay):
        super().__init__(text)
        self.text, self.replay = text, replay


def known_findings():
    """Lines of known-findings.txt:  property=<id> finding=<name> <text>   (fixed: lines are history only)."""
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"property=(\S+)\s+finding=(\S+)\s+(.*)", line.strip())
            if m:
                out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


class Check:
    def __init__(self, pid, tier, technique_level="model_checking"):
        self.pid, self.tier, self.level = pid, tier, technique_level
        self.quick = tier == "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.dir = os.path.join(VERIF, ".build", "%s-%s" % (pid, tier))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.out = os.path.join(VERIF, ".out")
        os.makedirs(self.out, exist_ok=True)
        self.states = self.transitions = self.traces = self.events = self.trace_states = 0
        self.design_runs, self.samples, self.assumptions, self.notes = [], [], [], {}
        self.known_seen = []

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    # ---- harness -----------------------------------------------------------------------------
    def build(self, name, src, flags=(), inc=(), libs=(), opt="-O1", san=True, defs=("-DNDEBUG",), cxx="g++"):
        exe = self.path(name)
        cmd = [cxx, "-std=c++17", opt, "-g1", "-w"] + list(defs)
        if san:
            cmd += ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
        cmd += ["-I" + i for i in inc] + ["-I" + HARN, "-I" + os.path.join(REPO, "include")] + list(flags)
        cmd += [os.path.join(HARN, src), "-o", exe] + list(libs)
        t = time.time()
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise MachineryError("harness %s does not compile:\n%s" % (src, r.stdout[-4000:]))
        self.log("built %s in %.1fs" % (name, time.time() - t))
        return exe

    def build_many(self, jobs):
        """jobs: list of kwargs for build; compiled in parallel."""
        with cf.ThreadPoolExecutor(NCPU) as ex:
            return list(ex.map(lambda kw: self.build(**kw), jobs))

    def run(self, exe, args=(), timeout=300, env=None, cwd=None, stdin=None):
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=66:allocator_may_return_null=1",
                 UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
                 OPENBLAS_NUM_THREADS="1")
        e.update(env or {})
        try:
            r = subprocess.run([exe] + [str(a) for a in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               timeout=timeout, env=e, cwd=cwd or self.dir, input=stdin)
            return r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired as x:
            return 124, (x.stdout or b"").decode(errors="replace"), (x.stderr or b"").decode(errors="replace") + "\nTIMEOUT"

    def record(self, exe, args, trace, timeout=300, env=None, confirm=True, cwd=None):
        """Run a harness that writes `trace`. A crash, sanitizer report or hang of the real code is a violation
        (confirmed by a second run)."""
        rc, out, err = self.run(exe, list(args) + [trace], timeout, env, cwd)
        if rc != 0 and confirm:
            self.log("harness exit %d, repeating" % rc)
            rc, out, err = self.run(exe, list(args) + [trace], timeout * 2, env, cwd)
        if rc != 0:
            last = tail_lines(trace, 30)
            raise self.violation("the code under test crashed, reported memory misuse or did not finish (exit %d)" % rc,
                                 dict(cmd=[exe] + [str(a) for a in args], exit=rc, stderr=err[-6000:],
                                      stdout=out[-1000:], last_events=last))
        return out

    def record_all(self, jobs, timeout=300, env=None):
        """jobs: trace file -> (executable, arguments); recorded in parallel. Returns the re-recording function."""
        def rec(t):
            self.record(jobs[t][0], jobs[t][1], t, timeout, env)
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(rec, jobs))
        return rec

    # ---- TLC ---------------------------------------------------------------------------------
    def tlc(self, module, cfg, workers=1, timeout=600, env=None, coverage=False, extra=(), heap="2g"):
        spec = os.path.join(SPECS, module + ".tla")
        cfgp = os.path.join(SPECS, cfg + ".cfg") if not os.path.isabs(cfg) else cfg
        meta = self.path("tlc-%s-%d-%s" % (os.path.basename(cfg), os.getpid(), hashlib.md5(repr((env, time.time())).encode()).hexdigest()[:8]))
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + heap, "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
               "-config", cfgp, "-workers", str(workers)] + (["-coverage", "1"] if coverage else []) + list(extra) + [spec]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e,
                               cwd=os.path.dirname(spec))
            out, rc = r.stdout, r.returncode
        except subprocess.TimeoutExpired as x:
            out, rc = (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), 124
        shutil.rmtree(meta, ignore_errors=True)
        res = dict(rc=rc, out=out, wall=time.time() - t, gen=0, distinct=0, depth=0)
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if not m:
            m = re.findall(r"([\d,]+) states generated \([^)]*\), ([\d,]+) distinct", out)
        if m:
            res["gen"], res["distinct"] = (int(x.replace(",", "")) for x in m[-1])
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        if m:
            res["depth"] = int(m[-1])
        return res

    def design(self, module, cfg, workers=None, timeout=800, cover=(), env=None, heap="4g", extra=()):
        """Exhaustive check of the specification itself; actions named in `cover` must have been taken."""
        r = self.tlc(module, cfg, workers or NCPU, timeout, env=env, coverage=bool(cover), heap=heap, extra=extra)
        if r["rc"] != 0 or "No error has been found" not in r["out"]:
            raise MachineryError("design check %s/%s failed:\n%s" % (module, cfg, r["out"][-3000:]))
        acts = {}
        for m in re.finditer(r"^<(\w+) line [^>]*>: (\d+):(\d+)", r["out"], re.M):
            acts[m.group(1)] = max(acts.get(m.group(1), 0), int(m.group(3)))
        for a in cover:
            if not acts.get(a):
                raise MachineryError("design check %s/%s is vacuous: action %s never taken" % (module, cfg, a))
        self.states += r["distinct"]
        self.transitions += r["gen"]
        self.design_runs.append(dict(spec=module, cfg=cfg, distinct_states=r["distinct"], transitions=r["gen"],
                                     depth=r["depth"], actions=acts, wall_s=round(r["wall"], 1)))
        self.log("design %s/%s: %d distinct states, %d transitions, depth %d (%.1fs)" % (
            module, cfg, r["distinct"], r["gen"], r["depth"], r["wall"]))
        return r

    def _validate_one(self, module, cfg, trace, timeout, env, heap):
        n = sum(1 for _ in open(trace))
        if n == 0:
            raise MachineryError("empty trace " + trace)
        e = dict(TRACE=trace)
        e.update(env or {})
        r = self.tlc(module, cfg, 1, timeout, env=e, heap=heap)
        m = re.findall(r"REJECTED_AT.*?(\d+)", r["out"])
        if r["rc"] == 0 and "No error has been found" in r["out"]:
            return True, n, None, r
        if m and "postcondition" in r["out"].lower():
            return False, n, int(m[-1]), r
        m2 = re.findall(r"Error: Invariant (\w+) is violated", r["out"])
        if m2:
            l = re.findall(r"^/?\\?\s*l = (\d+)", r["out"].replace("/\\ l = ", "l = "), re.M)
            return False, n, (int(l[-1]) - 1 if l else 0), dict(r, inv=m2[0])
        if "Attempted to" in r["out"] or "The first argument of" in r["out"] or "TLC was unable to" in r["out"]:
            # a logged value has a shape the specification cannot even evaluate: not a behaviour of the specification
            l = re.findall(r"^(?:/\\ )?l = (\d+)", r["out"], re.M)
            return False, n, (int(l[-1]) if l else None), dict(r, inv="evaluation: " + " ".join(re.findall(r"Attempted to[^\n]*", r["out"])[:2]))
        raise MachineryError("TLC failed on trace %s (rc %s):\n%s" % (trace, r["rc"], r["out"][-3000:]))

    def validate(self, module, cfg, traces, timeout=600, env=None, rerun=None, heap="3g", par=None):
        """Each trace file must be a behaviour of the specification. On rejection the trace is recorded again with
        `rerun` (a callable producing the same trace file) and must be rejected again before it is reported."""
        if isinstance(traces, str):
            traces = [traces]
        with cf.ThreadPoolExecutor(par or NCPU) as ex:
            res = list(ex.map(lambda t: self._validate_one(module, cfg, t, timeout, env, heap), traces))
        for t, (ok, n, at, r) in zip(traces, res):
            if not ok:
                bad = segment(t, at)
                self.log("trace %s rejected at line %s; repeating" % (os.path.basename(t), at))
                if rerun:
                    rerun(t)
                ok2, n2, at2, r2 = self._validate_one(module, cfg, t, timeout * 2, env, heap)
                if ok2:
                    self.log("rejection did not repeat; not reported")
                    self.notes.setdefault("unrepeated_rejections", []).append(dict(trace=os.path.basename(t), at=at))
                    continue
                raise self.violation("recorded behaviour of the real code is not allowed by %s" % module,
                                     dict(trace=os.path.basename(t), line=at2, invariant=r2.get("inv"), **segment(t, at2)))
            nseg, nev = count_segments(t)
            self.traces += nseg
            self.events += nev
            self.trace_states += r["distinct"]
            self.log("trace %s: %d segments, %d events accepted by %s (%.1fs)" % (os.path.basename(t), nseg, nev, module, r["wall"]))
        return True

    def rejected(self, module, cfg, trace, timeout=600, env=None):
        ok, n, at, r = self._validate_one(module, cfg, trace, timeout, env, "2g")
        return (not ok), at

    def binding_selftest(self, module, cfg, trace, mutate, env=None, maxlines=4000):
        """Non-vacuity of the binding: corrupting one recorded field must make the trace unacceptable."""
        lines = open(trace).read().splitlines()[:maxlines]
        k, new = mutate(lines)
        if new is None:
            raise MachineryError("binding self-test could not corrupt a field")
        p = trace + ".corrupt"
        open(p, "w").write("\n".join(new) + "\n")
        rej, at = self.rejected(module, cfg, p, env=env)
        if not rej:
            raise MachineryError("binding self-test: a corrupted trace was accepted by " + module)
        self.notes.setdefault("binding_selftests", []).append(dict(spec=module, corrupted_line=k, rejected_at=at))

    # ---- results -----------------------------------------------------------------------------
    def violation(self, text, detail):
        path = os.path.join(self.out, "%s-violation.json" % self.pid)
        json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, what=text, **detail), open(path, "w"), indent=1, default=str)
        return Violation(text, path)

    def finding(self, name, still_fails):
        """A recorded genuine defect: print it while it persists; complain if the file does not list it."""
        kf = known_findings().get(self.pid, {})
        if still_fails:
            if name not in kf:
                raise self.violation("defect %s" % name, dict(finding=name))
            print("KNOWN-FINDING: property=%s %s" % (self.pid, kf[name]), flush=True)
            self.known_seen.append(name)

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

    def evidence(self, violations):
        if not self.samples:
            self.samples = ["no sample recorded"]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, wall_s=round(time.time() - self.t0, 1),
                  violations=violations, assumptions=self.assumptions,
                  coverage=dict(states=self.states + self.trace_states, transitions=self.transitions + self.events,
                                traces_validated_against_impl=self.traces, samples=self.samples,
                                trace_events=self.events, design_runs=self.design_runs,
                                known_findings=self.known_seen, **self.notes))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1, default=str)


def main(pid, tier, body, **kw):
    c = Check(pid, tier, **kw)
    try:
        body(c)
    except Violation as v:
        c.evidence(1)
        print("%s: %s" % (pid, v.text))
        try:
            print(open(v.replay).read()[:6000])
        except OSError:
            pass
        print("VIOLATION property=%s replay=%s" % (pid, v.replay), flush=True)
        shutil.rmtree(c.dir, ignore_errors=True)
        return 1
    except MachineryError as m:
        print("%s: machinery error: %s" % (pid, m), flush=True)
        return 2
    c.evidence(0)
    c.log("held on everything explored: %d design states, %d traces / %d events validated" % (c.states, c.traces, c.events))
    shutil.rmtree(c.dir, ignore_errors=True)
    return 0


def tail_lines(path, n):
    try:
        return open(path, errors="replace").read().splitlines()[-n:]
    except OSError:
        return []


def count_segments(path):
    seg = ev = 0
    for line in open(path):
        ev += 1
        if '"e":"reset"' in line:
            seg += 1
    return max(seg, 1), ev


def segment(path, at):
    """The trace segment (from its reset line) around 1-based line `at`."""
    lines = open(path).read().splitlines()
    if at is None or not lines:
        return dict(segment=lines[:50])
    at = max(1, min(at, len(lines)))
    s = at - 1
    while s > 0 and '"e":"reset"' not in lines[s]:
        s -= 1
    return dict(rejected_event=lines[at - 1][:4000], segment=[x[:2000] for x in lines[s:at]][-200:])


def exported(out):
    """Programs printed by the Export operator of a specification, one JSON text each."""
    res = []
    for line in out.splitlines():
        if line.startswith('"EXPORT '):
            res.append(json.loads(line)[7:])
    return res


def corrupt_first(pattern, repl):
    def f(lines):
        for k, x in enumerate(lines):
            y = re.sub(pattern, repl, x, count=1)
            if y != x:
                return k, lines[:k] + [y] + lines[k + 1:]
        return 0, None
    return f
