"""Common machinery of the checks: building the harness from /repo, running TLC,
recording evidence, reporting violations."""
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
TLA = "/opt/veriftools/tla/"
CP = TLA + "tla2tools.jar:" + TLA + "CommunityModules-deps.jar"
NCPU = max(1, min(8, os.cpu_count() or 1))


class CheckError(Exception):
    """The check itself could not be carried out."""


class Violation(Exception):
    def __init__(self, what, replay):
        Exception.__init__(self, what)
        self.what, self.replay = what, replay


def go_env(cgo=True):
    env = dict(os.environ)
    env.update(
        HOME="/root",
        PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off", GOENV="off",
        GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", CC="gcc",
        CGO_ENABLED="1" if cgo else "0")
    return env


def build(cgo=True, arch=None, race=False):
    """Builds the harness against /repo's working tree and returns its path."""
    t0 = time.time()
    src = os.path.join(VERIF, "harness")
    name = "vh-" + arch if arch else "vh-race" if race else "vh-cgo" if cgo else "vh-nocgo"
    env = go_env(cgo and not arch)
    if arch:
        env["GOARCH"] = arch
    bdir = tempfile.mkdtemp(prefix="b", dir=_mk(BUILD))
    try:
        mod = open(os.path.join(src, "go.mod")).read().replace("=> /repo", "=> " + REPO)
        with open(os.path.join(bdir, "go.mod"), "w") as f:
            f.write(mod)
        shutil.copy(os.path.join(src, "go.sum"), bdir)
        exe = os.path.join(bdir, name)
        r = subprocess.run(["go", "build"] + ["-race"] * race + ["-modfile", os.path.join(bdir, "go.mod"), "-o", exe, "."],
                           cwd=src, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=800)
        if r.returncode != 0:
            raise CheckError("building the harness failed:\n" + r.stdout.decode(errors="replace")[-4000:])
        final = os.path.join(BUILD, name)
        os.replace(exe, final)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    log("built %s in %.1fs" % (name, time.time() - t0))
    return final


def _mk(d):
    os.makedirs(d, exist_ok=True)
    return d


def log(msg):
    print("# " + msg, flush=True)


class Run:
    """One run of one check."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vh-%s-" % pid, dir="/tmp")
        os.chmod(self.tmp, 0o755)
        self.states = 0          # distinct states TLC found, all runs
        self.transitions = 0     # states TLC generated, all runs
        self.traces = 0          # traces/scenarios of the real code that TLC validated
        self.events = 0          # events in them
        self.samples = []
        self.notes = []
        self.extra = {}
        self.scope = []

    def path(self, name):
        return os.path.join(self.tmp, name)

    def q(self, quick, thorough):
        return quick if self.quick else thorough

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    # -- TLC ---------------------------------------------------------------
    def tlc(self, module, consts=None, init=None, next_=None, spec=None, invariants=(), properties=(),
            constraints=(), view=None, deadlock=False, postcondition=None, workers=None, env=None, heap="6g",
            timeout=800, extra=(), simulate=None, symmetry=None, count=True, definitions=None, raw=False):
        """Runs TLC on spec/<module>.tla. Returns (status, stdout) where status is
        'ok', 'violation' (an invariant, property, postcondition or deadlock); raises
        CheckError for anything else. `definitions` are extra constant overrides,
        CONST <- Operator."""
        d = tempfile.mkdtemp(prefix="tlc", dir=self.tmp)
        cfg = []
        if spec:
            cfg.append("SPECIFICATION " + spec)
        else:
            cfg.append("INIT %s\nNEXT %s" % (init or "Init", next_ or "Next"))
        for k, v in (consts or {}).items():
            cfg.append("CONSTANT %s = %s" % (k, v))
        for k, v in (definitions or {}).items():
            cfg.append("CONSTANT %s <- %s" % (k, v))
        for i in invariants:
            cfg.append("INVARIANT " + i)
        for p in properties:
            cfg.append("PROPERTY " + p)
        for c in constraints:
            cfg.append("CONSTRAINT " + c)
        if view:
            cfg.append("VIEW " + view)
        if symmetry:
            cfg.append("SYMMETRY " + symmetry)
        if postcondition:
            cfg.append("POSTCONDITION " + postcondition)
        cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
        cfgp = os.path.join(d, module + ".cfg")
        with open(cfgp, "w") as f:
            f.write("\n".join(cfg) + "\n")
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d,
               "-cp", CP, "tlc2.TLC",
               "-workers", str(workers or NCPU), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
               "-config", cfgp, "-fp", "1"]
        if simulate:
            cmd += ["-simulate", simulate, "-seed", str(self.seed)]
        cmd += list(extra)
        cmd.append(os.path.join(SPEC, module + ".tla"))
        t = time.time()
        outp = os.path.join(d, "stdout")
        with open(outp, "wb") as so:
            try:
                r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=so, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise CheckError("TLC on %s did not finish in %ds" % (module, timeout))
        out = open(outp, errors="replace").read()
        tail = "\n".join(l for l in out.splitlines() if not l.startswith('"@@'))
        m = None
        for m in re.finditer(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out):
            pass
        gen = dist = 0
        if m:
            gen, dist = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
        elif simulate:
            mm = re.findall(r"The number of states generated: ([\d,]+)", out) or \
                re.findall(r"Progress: ([\d,]+) states checked", out)
            if mm:
                gen = dist = int(mm[-1].replace(",", ""))
        if count:
            self.transitions += gen
            self.states += dist
        log("TLC %s: exit %d, %d generated, %d distinct, %.1fs" % (module, r.returncode, gen, dist, time.time() - t))
        shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
        if r.returncode == 0:
            return "ok", out
        if r.returncode in (10, 11, 12, 13):
            return "violation", out
        raise CheckError("TLC on %s failed (exit %d):\n%s" % (module, r.returncode, tail[-6000:]))

    @staticmethod
    def emitted(out, tag="@@"):
        """Values printed by the specification with PrintT("@@" \\o ToJson(x))."""
        pre = '"' + tag
        for line in out.splitlines():
            if line.startswith(pre) and line.endswith('"'):
                s = line[len(pre):-1]
                yield json.loads(s.replace('\\"', '"').replace("\\\\", "\\"))

    def design(self, module, what, **kw):
        """Model checks the design; a counterexample there is an error of the check."""
        st, out = self.tlc(module, **kw)
        if st != "ok":
            raise CheckError("the specification %s violates its own properties:\n%s" % (module, out[-5000:]))
        self.scope.append(what)
        return out

    def mutant(self, module, what, **kw):
        """A specification of a design known to be wrong must violate what is checked of the right
        one: otherwise that check says nothing."""
        st, out = self.tlc(module, count=False, **kw)
        if st == "ok":
            raise CheckError("the specification %s does not notice a wrong design: %s" % (module, what))
        self.scope.append("rejected, as it has to be: " + what)

    # -- harness -----------------------------------------------------------
    def harness(self, exe, args, timeout=800, inp=None, env=None):
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            r = subprocess.run([exe] + [str(a) for a in args], cwd=self.tmp, env=e, input=inp,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("harness %s did not finish in %ds" % (args[0], timeout))
        if r.returncode != 0:
            err = r.stderr.decode(errors="replace") + r.stdout.decode(errors="replace")
            m = re.search(r"(?:panic|fatal error): .*(?:\n.*)*?\n(goroutine .*\n(?:.+\n)*)", err)
            if m and "sassoftware/go-rpmutils" in m.group(1):
                self.violation("the code under test ends the process", dict(scenario=args, event=None, stack=m.group(0)[:6000]))
        if r.returncode != 0:
            raise CheckError("harness %s failed (exit %d):\n%s" % (
                " ".join(map(str, args)), r.returncode, (r.stdout[-2000:] + r.stderr[-4000:]).decode(errors="replace")))
        log("harness %s: %.1fs %s" % (" ".join(map(str, args))[:100], time.time() - t,
                                      r.stdout.decode(errors="replace").strip()[:300]))
        return r.stdout

    # -- traces ------------------------------------------------------------
    def validate(self, module, trace, what, consts=None, heap="8g", timeout=800, invariants=(),
                 env=None, definitions=None, workers=None, known=None, init=None, next_=None):
        """Checks a file of recorded scenarios against a trace specification. Every
        scenario is one initial state of the specification, which consumes its events;
        a deadlock is a scenario whose next event no action of the specification allows."""
        if not os.path.exists(trace):
            raise CheckError("no trace file " + trace)
        n = 0
        for part, first in self.parts(trace):
            e = {"TRACE": part}
            e.update(env or {})
            st, out = self.tlc(module, consts=consts, invariants=invariants, env=e, heap=heap, timeout=timeout,
                               definitions=definitions, workers=workers, deadlock=True, init=init, next_=next_)
            if st != "ok":
                break
            n = first + sum(1 for _ in open(part, "rb"))
            if part != trace:
                os.remove(part)
        if n == 0 and os.path.getsize(trace) == 0:
            raise CheckError("empty trace file " + trace)
        if st == "ok":
            self.traces += n
            self.scope.append("%s: %d recorded scenarios accepted" % (what, n))
            self.sample(trace, what)
            return n
        m = re.findall(r"/\\ sc = (\d+)", out) or re.findall(r"^sc = (\d+)", out, re.M)
        if not m:
            raise CheckError("cannot tell which scenario was rejected:\n" + out[-4000:])
        idx = first + int(m[-1])
        line = None
        with open(trace) as f:
            for i, l in enumerate(f, 1):
                if i == idx:
                    line = l
                    break
        k = re.findall(r"/\\ i = (\d+)", out)
        last = out[out.rindex("State "):] if "State " in out else ""
        data = dict(scenario=json.loads(line), event=int(k[-1]) if k else None, module=module,
                    vars=dict(re.findall(r"^/\\ (\w+) = (.*)$", last, re.M)), tlc=out[-3000:])
        if known and self.known_finding(known[0]) and known[1](data):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known_finding(known[0])), flush=True)
            self.scope.append("%s: rejected, a known finding" % what)
            return 0
        self.violation(what, data)

    def parts(self, trace, size=120 << 20):
        """The trace file in parts that TLC reads in reasonable time: pairs of a file and the number of scenarios before it."""
        if os.path.getsize(trace) <= size:
            yield trace, 0
            return
        part = trace + ".part"
        with open(trace, "rb") as f:
            n, line = 0, f.readline()
            while line:
                first, done = n, 0
                with open(part, "wb") as g:
                    while line and done + len(line) <= max(size, len(line)):
                        g.write(line)
                        done += len(line)
                        n += 1
                        line = f.readline()
                yield part, first

    def known_finding(self, key):
        for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            m = re.match(r"finding: property=%s key=%s (.*)" % (self.pid, key), l)
            if m:
                return m.group(1)
        return None

    def sample(self, trace, what, n=1):
        with open(trace) as f:
            for _, l in zip(range(n), f):
                self.samples.append({"what": what, "scenario": l.strip()[:1500]})

    def violation(self, what, data):
        d = _mk(os.path.join(OUT, "replay"))
        p = os.path.join(d, "%s-%s-%d.json" % (self.pid, self.tier, self.seed))
        data = dict(property=self.pid, what=what, tier=self.tier, seed=self.seed, **data)
        with open(p, "w") as f:
            json.dump(data, f, indent=1)
        raise Violation(what, p)

    # -- evidence ----------------------------------------------------------
    def evidence(self, violations, explanation=""):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples[:8] or ["none"],
                   explored=self.scope)
        cov.update(self.extra)
        ev = dict(property=self.pid, tier="quick" if self.quick else "thorough", seed=self.seed,
                  level="model_checking", coverage=cov, assumptions=self.notes,
                  wall_s=round(time.time() - self.t0, 2), violations=violations)
        p = os.path.join(_mk(os.path.join(VERIF, "evidence")), self.pid + ".json")
        with open(p, "w") as f:
            json.dump(ev, f, indent=1)
