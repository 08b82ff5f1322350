"""Shared machinery: TLC runs, trace files, verdicts, evidence, known findings."""
import contextlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, atexit

HOME = os.environ.get("VERIF_HOME", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SPEC = os.path.join(HOME, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class MachineryError(Exception):
    pass


class Timeout(Exception):
    pass


@contextlib.contextmanager
def time_limit(seconds):
    def h(*a):
        raise Timeout("no answer within %s s" % seconds)
    # of processor time, so that a busy or suspended machine is no hang; a deadlock is given more time
    old = signal.signal(signal.SIGALRM, h), signal.signal(signal.SIGPROF, h)
    signal.setitimer(signal.ITIMER_REAL, 5 * seconds + 60)
    signal.setitimer(signal.ITIMER_PROF, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old[0])
        signal.signal(signal.SIGPROF, old[1])


class TLCResult(object):
    pass


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif_run_")
        pid = os.getpid()

        def _rm():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)
        atexit.register(_rm)
    return _scratch


_ntlc = [0]


def tlc(module, cfg=None, env=None, workers=8, timeout=600, args=(), heap="6g", coverage=False, allow_violation=False):
    """Run TLC on spec/<module>.tla with spec/<cfg>; returns a TLCResult."""
    _ntlc[0] += 1
    meta = os.path.join(scratch(), "tlc%d_%d" % (_ntlc[0], os.getpid()))
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + scratch(), "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", (cfg or module + ".cfg")]
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += list(args) + [module + ".tla"]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise MachineryError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = TLCResult()
    r.out = p.stdout
    r.rc = p.returncode
    r.wall = time.time() - t0
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = re.findall(r"The number of states generated: (\d+)", p.stdout)
    if m and not r.generated:
        r.generated = int(m[-1])
    r.violated = re.findall(r"(?:Invariant|Action property|Temporal properties|Property) ?(\w*) ?(?:is|was|were) violated", p.stdout)
    r.ok = (p.returncode == 0)
    if p.returncode not in (0,) and not (allow_violation and r.violated):
        i = p.stdout.find("Error:")
        sys.stderr.write(p.stdout[i:i + 1500] + "\n ...\n" + p.stdout[-1200:] if i >= 0 else p.stdout[-3000:])
        raise MachineryError("TLC failed on %s (exit %d)" % (module, p.returncode))
    return r


def marked(out, mark):
    """JSON payloads printed by PrintT(mark \\o ToJson(..)) -- TLC prints the string quoted and escaped."""
    res = []
    pre = '"' + mark + ' '
    for line in out.splitlines():
        if line.startswith(pre):
            s = json.loads(line) if line.endswith('"') else None
            if s is None:
                raise MachineryError("truncated TLC line " + line[:200])
            res.append(json.loads(s[len(mark) + 1:]))
    return res


def check_json(o, path=""):
    """TLC's JSON reader mangles floats and ints >= 2^31; null is not a value."""
    if isinstance(o, bool) or isinstance(o, str):
        return
    if isinstance(o, int):
        if abs(o) >= 2 ** 31:
            raise MachineryError("integer too large for TLC at %s" % path)
        return
    if isinstance(o, (list, tuple)):
        for i, x in enumerate(o):
            check_json(x, path)
        return
    if isinstance(o, dict):
        for k, x in o.items():
            check_json(x, path + "/" + str(k))
        return
    raise MachineryError("value %r of type %s not encodable at %s" % (o, type(o), path))


class Check(object):
    def __init__(self, pid):
        self.pid = pid
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.quick = self.tier != "thorough"
        self.t0 = time.time()
        self.violations = []
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.cov = {}
        self.assumptions = []
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, pid)))
        self.known = []
        self.known_hits = {}
        try:
            for line in open(os.path.join(HOME, "known_findings.txt")):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m.group(1) == pid:
                    self.known.append((m.group(2), m.group(3)))
        except OSError:
            pass

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # -- verdicts
    def violation(self, text, replay, key=None):
        if key is not None:
            for k, t in self.known:
                if k == key:
                    self.known_hits[k] = t
                    return
        self.violations.append((text, replay))

    # -- model checking
    def mc(self, module, cfg=None, **kw):
        """Exhaustive check of a specification on its own.  A property violated here is an error of the
        specification (it does not look at the code), hence machinery failure."""
        r = tlc(module, cfg, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.cov.setdefault("models", []).append(dict(model=cfg or module, distinct=r.distinct, generated=r.generated,
                                                      wall_s=round(r.wall, 1)))
        self.log("TLC model", cfg or module, "distinct", r.distinct, "%.1fs" % r.wall)
        return r

    def scripts(self, module, cfg=None, mark="SCRIPT", **kw):
        r = tlc(module, cfg, **kw)
        s = marked(r.out, mark)
        self.states += r.distinct
        self.transitions += r.generated
        self.cov.setdefault("models", []).append(dict(model=cfg or module, distinct=r.distinct, generated=r.generated,
                                                      scripts=len(s), wall_s=round(r.wall, 1)))
        self.log("TLC scripts", cfg or module, len(s), "%.1fs" % r.wall)
        if not s:
            raise MachineryError("no scripts from " + module)
        return s

    # -- trace validation
    def validate(self, module, traces, cfg=None, label=None, keyfn=None, max_report=20, env=None, heap="8g", timeout=800, bad_is_violation=True):
        """traces: list of dict(id=..., ev=[...], ...); every one is replayed by spec/<module>.tla.
        The trace module prints REJECT {tid,l,clause,want} for the first event the specification does not allow."""
        if not traces:
            raise MachineryError("no traces for " + module)
        check_json(traces)
        path = os.path.join(scratch(), "traces_%s_%d.json" % (module, len(self.samples)))
        with open(path, "w") as f:
            json.dump(traces, f)
        e = dict(TRACE_FILE=path)
        e.update(env or {})
        r = tlc(module, cfg, env=e, heap=heap, timeout=timeout)
        os.remove(path)
        rej = marked(r.out, "REJECT")
        # KNOWN {tid,l,key}: the specification recognised exactly the deviation described under key
        for x in marked(r.out, "KNOWN"):
            hit = [k for k, _ in self.known if k == x["key"]]
            if hit:
                self.known_hits[x["key"]] = dict(self.known)[x["key"]]
            elif bad_is_violation:
                t = traces[x["tid"] - 1]
                self.violation("trace %s event %d: %s" % (t.get("id", x["tid"]), x["l"], x["key"]),
                               dict(spec=module, trace=dict(t, ev=t["ev"][:x["l"]]), reject=x))
        rejected = {}
        for x in rej:
            rejected.setdefault(x["tid"], x)
        expect = 0
        for i, t in enumerate(traces):
            n = len(t["ev"]) if (i + 1) not in rejected else rejected[i + 1]["l"]
            expect += n + 1
        if r.distinct != expect:
            raise MachineryError("%s: TLC visited %d states, the traces account for %d" % (module, r.distinct, expect))
        nev = sum(len(t["ev"]) for t in traces)
        self.states += r.distinct
        self.transitions += r.distinct - len(traces)
        self.log("TLC traces", label or module, len(traces), "traces", nev, "events, rejected", len(rejected), "%.1fs" % r.wall)
        if bad_is_violation:
            self.traces += len(traces) - len(rejected)
            self.cov.setdefault("trace_runs", []).append(dict(spec=module, label=label or module, traces=len(traces), events=nev,
                                                              rejected=len(rejected), wall_s=round(r.wall, 1)))
            for tid in sorted(rejected):
                x = rejected[tid]
                t = traces[tid - 1]
                key = keyfn(t, x) if keyfn else None
                self.violation("trace %s event %d: %s" % (t.get("id", tid), x["l"], x["clause"]),
                               dict(spec=module, trace=dict(t, ev=t["ev"][:x["l"]]), reject=x), key)
            s = traces[len(traces) // 2]
            self.sample(dict(spec=module, trace=s))
        return rejected

    def selftest(self, module, trace, corrupt, **kw):
        """Binding demonstration: a trace with one recorded field changed must be rejected."""
        bad = corrupt(json.loads(json.dumps(trace)))
        rej = self.validate(module, [bad], label=module + " (corrupted)", bad_is_violation=False, **kw)
        if not rej:
            raise MachineryError("self-test: the corrupted trace was accepted by " + module)
        self.cov["corrupted_traces_rejected"] = self.cov.get("corrupted_traces_rejected", 0) + 1

    def sample(self, s, limit=6000):
        txt = json.dumps(s)
        if len(txt) > limit:
            txt = txt[:limit] + " ...(truncated)"
            s = dict(text=txt)
        if len(self.samples) < 5:
            self.samples.append(s)

    def finish(self):
        wall = time.time() - self.t0
        cov = dict(self.cov)
        cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["(none)"])
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=getattr(self, "level", "model_checking"), coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations))
        os.makedirs(os.path.join(HOME, "evidence"), exist_ok=True)
        with open(os.path.join(HOME, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k, t in self.known:
            if k in self.known_hits:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, t))
        if self.violations:
            d = os.path.join(HOME, "replays")
            os.makedirs(d, exist_ok=True)
            for i, (text, replay) in enumerate(self.violations[:10]):
                p = os.path.join(d, "%s-%d.json" % (self.pid, i))
                with open(p, "w") as f:
                    json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier, what=text, replay=replay), f, indent=1, default=str)
                print("  ", text[:1500])
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
            print("%d violation(s) in all" % len(self.violations))
            return 1
        self.log("property %s held on everything explored (%d traces, %d states)" % (self.pid, self.traces, self.states))
        return 0
