"""Shared machinery: recording traces of the real code, running TLC on them, verdicts, evidence.

A check of property P is:   design   TLC model-checks the specification modules of P on their own;
                            generate TLC (or a seeded generator) yields behaviours / inputs;
                            record   the driver runs them in the real code and records a trace;
                            validate TLC judges every recorded event against the specification.
"""
import os, re, sys, json, time, random, subprocess, shutil, tempfile, traceback, signal, fcntl, multiprocessing, warnings
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
CLASSES = os.path.join(BUILD, "classes")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar"
COMM = "/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
NPROC = min(8, os.cpu_count() or 1)


class MachineryError(Exception):
    pass


# ----------------------------------------------------------------------------- build
def ensure_built():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        srcs = [os.path.join(VERIF, "java/tlc2/module", f) for f in os.listdir(os.path.join(VERIF, "java/tlc2/module"))]
        stamp = os.path.join(CLASSES, "tlc2/module/BigRat.class")
        if not os.path.exists(stamp) or any(os.path.getmtime(s) > os.path.getmtime(stamp) for s in srcs):
            os.makedirs(CLASSES, exist_ok=True)
            r = subprocess.run(["javac", "-nowarn", "-cp", TLAJAR, "-d", CLASSES] + srcs, capture_output=True, text=True)
            if r.returncode:
                raise MachineryError("javac failed: " + r.stderr)


# ----------------------------------------------------------------------------- numbers
def _limbs(n):
    out = []
    while n:
        n, r = divmod(n, 10000)
        out.append(r)
    return out


NAN = [2, [], [1]]
PINF = [3, [], [1]]
NINF = [4, [], [1]]
MAXDIG = 10 ** 60


def q(x):
    """Encode a number as the specification's rational <<sign, numerator limbs, denominator limbs>>."""
    try:
        if isinstance(x, bool):
            x = int(x)
        if isinstance(x, Fraction):
            f = x
        elif isinstance(x, int):
            f = Fraction(x)
        else:
            mod = type(x).__module__ or ""
            if mod.startswith("mpmath"):
                f = _frac_mp(x)
            elif mod.startswith("sympy"):
                f = _frac_sympy(x)
            else:
                if isinstance(x, complex) or (hasattr(x, "dtype") and getattr(x.dtype, "kind", "") == "c"):
                    if complex(x).imag != 0:
                        return NAN
                    x = complex(x).real
                xf = float(x)
                if xf != xf:
                    return NAN
                if xf in (float("inf"), float("-inf")):
                    return PINF if xf > 0 else NINF
                f = Fraction(xf)
        if f is None:
            return NAN
    except MachineryError:
        raise
    except Exception:
        return NAN
    return qf(f)


def qf(f):
    if f == 0:
        return [0, [], [1]]
    n, d = abs(f.numerator), f.denominator
    if n > MAXDIG and d > MAXDIG:
        # keep 45 significant digits
        k = 45 - (len(str(n)) - len(str(d)))
        f2 = Fraction((n * 10 ** k) // d, 10 ** k) if k >= 0 else Fraction(n // (d * 10 ** -k) * 10 ** -k)
        n, d = f2.numerator, f2.denominator
    return [1 if f > 0 else -1, _limbs(n), _limbs(d)]


def _frac_mp(x):
    import mpmath
    if isinstance(x, mpmath.mpc):
        if abs(x.imag) > mpmath.mpf(10) ** -25 * (1 + abs(x.real)):
            return None
        x = x.real
    if not mpmath.isfinite(x):
        return None
    s, m, e, b = x._mpf_
    f = Fraction(m) * (Fraction(2) ** e)
    return -f if s else f


def _frac_sympy(x):
    import sympy
    x = sympy.sympify(x)
    if x.is_Rational:
        return Fraction(int(x.p), int(x.q))
    v = sympy.N(x, 40)
    import mpmath
    with mpmath.workdps(45):
        return _frac_mp(mpmath.mpmathify(v))


def qs(seq):
    return [q(x) for x in seq]


def unq(v):
    s, n, d = v
    if s > 1:
        return float("nan")
    N = sum(l * 10000 ** i for i, l in enumerate(n))
    D = sum(l * 10000 ** i for i, l in enumerate(d))
    return Fraction(s * N, D)


# ----------------------------------------------------------------------------- recording
class Timeout(Exception):
    pass


class Rec:
    """Events of one session."""
    def __init__(self, name, rng):
        self.name, self.rng, self.events = name, rng, []

    def ev(self, op, **kw):
        kw["op"] = op
        self.events.append(kw)
        return kw


def outcome(fn, *a, **k):
    """(value, '') or (None, exception class name) of a call into the real code."""
    try:
        return fn(*a, **k), ""
    except Timeout:
        raise
    except Exception as e:  # noqa
        return None, type(e).__name__


def mro(exc_name):
    return exc_name


def _run_session(job):
    name, fn, args, seed, limit = job
    rng = random.Random(f"{seed}:{name}")
    r = Rec(name, rng)
    import numpy as np
    np.random.seed(rng.randrange(2 ** 31))

    def onalarm(sig, frm):
        raise Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    # the limit is on the time the session computes: a loaded machine is no reason to raise an alarm
    signal.signal(signal.SIGPROF, onalarm)
    signal.setitimer(signal.ITIMER_PROF, limit)
    signal.alarm(3 * limit)
    t0 = time.time()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(r, *args)
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        inreal = any(f.filename.startswith(os.path.join(REPO, "src")) for f in tb)
        if isinstance(e, (KeyboardInterrupt, SystemExit)) and not inreal:
            raise
        if not inreal and not isinstance(e, Timeout):
            # could still be caused by an unexpected type/shape coming from the real code: report with the text
            r.ev("raised", exc=type(e).__name__, where="driver", text="".join(traceback.format_exception(e))[-1500:])
        else:
            where = [f"{os.path.relpath(f.filename, REPO)}:{f.name}" for f in tb if f.filename.startswith(REPO)][-1:] or ["?"]
            r.ev("raised", exc=type(e).__name__, where=where[0], text=str(e)[:500])
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)
    if os.environ.get("VERIF_DEBUG"):
        print(f"session {name}: {len(r.events)} events, {time.time() - t0:.1f} s", file=sys.stderr, flush=True)
    return name, r.events


def record(jobs, seed=SEED, limit=240, procs=NPROC, budget=None):
    """jobs: list of (name, fn, args).  Runs each as a session, in parallel forked workers."""
    todo = [(n, f, a, seed, limit) for (n, f, a) in jobs]
    assert len({t[0] for t in todo}) == len(todo), "duplicate session names"
    if procs <= 1 or len(todo) == 1:
        return [_run_session(t) for t in todo]
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(procs, len(todo))) as pool:
        return pool.map(_run_session, todo, chunksize=1)


def check_import():
    import einsteinpy
    p = os.path.realpath(einsteinpy.__file__)
    if not p.startswith(os.path.realpath(os.path.join(REPO, "src")) + os.sep):
        raise MachineryError("einsteinpy imported from " + p)


# ----------------------------------------------------------------------------- TLC
def _head(lines, n=int(os.environ.get("VERIF_ERRLEN", "2500"))):
    k = next((i for i, l in enumerate(lines) if l.startswith("Error:")), 0)
    t = "\n".join(lines[k:])
    return t[:n]


def _useful(out):
    return [l for l in out.splitlines() if not l.startswith(("Parsing", "Semantic", "Loading", "Linting", '"BAD|', '"BEH|'))
            and not re.match(r"\d+\. Line \d+", l)]


class TLCResult:
    pass


def tlc(module, cfg_text, env=None, args=(), workers=1, timeout=800, heap="6g", search=(), expect_ok=True, dirname=None):
    """Run TLC on spec module `module` with the given configuration text."""
    ensure_built()
    tmp = tempfile.mkdtemp(prefix="tlc-", dir=dirname)
    try:
        cfg = os.path.join(tmp, module + ".cfg")
        with open(cfg, "w") as f:
            f.write(cfg_text)
        cp = ":".join([CLASSES, TLAJAR, COMM])
        lib = os.pathsep.join([SPEC, *search])
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", f"-Xmx{heap}", f"-Djava.io.tmpdir={tmp}", f"-DTLA-Library={lib}", "-cp", cp, "tlc2.TLC",
               "-metadir", os.path.join(tmp, "meta"), "-noTE", "-workers", str(workers), "-fp", "0", "-config", cfg,
               *args, os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        t0 = time.time()
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=tmp)
        except subprocess.TimeoutExpired:
            raise MachineryError(f"TLC timed out on {module}")
        r = TLCResult()
        r.rc, r.out, r.err, r.wall = p.returncode, p.stdout, p.stderr, time.time() - t0
        r.states = r.generated = 0
        for l in r.out.splitlines():
            if " distinct states found" in l and "states generated" in l and not l.startswith("Progress"):
                w = l.replace(",", "").split()
                r.generated = int(w[0]); r.states = int(w[3])
            if "states generated" in l and "traces generated" in l:  # simulation
                pass
        if expect_ok and (r.rc != 0 or "Error:" in r.out):
            keep = _useful(r.out)
            raise MachineryError(f"TLC failed on {module} (rc {r.rc}):\n" + _head(keep))
        if "Failed to match" in r.out:
            raise MachineryError("BigRat override not applied in " + module)
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def cfg(spec="Spec", consts=None, invariants=(), properties=(), extra=""):
    s = (f"SPECIFICATION {spec}\n" if spec else "") + "CHECK_DEADLOCK FALSE\n"
    for k, v in (consts or {}).items():
        s += f"CONSTANT {k} = {v}\n"
    for i in invariants:
        s += f"INVARIANT {i}\n"
    for i in properties:
        s += f"PROPERTY {i}\n"
    return s + extra


NUMCONST = {"PREC": 40, "MAXDIM": 5, "MAXORD": 3}


def behaviours(module, consts, args=(), workers=1, timeout=600, invariants=(), spec="Spec", properties=(), extra="", env=None):
    """Behaviours printed by a generator module as  "BEH|<json>"."""
    r = tlc(module, cfg(spec, consts, invariants, properties, extra), args=args, workers=workers, timeout=timeout, env=env)
    out = []
    for l in r.out.splitlines():
        if l.startswith('"BEH|'):
            out.append(json.loads(l)[4:])
    if workers != 1: out.sort()            # several workers print in no fixed order
    return [json.loads(x) for x in out], r


UNDEFINED = "the specification has no such step (an answer outside the domain of its operators)"


def _judge(module, sessions, consts, workers, timeout, extra_env, heap="6g"):
    """One TLC run over the sessions: (bads, result, whether it went through)."""
    tmp = tempfile.mkdtemp(prefix="trace-")
    try:
        path = os.path.join(tmp, "trace.json")
        with open(path, "w") as f:
            json.dump([ev for _, ev in sessions], f)
        env = {"TRACE_FILE": path}
        env.update(extra_env or {})
        c = dict(NUMCONST)
        c.update(consts or {})
        r = tlc(module, cfg("TSpec", c, extra="CONSTANT Step <- TStep\n"), env=env, workers=workers, timeout=timeout, expect_ok=False, heap=heap)
        bads = []
        for l in r.out.splitlines():
            if l.startswith('"BAD|'):
                _, s, k, clause = json.loads(l).split("|", 3)
                bads.append((int(s), int(k), clause))
        expected = 1 + sum(len(ev) + 1 for _, ev in sessions)
        r.through = r.rc == 0 and "Error:" not in r.out and r.states == expected
        r.why = "" if r.through else f"TLC failed on {module} (rc {r.rc}, states {r.states}, expected {expected}):\n" + _head(_useful(r.out)) + r.err[-500:]
        # an operator of the specification applied outside its domain while a recorded event was judged
        r.undefined = (not r.through and "Error:" in r.out and "OutOfMemory" not in r.out + r.err
                       and any(t in r.out for t in ("Attempted to", "evaluat", "BigRat", "Exception", "CHOOSE", "StackOverflow", "exception")))
        return bads, r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def validate(module, sessions, consts=None, workers=NPROC, timeout=800, extra_env=None):
    """Trace validation.  Returns (bads, result): bads = list of (session index, event index, clause).
    A session on which the specification's step is undefined is no behaviour of it: if evaluation fails on all sessions
    together, they are judged one by one and those it fails on are reported."""
    t0 = time.time()
    bads, r = _judge(module, sessions, consts, workers, timeout, extra_env)
    if r.through: return sorted(set(bads)), r
    if not r.undefined: raise MachineryError(r.why)
    from concurrent.futures import ThreadPoolExecutor
    found = []

    def alone(i):
        if len(found) >= 8 or (found and time.time() - t0 > 300): return [], None
        b, q_ = _judge(module, [sessions[i]], consts, 1, max(60, timeout - (time.time() - t0)), extra_env, heap="2g")
        b = [(i + 1, k, cl) for _, k, cl in b]
        if not q_.through:
            if not q_.undefined: raise MachineryError(q_.why)
            found.append(i)
            b.append((i + 1, min(max(q_.states - 1, 1), len(sessions[i][1])), UNDEFINED))
        return b, q_
    with ThreadPoolExecutor(NPROC) as ex:
        res = list(ex.map(alone, range(len(sessions))))
    if not found: raise MachineryError(r.why)
    r.states = sum(q_.states for _, q_ in res if q_)
    r.generated = sum(q_.generated for _, q_ in res if q_)
    return sorted({x for b, _ in res for x in b}), r


# ----------------------------------------------------------------------------- verdicts
def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))


class Check:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.samples, self.parts, self.assumptions = [], [], []
        self.bad = []         # (session name, clause, replay payload)
        self.ops = {}

    # -- the stages
    def design(self, module, consts=None, invariants=(), properties=(), what="", spec="Spec", workers=1, args=(), timeout=700, merge=True):
        c = dict(NUMCONST) if merge else {}
        c.update(consts or {})
        r = tlc(module, cfg(spec, c, invariants, properties), workers=workers, args=args, timeout=timeout)
        self.states += r.states
        self.transitions += r.generated
        self.parts.append(dict(stage="design model check", module=module, constants={k: str(v) for k, v in (consts or {}).items()},
                               invariants=list(invariants), properties=list(properties), states=r.states, generated=r.generated, what=what,
                               wall_s=round(r.wall, 2)))
        return r

    def generate(self, module, consts, **kw):
        b, r = behaviours(module, consts, **kw)
        self.states += r.states
        self.transitions += r.generated
        self.parts.append(dict(stage="behaviour generation", module=module, constants={k: str(v) for k, v in consts.items()},
                               states=r.states, behaviours=len(b), wall_s=round(r.wall, 2)))
        if not b:
            raise MachineryError(f"{module} generated no behaviour")
        return b

    def validate(self, module, sessions, consts=None, known_key=None, what="", **kw):
        if not sessions:
            raise MachineryError("no sessions recorded")
        bads, r = validate(module, sessions, consts, **kw)
        self.states += r.states
        self.transitions += r.generated
        self.traces += len(sessions)
        n = sum(len(e) for _, e in sessions)
        self.events += n
        for _, evs in sessions:
            for e in evs:
                self.ops[e["op"]] = self.ops.get(e["op"], 0) + 1
        self.parts.append(dict(stage="trace validation", module=module, sessions=len(sessions), events=n, states=r.states,
                               wall_s=round(r.wall, 2), what=what))
        for (s, k, clause) in bads:
            name, evs = sessions[s - 1]
            ev = evs[k - 1] if k >= 1 else {}
            self.bad.append((name, ev.get("op", "?"), clause, dict(session=name, event_index=k, clause=clause, event=ev,
                                                     history=[_brief(e) for e in evs[:k]][-12:], module=module, seed=SEED, tier=self.tier)))
        if not self.samples:
            for name, evs in sessions[:2]:
                self.samples.append(dict(session=name, events=[_brief(e) for e in evs[:4]]))
        return bads

    # -- the end
    def finish(self):
        known = [k for k in load_known() if k.get("property") == self.prop and not k.get("fixed")]
        seen_known, viol = {}, []
        for (name, op, clause, payload) in self.bad:
            hit = None
            for k in known:
                if _matches(k, name, op, clause, payload):
                    hit = k
                    break
            if hit is not None:
                seen_known.setdefault(hit["id"], (hit, 0))
                seen_known[hit["id"]] = (hit, seen_known[hit["id"]][1] + 1)
            else:
                viol.append((name, op, clause, payload))
        for kid, (k, n) in seen_known.items():
            print(f"KNOWN-FINDING: property={self.prop} {k['what']} [{kid}, {n} event(s)]")
        for k in known:
            if k["id"] not in seen_known:
                print(f"KNOWN-FINDING: property={self.prop} {k['what']} [{k['id']}, listed]")
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   events_judged=self.events, events_by_operation=self.ops, samples=self.samples[:3], stages=self.parts,
                   known_finding_events=sum(n for _, n in seen_known.values()))
        evd = dict(property=self.prop, tier=self.tier, seed=SEED, level=self.level, coverage=cov, assumptions=self.assumptions,
                   wall_s=round(time.time() - self.t0, 2), violations=len(viol))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(evd, f, indent=1, default=str)
        if viol:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{self.prop}.json")
            with open(path, "w") as f:
                json.dump([p for (_, _, _, p) in viol[:50]], f, indent=1, default=str)
            for (name, op, clause, _) in viol[:12]:
                print(f"  {self.prop}: session {name}, operation {op}: {clause}")
            print(f"VIOLATION property={self.prop} replay={path}")
            print(f"{self.prop}: {len(viol)} violating event(s) of {self.events}")
            return 1
        print(f"{self.prop}: held on {self.events} events in {self.traces} traces; {self.states} states; {evd['wall_s']} s")
        return 0


def _brief(e):
    s = {}
    for k, v in e.items():
        t = json.dumps(_human(v), default=str)
        s[k] = t if len(t) < 300 else t[:300] + "..."
    return s


def _human(v):
    """Rationals back to readable form inside samples."""
    if isinstance(v, list):
        if len(v) == 3 and isinstance(v[0], int) and isinstance(v[1], list) and isinstance(v[2], list) and all(isinstance(x, int) for x in v[1] + v[2]) and v[2]:
            x = unq(v)
            if isinstance(x, Fraction):
                return str(x) if x.denominator < 10 ** 6 else float(x)
            return "nan/inf"
        return [_human(x) for x in v]
    if isinstance(v, dict):
        return {k: _human(x) for k, x in v.items()}
    return v


def _matches(k, name, op, clause, payload):
    """A known finding is identified by session-name prefix, operation and clause (exact), all that it lists."""
    m = k["match"]
    if "op" in m and m["op"] != op:
        return False
    if "clause" in m and m["clause"] != clause:
        return False
    if "session" in m and not name.startswith(m["session"]):
        return False
    ev = payload["event"]
    for f, v in m.get("event", {}).items():
        if ev.get(f) != v:
            return False
    return True
