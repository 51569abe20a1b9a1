"""Core of the property-based checks: cases, sub-checks, Hypothesis driver, counters."""
import faulthandler
import hashlib
import json
import math
import os
import signal
import sys
import time
import traceback
import warnings

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
WHEELS = '/opt/veriftools/wheels'


def bootstrap():
    """Import paths: /repo first, hypothesis & mpmath appended last (numpy & scipy stay the venv's)."""
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if HERE not in sys.path:
        sys.path.insert(1, HERE)
    if VT_SITE not in sys.path:
        sys.path.append(VT_SITE)
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        import glob
        for w in sorted(glob.glob(WHEELS + '/hypothesis-*.whl') + glob.glob(WHEELS + '/sortedcontainers-*.whl')
                        + glob.glob(WHEELS + '/attrs-*.whl') + glob.glob(WHEELS + '/mpmath-*.whl')):
            sys.path.append(w)
        import hypothesis  # noqa: F401
    warnings.simplefilter('ignore')
    import numpy as np
    import scipy.integrate, scipy.optimize, scipy.interpolate, scipy.special, scipy.constants  # noqa: F401,E401
    import mpmath  # noqa: F401
    import osc
    osc.guard()
    np.seterr(all='ignore')
    # from here on (primpy itself) no bytecode is read: never a stale .pyc of /repo
    sys.pycache_prefix = '/nonexistent/verif-pycache'
    sys.dont_write_bytecode = True


class Violation(Exception):
    """The property does not hold for this case."""

    def __init__(self, msg, tag=None):
        super().__init__(msg)
        self.tag = tag


class HarnessError(Exception):
    """The check itself is at fault (never reported as a violation)."""


class Inconclusive(Exception):
    """This case decides nothing (e.g. a solver gave up)."""


class CaseTimeout(BaseException):
    """One case took too long: it decides nothing."""


def _alarm(*a):
    raise CaseTimeout()


class StopSearch(BaseException):
    """Stops Hypothesis from outside (budget for shrinking used up)."""


class Ctx:
    """Per-case context: labels and non-triviality."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False
        self.worst = {}
        self.compared = 0
        self.known = []

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    # ---- oracles helpers
    def fail(self, msg, tag=None):
        raise Violation(msg, tag)

    def check(self, cond, msg, tag=None):
        self.compared += 1
        if not cond:
            raise Violation(msg, tag)

    def close(self, got, want, rtol=1e-9, atol=0., what='', tag=None):
        """Elementwise |got-want| <= atol + rtol*|want|; NaN only matches NaN; inf only matches inf."""
        import numpy as np
        g = np.asarray(got, dtype=complex if np.iscomplexobj(got) or np.iscomplexobj(want) else float)
        w = np.asarray(want, dtype=g.dtype if np.iscomplexobj(g) else float)
        if g.shape != w.shape and w.size != 1 and g.size != 1:
            raise Violation('%s: shape %s instead of %s' % (what, g.shape, w.shape), tag)
        a = np.asarray(atol, dtype=float)
        r = np.asarray(rtol, dtype=float)
        bad = ~((np.abs(g - w) <= a + r * np.abs(w)) | (np.isnan(g) & np.isnan(w)) | (g == w))
        self.compared += int(max(g.size, w.size))
        denom = a + r * np.abs(w)
        with np.errstate(all='ignore'):
            q = np.abs(g - w) / np.where(denom > 0, denom, np.inf)
        q = np.where(np.isfinite(q), q, 0)
        if q.size:
            self.worst[what] = max(self.worst.get(what, 0), float(np.max(q)))
        if np.any(bad):
            b = np.broadcast_to(bad, np.broadcast(g, w).shape)
            gg = np.broadcast_to(g, b.shape)[b].ravel()[0]
            ww = np.broadcast_to(w, b.shape)[b].ravel()[0]
            raise Violation('%s: got %r, expected %r (rtol=%s, atol=%s; %d of %d elements differ)'
                            % (what, gg.item(), ww.item(), np.max(r), np.max(a), int(b.sum()), b.size), tag)

    def raises(self, exc, fn, what, tag=None):
        """`fn` must raise an exception of type `exc` (or tuple)."""
        self.compared += 1
        try:
            v = fn()
        except exc:
            return
        except Exception as e:
            raise Violation('%s: expected %s, but got %s: %s' % (what, exc, type(e).__name__, e), tag)
        raise Violation('%s: expected %s, but it was accepted (returned %r)' % (what, exc, type(v).__name__), tag)


class Sub:
    """One sub-check: generator + oracle.

    strategy: callable returning a Hypothesis strategy of JSON-able cases
    body: callable(case, ctx)
    cases: dict tier -> number of cases
    shards: dict tier -> number of parallel shards
    examples: fixed cases which are always run first
    """

    def __init__(self, name, strategy, body, quick, thorough, shards=(1, 8), examples=(), rule='',
                 timeout=(400, 3000), budget=(150, 1500), case_timeout=40):
        self.name, self.strategy, self.body = name, strategy, body
        self.cases = {'quick': quick, 'thorough': thorough}
        self.shards = {'quick': shards[0], 'thorough': shards[1]}
        self.examples = list(examples() if callable(examples) else examples)
        self.rule = rule
        self.case_timeout = case_timeout
        self.timeout = {'quick': timeout[0], 'thorough': timeout[1]}
        self.budget = {'quick': budget[0], 'thorough': budget[1]}


def canon(case):
    return json.dumps(case, sort_keys=True, default=str)


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(p) as f:
            return json.load(f)
    except FileNotFoundError:
        return {'findings': [], 'fixed': []}


def as_violation(exc):
    """Turn an exception of a case into a Violation, or re-raise harness trouble."""
    if isinstance(exc, Violation):
        return exc
    if isinstance(exc, (HarnessError, MemoryError, ImportError, OSError)):
        raise exc
    tb = traceback.extract_tb(exc.__traceback__)
    where = [f for f in tb if f.filename.startswith(REPO)] or list(tb)
    f = where[-1]
    return Violation('unexpected %s: %s (at %s:%s in %s)' % (
        type(exc).__name__, exc, os.path.relpath(f.filename, REPO) if f.filename.startswith(REPO) else f.filename,
        f.lineno, f.name), tag='exception:%s' % type(exc).__name__)


class Runner:
    """Runs cases of one sub-check, counting what was covered."""

    def __init__(self, pid, sub):
        self.pid, self.sub = pid, sub
        self.evals = 0
        self.nt = set()
        self.labels = {}
        self.worst = {}
        self.samples = []
        self.slow = []
        self.compared = 0
        self.inconclusive = 0
        self.skipped = 0
        self.known_hits = {}
        self.last_fail = None
        k = load_known()
        self.known = {e['tag']: e for e in k.get('findings', []) if e['property'] == pid and e.get('tag')}

    def run_case(self, case):
        """Return None or a Violation."""
        ctx = Ctx()
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.sub.case_timeout, 0.5)  # again and again: C code may swallow one
        faulthandler.dump_traceback_later(2 * self.sub.case_timeout + 20, exit=True)  # stuck in C code: gives up the shard
        try:
            try:
                self.sub.body(case, ctx)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                faulthandler.cancel_dump_traceback_later()
        except CaseTimeout:
            self.inconclusive += 1
            ctx.label('case timed out')
            if len(self.slow) < 5:
                self.slow.append({'sub': self.sub.name, 'case': case})
            v = None
        except Inconclusive:
            self.inconclusive += 1
            v = None
        except Exception as e:
            v = as_violation(e)
        else:
            v = None
        self.evals += 1
        self.compared += ctx.compared
        for lab in ctx.labels:
            self.labels[lab] = self.labels.get(lab, 0) + 1
        for tag in ctx.known:
            self.known_hits[tag] = self.known_hits.get(tag, 0) + 1
        if v is not None and v.tag in self.known:
            self.known_hits[v.tag] = self.known_hits.get(v.tag, 0) + 1
            v = None
        for k, q in ctx.worst.items():
            self.worst[k] = max(self.worst.get(k, 0), q)
        self.checkpoint()
        if ctx.nontrivial:
            h = hashlib.sha1(canon(case).encode()).hexdigest()[:16]
            if h not in self.nt:
                self.nt.add(h)
                # an arbitrary but reproducible selection: smallest hashes
                self.samples.append((h, {'sub': self.sub.name, 'case': case, 'labels': ctx.labels[:8]}))
                self.samples = sorted(self.samples, key=lambda t: t[0])[:3]
        return v

    def checkpoint(self):
        """Called after each case (replaced by the worker)."""

    def search(self, n, seed, budget, shrink_budget):
        from hypothesis import given, settings, HealthCheck, Phase, Verbosity
        from hypothesis import seed as hseed
        t0 = time.time()
        state = {'first': None}
        runner = self

        def record(case, v):
            runner.last_fail = (case, str(v))

        for case in self.sub.examples if seed_is_first(seed) else []:
            v = self.run_case(case)
            if v is not None:
                record(case, v)
                return

        if n <= 0:
            return

        no_mutation()

        @hseed(seed)
        @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                  suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
                  report_multiple_bugs=False, print_blob=False, verbosity=Verbosity.quiet)
        @given(self.sub.strategy())
        def test(case):
            now = time.time()
            if state['first'] is None and now - t0 > budget:
                runner.skipped += 1
                return
            if state['first'] is not None and now - state['first'] > shrink_budget:
                raise StopSearch()
            v = runner.run_case(case)
            if v is not None:
                if state['first'] is None:
                    state['first'] = time.time()
                record(case, v)
                raise v

        try:
            test()
        except StopSearch:
            pass
        except Violation:
            pass
        except (HarnessError, MemoryError, ImportError, OSError):
            raise
        except BaseException as e:
            if runner.last_fail is None:
                raise
            if isinstance(e, KeyboardInterrupt):
                raise


def no_mutation():
    """Draw every case afresh: Hypothesis otherwise repeats variations of one case, which wastes expensive cases."""
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner
        ConjectureRunner.generate_mutations_from = lambda self, data: None
    except Exception:
        pass


def seed_is_first(seed):
    return seed % 1000 == 0
