"""Recording of executions of the real code as JSON event traces.

Numbers are logged as exact rationals (a double is a rational), so that the
specification judges the very numbers the implementation produced."""
import json, os, signal, sys, traceback, random, zlib
from fractions import Fraction
import numpy as np


def q(x):
    """one number -> 'n', 'n/d', 'nan', 'inf', '-inf'"""
    if isinstance(x, str):
        return x
    if isinstance(x, Fraction):
        return str(x)
    if isinstance(x, (bool, np.bool_)):
        return "1" if x else "0"
    if isinstance(x, (int, np.integer)):
        return str(int(x))
    try:
        if isinstance(x, complex) or np.iscomplexobj(x):
            if complex(x).imag != 0:
                return "nan"
            x = complex(x).real
        f = float(x)
    except Exception:
        return "nan"
    if f != f:
        return "nan"
    if f in (float("inf"), float("-inf")):
        return "inf" if f > 0 else "-inf"
    n, d = f.as_integer_ratio()
    return str(n) if d == 1 else "%d/%d" % (n, d)


def qa(a):
    """array of any rank -> nested lists of numbers"""
    if isinstance(a, np.ndarray):
        if a.ndim == 0:
            return q(a[()])
        return [qa(e) for e in a]
    if isinstance(a, (list, tuple)):
        return [qa(e) for e in a]
    return q(a)


def shape(a):
    return [int(n) for n in np.shape(a)]


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


class Rec:
    """One recorder per shard.  `call` runs a public entry point and returns
    (outcome, value); the outcome is 'ok' or 'raised:<type>'."""

    def __init__(self, path, seed, tier):
        self.f = open(path, "w")
        self.n = 0
        self.seed, self.tier = seed, tier
        self.sc = ""

    def begin(self, sc):
        self.sc = sc
        self.rng = random.Random("%s/%s" % (self.seed, sc))
        self.nprng = np.random.default_rng(zlib.crc32(("%s/%s" % (self.seed, sc)).encode()))

    def event(self, ev, **kw):
        d = dict(sc=self.sc, ev=ev)
        d.update(kw)
        self.f.write(json.dumps(d) + "\n")
        self.n += 1

    def call(self, f, *a, **k):
        try:
            return "ok", f(*a, **k)
        except (Timeout, KeyboardInterrupt):
            raise
        except BaseException as e:
            if os.environ.get("VERIF_TRACEBACK"):
                import traceback
                traceback.print_exc()
            return "raised:" + type(e).__name__, None


def run_scenarios(scenarios, timeout=240):
    """scenarios: list of (name, function(rec)).  Forks one worker per shard
    after the imports are done; worker i takes scenarios i, i+n, ..."""
    out, seed, tier = os.environ["VERIF_OUT"], int(os.environ["VERIF_SEED"]), os.environ["VERIF_TIER"]
    n = int(os.environ.get("VERIF_SHARDS", "8"))
    only = os.environ.get("VERIF_ONLY")
    if only:
        scenarios = [s for s in scenarios if s[0] == only]
        n = 1
    names = [s[0] for s in scenarios]
    assert len(set(names)) == len(names), "duplicate scenario names"
    n = max(1, min(n, len(scenarios)))
    sys.stdout.flush(); sys.stderr.flush()
    pids = []
    for i in range(n):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                code = _worker(scenarios[i::n], os.path.join(out, "trace_%02d.ndjson" % i), seed, tier, timeout)
            except BaseException:
                traceback.print_exc()
            finally:
                sys.stdout.flush(); sys.stderr.flush()
                os._exit(code)
        pids.append(pid)
    bad = 0
    for p in pids:
        _, st = os.waitpid(p, 0)
        if st != 0:
            bad += 1
    return bad


def _worker(scs, path, seed, tier, timeout):
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    rec = Rec(path, seed, tier)
    signal.signal(signal.SIGALRM, _alarm)
    devnull = open(os.devnull, "w")
    for name, f in scs:
        rec.begin(name)
        so = sys.stdout
        sys.stdout = devnull
        try:
            signal.alarm(timeout)
            f(rec)
            signal.alarm(0)
        except Timeout:
            rec.event("DriverStop", why="timeout after %ds" % timeout)
        except BaseException as e:
            signal.alarm(0)
            rec.event("DriverStop", why="%s: %s" % (type(e).__name__, str(e)[:300]))
            sys.stderr.write("[%s] %s\n" % (name, traceback.format_exc()))
        finally:
            signal.alarm(0)
            sys.stdout = so
    rec.f.close()
    return 0
