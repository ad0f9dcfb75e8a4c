"""C01: histories of calls of cached functions, with restarts, crashes while
saving, cleared and damaged entries.  Everything happens in a scratch directory."""
import os, sys, json, glob, subprocess, copy, random
import numpy as np
import pandas as pd
from rec import run_scenarios
from dolo.misc.caching import memoized, cachedondisk, clear_cache, DiskDictionary

thorough = os.environ["VERIF_TIER"] == "thorough"
HERE = os.path.abspath(__file__)


class Planned(Exception):
    pass


class Bomb:
    """stops the process while it is being saved"""
    def __reduce__(self):
        os._exit(77)


STATE = dict(evals=0, mode="")


def token(x):
    if isinstance(x, np.ndarray):
        return "array(%s,%s,%s)" % (x.dtype, x.shape, [token(e) for e in x.ravel().tolist()])
    if isinstance(x, pd.DataFrame):
        return "df(%s)" % token(x.values)
    if isinstance(x, pd.Series):
        return "series(%s,%s)" % (token(np.array(x.index)), token(x.values))
    if isinstance(x, dict):
        return "%s{%s}" % (type(x).__name__, ",".join(sorted("%s:%s" % (token(k), token(v)) for k, v in x.items())))
    if isinstance(x, (set, frozenset)):
        return "%s{%s}" % (type(x).__name__, ",".join(sorted(map(token, x))))
    if isinstance(x, (list, tuple)):
        return "%s(%s)" % (type(x).__name__, ",".join(map(token, x)))
    return "%s:%r" % (type(x).__name__, x)


def key(a, k):
    return token(tuple(a)) + token(k)


def body(name):
    def compute(a, k):
        STATE["evals"] += 1
        if STATE["mode"] == "raise":
            raise Planned()
        if STATE["mode"] == "none":
            return None
        v = dict(value=name + key(a, k), pad=[np.arange(50), "x" * STATE.get("pad", 10)])
        if STATE["mode"] == "crash":
            return [v, "y" * STATE.get("pad", 10), Bomb(), "z" * 10]
        if STATE["mode"] == "unpicklable":
            v["f"] = lambda: 1
        return v
    return compute


def functions():
    """freshly decorated functions: m in memory, d, e and a second d on disk"""
    cm, cd, ce, cx = body("m"), body("d"), body("e"), body("d2")

    @memoized
    def m(*a, **k):
        return cm(a, k)

    @cachedondisk
    def d(*a, **k):
        return cd(a, k)

    @cachedondisk
    def e(*a, **k):
        return ce(a, k)

    def other():
        @cachedondisk
        def d(*a, **k):
            return cx(a, k)
        return d

    class C:
        @memoized
        def met(self, *a, **k):
            return body("met")(a, k)
    return dict(m=m, d=d, e=e, d2=other(), met=C().met)


ARR = lambda *s: np.array(s)
PAIRS = [
    (((-1,), {}), ((-2,), {})), ((([1, 2],), {}), (((1, 2),), {})), (((ARR(1, 2, 3, 4).reshape(2, 2),), {}), ((ARR(1, 2, 3, 4),), {})),
    (((ARR(1, 2),), {}), ((ARR(1.0, 2.0),), {})), ((("a", "b"), {}), (("ab",), {})), ((({"x": 1},), {}), (({"x": 2},), {})), (((1, 2), {}), ((2, 1), {})),
    (((), dict(x=1)), ((), dict(y=1))), (((), dict(x=-1, y=[1])), ((), dict(x=-2, y=[1]))), (((None,), {}), (("None",), {})), (((0,), {}), ((2 ** 61 - 1,), {})),
    (((float("inf"),), {}), ((314159,), {})), ((((1, (2, 3)),), {}), (((1, 2), 3), {})), ((({1, 2},), {}), ((frozenset([1, 2]),), {})),
    (((ARR(1, 2, 3, 4).reshape(4, 1),), {}), ((ARR(1, 2, 3, 4).reshape(1, 4),), {})), (((0.5, "s"), {}), ((0.25, "s"), {})), ((([[1], [2]],), {}), (([[1, 2]],), {})),
    ((({"x": [1, 2]},), {}), (({"x": (1, 2)},), {})), (((1,), {}), ((1,), dict(b=1))), ((([-1, ARR(0.5)],), {}), (([-2, ARR(0.5)],), {})), (((b"a",), {}), (("a",), {})),
    (((1.5, -1), {}), ((1.5, -2), {})), ((("x" * 300,), {}), (("x" * 299,), {})), (((ARR(0.1, 0.2),), {}), ((ARR(0.1, 0.2 + 1e-13),), {})),
    (((np.arange(5000) * 0.5,), {}), ((np.append(np.arange(4999) * 0.5, -1.0),), {})), (((3, 4), {}), ((3,), dict(b=4))), (((), {}), ((None,), {})),
]


def value(rng, depth=2):
    """any argument; no two of them compare equal unless they have the same token"""
    r = rng.random()
    if depth == 0 or r < 0.4:
        return rng.choice([rng.randint(-3, 3), rng.randint(-3, 3) + 0.5, rng.choice(["a", "b", "ab", "1", "-1", "None", "0.5", ""]), None, b"a", 2 ** 61 - 1 - rng.randint(0, 2), float("inf"), rng.randint(-9, 9) + 2j])
    n = rng.randint(0, 3)
    if r < 0.52:
        return [value(rng, depth - 1) for _ in range(n)]
    if r < 0.64:
        return tuple(value(rng, depth - 1) for _ in range(n))
    if r < 0.82:
        return {rng.choice([1, 2, "1", "2", "x", "y", (1, 2), "(1, 2)", None, "None", 0.5]): value(rng, depth - 1) for _ in range(n)}
    if r < 0.9:
        return {rng.choice([1, 2, "1", "2", "x", (1, 2)]) for _ in range(n)}
    a = np.array([rng.randint(-3, 3) for _ in range(rng.choice([1, 2, 4]))])
    return rng.choice([a, a.astype(float), a.reshape((-1, 1)), a.reshape((1, -1)), a.astype("int8"), a.astype(str)])


def near(rng, x):
    """another argument which looks the same"""
    if isinstance(x, (list, tuple)) and len(x) and rng.random() < 0.7:
        i = rng.randrange(len(x))
        y = list(x)
        y[i] = near(rng, y[i])
        return type(x)(y)
    if isinstance(x, dict) and len(x) and rng.random() < 0.8:
        k = rng.choice(list(x))
        y = dict(x)
        if rng.random() < 0.5:
            y[k] = near(rng, y[k])
        else:
            z = near(rng, k)
            try:
                hash(z)
            except TypeError:
                z = str(z)
            y[z] = y.pop(k)
        return y
    if isinstance(x, list):
        return tuple(x) if rng.random() < 0.5 else [x]
    if isinstance(x, tuple):
        return list(x) if rng.random() < 0.5 else (x,)
    if isinstance(x, dict):
        return sorted(x.items(), key=repr) if rng.random() < 0.5 else {**x, "z": 0}
    if isinstance(x, set):
        return sorted(x, key=repr) if rng.random() < 0.5 else x ^ {1}
    if isinstance(x, np.ndarray):
        return rng.choice([x.tolist(), x.reshape((1,) + x.shape), x.astype("float32") if x.dtype.kind in "iu" else x.astype("U9"), x[::-1].copy()])
    if isinstance(x, str):
        return rng.choice([x + "a", x.encode(), x + " ", [x]])
    if isinstance(x, (int, float)):
        return rng.choice([str(x), -x - 1, [x]])
    return str(x)


def lookalikes(rng):
    while True:
        a, b = lookalikes1(rng)
        if key(*a) != key(*b):
            return a, b


def lookalikes1(rng):
    n = rng.randint(1, 3)
    a = [value(rng) for _ in range(n)]
    k = {z: value(rng, 1) for z in rng.sample(["x", "y", "z"], rng.choice([0, 0, 1, 2]))}
    if k and rng.random() < 0.5:
        z = rng.choice(list(k))
        b = (list(a), {**k, z: near(rng, k[z])})
    else:
        b = (list(near(rng, tuple(a)) if rng.random() < 0.8 else a[::-1]), dict(k))
    return ((tuple(a), k), (tuple(b[0]), b[1]))


def call(rec, fns, name, kind, arg, mode="", keeps=True):
    a, k = copy.deepcopy(arg)
    before = key(a, k)
    STATE.update(evals=0, mode=mode)
    o, r = rec.call(lambda: fns[name](*a, **k))
    got = r["value"] if isinstance(r, dict) and "value" in r else token(r)
    STATE["mode"] = ""
    rec.event("Call", kind=kind, fn=name, arg=key(*arg), outcome=o, got=got, evals=STATE["evals"], raises=mode == "raise", keeps=keeps and mode != "unpicklable")


KIND = dict(m="memory", met="memory", d="disk", e="disk", d2="disk")


def crash(rec, fns, name, arg):
    a, k = copy.deepcopy(arg)
    pid = os.fork()
    if pid == 0:
        try:
            STATE.update(evals=0, mode="crash")
            fns[name](*a, **k)
        finally:
            os._exit(3)
    st = os.waitpid(pid, 0)[1]
    code = os.waitstatus_to_exitcode(st)
    rec.event("Crash", happened=code == 77, code=code)


def entries():
    return [p for p in glob.glob(".cache/*") + glob.glob("own/*") if os.path.isfile(p)]


def damage(rng):
    for p in entries():
        n = os.path.getsize(p)
        how = rng.choice(["cut", "cut", "empty", "noise"])
        if how == "noise":
            open(p, "wb").write(bytes(rng.randrange(256) for _ in range(40)))
        else:
            os.truncate(p, 0 if how == "empty" else rng.randrange(1, max(2, n)))


def scratch(rec):
    d = os.path.abspath("scratch_" + rec.sc.replace("/", "_"))
    os.makedirs(d, exist_ok=True)
    return d


def inside(f):
    def g(rec):
        old, d = os.getcwd(), scratch(rec)
        os.chdir(d)
        try:
            f(rec)
        finally:
            os.chdir(old)
    return g


def begin(rec, k):
    os.makedirs("h%d" % k)
    os.chdir("h%d" % k)
    rec.event("Begin")


def replay(i, n):
    @inside
    def f(rec):
        rng = rec.rng
        B = json.load(open(os.path.join(os.environ["VERIF_BEH"], "memos.json")))[i::n]
        if not thorough:
            rng.shuffle(B)
            B = B[:150]
        top = os.getcwd()
        for k, b in enumerate(B):
            begin(rec, k)
            pair = rng.choice(PAIRS) if rng.random() < 0.5 else lookalikes(rng)
            STATE["pad"] = rng.choice([10, 10, 20000])
            fns = functions()
            for op, fn, a in b:
                if op in ("call", "raise"):
                    call(rec, fns, fn, KIND[fn], pair[a - 1], mode="raise" if op == "raise" else "")
                elif op == "crash":
                    crash(rec, fns, fn, pair[a - 1])
                    fns = functions()
                elif op == "restart":
                    fns = functions()
                    rec.event("Restart")
                elif op == "clear":
                    rec.event("Clear", fn=fn, outcome=rec.call(lambda: clear_cache(*([fn] if fn else [])))[0])
                elif op == "damage":
                    damage(rng)
                    rec.event("Damage")
            for fn in ("m", "d", "e"):
                for a in (0, 1):
                    call(rec, fns, fn, KIND[fn], pair[a])
            os.chdir(top)
    return f


def walk(i):
    """longer histories over many arguments at once"""
    @inside
    def f(rec):
        rng = rec.rng
        begin(rec, 0)
        fns = functions()
        args = [x for p in rng.sample(PAIRS, 3) + [lookalikes(rng) for _ in range(5)] for x in p]
        frames = [((pd.DataFrame({"a": [1.0, 2.0]}),), {}), ((pd.DataFrame({"a": [1.0, 3.0]}),), {}), (([pd.Series([1, 2])],), {}), (([pd.Series([1, 2], index=[1, 2])],), {})]
        fresh = [0]
        for _ in range(60):
            r = rng.random()
            fn = rng.choice(["m", "d", "e", "d2", "met"])
            if r < 0.7:
                call(rec, fns, fn, KIND[fn], rng.choice(args), mode="raise" if rng.random() < 0.1 else "")
            elif r < 0.74:
                call(rec, fns, fn, KIND[fn], rng.choice(frames), keeps=False)
            elif r < 0.8 and KIND[fn] == "disk":
                call(rec, fns, fn, KIND[fn], rng.choice(args), mode="unpicklable")
            elif r < 0.86 and KIND[fn] == "disk":
                fresh[0] += 1
                crash(rec, fns, fn, (("fresh", fresh[0]), {}))
                fns = functions()
            elif r < 0.9:
                fns = functions()
                rec.event("Restart")
            elif r < 0.93:
                rec.event("Clear", fn="", outcome=rec.call(clear_cache)[0])
            elif r < 0.95:
                rec.event("Clear", fn="e", outcome=rec.call(lambda: clear_cache("e"))[0])
            elif r < 0.97:
                damage(rng)
                rec.event("Damage")
    return f


def dictionary(i):
    @inside
    def f(rec):
        rng = rec.rng
        begin(rec, 0)
        D = DiskDictionary(directory="own", funname="fun%d" % i)
        keys = [tuple(p[0]) for _ in range(5) for p in lookalikes(rng)]
        keys += [(1, 2), (-1,), (-2,), ("a",), ("b", 1), [1, 2], (ARR(1, 2),), (ARR(1.0, 2.0),), (ARR(1, 2, 3, 4).reshape(2, 2),), (ARR(1, 2, 3, 4),), (0.5, (1, 2)), (0.5, [1, 2]), ("a", None), (314159,), (float("inf"),)]
        T = lambda k: token(tuple(k))
        for j in range(60):
            k = rng.choice(keys)
            if rng.random() < 0.4:
                v = rng.choice([j, [j, "x"], {"a": j}, "v%d" % j])
                rec.event("Put", arg=T(k), value=token(v), outcome=rec.call(lambda: D.__setitem__(copy.deepcopy(k), v))[0])
            elif rng.random() < 0.95:
                o, r = rec.call(lambda: D.get(copy.deepcopy(k)))
                rec.event("Get", arg=T(k), outcome=o, got="None" if r is None else token(r))
            if rng.random() < 0.1:
                D = DiskDictionary(directory="own", funname="fun%d" % i)
            if rng.random() < 0.04:
                damage(rng)
                rec.event("DictDamage")
    return f


def processes(i):
    """two interpreters, one after the other, in the same directory"""
    @inside
    def f(rec):
        begin(rec, 0)
        for rnd in range(2):
            out = "out%d.json" % rnd
            env = dict(os.environ, PYTHONHASHSEED=str(rec.rng.randrange(1, 10 ** 6)))
            subprocess.run([sys.executable, "-W", "ignore", HERE, "--child", out], env=env, timeout=200, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            for e in json.load(open(out)):
                rec.event(e.pop("ev"), **e)
            rec.event("Restart")
    return f


def child(out):
    evs = []

    class R:
        def event(self, ev, **k):
            evs.append(dict(ev=ev, **k))

        def call(self, f):
            try:
                return "ok", f()
            except BaseException as e:
                return "raised:" + type(e).__name__, None
    fns = functions()
    for fn in ("d", "e", "d2", "m"):
        for p in PAIRS:
            for x in p:
                call(R(), fns, fn, KIND[fn], x)
    json.dump(evs, open(out, "w"))


S = [("processes/%d" % k, processes(k)) for k in range(4 if thorough else 1)]
for k in range(16):
    S.append(("histories/%d" % k, replay(k, 16)))
for k in range(120 if thorough else 16):
    S.append(("walk/%d" % k, walk(k)))
    S.append(("dictionary/%d" % k, dictionary(k)))
if __name__ == "__main__":
    if sys.argv[1:2] == ["--child"]:
        child(sys.argv[2])
    else:
        run_scenarios(S)
