"""U01: histories of registrations, removals and calls of functions with
several implementations."""
import collections.abc, json, os, typing
from rec import run_scenarios
from dolo.misc.multimethod import multimethod, multimeta, overload, isa

thorough = os.environ["VERIF_TIER"] == "thorough"


class Lattice:
    """The classes of a scenario: name -> python type (for annotations), what it
    is a subclass of, and the order of its inheritance."""

    def __init__(self, spec):
        self.cls = {"O": object}
        for n, bases in spec:
            self.cls[n] = type(n, tuple(self.cls[b] for b in bases) or (object,), {})
        self.gen = {}                     # generic names: (origin class, argument names)
        self.uni = {}                     # unions: names
        self.ann = dict(self.cls)

    def plain(self, n, cls):
        self.cls[n] = self.ann[n] = cls

    def generic(self, n, origin, args, ann):
        self.gen[n], self.ann[n] = (origin, args), ann

    def union(self, n, args):
        self.uni[n], self.ann[n] = args, typing.Union[tuple(self.cls[a] for a in args)]

    def names(self):
        return list(self.cls) + list(self.gen) + list(self.uni)

    def below(self, x, y):
        if x == y:
            return True
        if x in self.uni:
            return y == "O"
        if y in self.uni:
            return any(self.below(x, a) for a in self.uni[y])
        if x in self.gen:
            o, a = self.gen[x]
            if y in self.gen:
                p, b = self.gen[y]
                return len(a) == len(b) and issubclass(o, p) and all(self.below(u, v) for u, v in zip(a, b))
            return issubclass(o, self.cls[y])
        return y in self.cls and issubclass(self.cls[x], self.cls[y])

    def order(self, x):
        back = {c: n for n, c in self.cls.items()}
        if x in self.uni:
            return [x, "O"]
        if x in self.gen:
            o = self.gen[x][0]
            return [x] + ([back[c] for c in o.__mro__ if c in back] if type(o) is type else ["O"])
        return [back.get(c, "?" + c.__name__) for c in self.cls[x].__mro__]

    def log(self, rec):
        ns = self.names()
        rec.event("Classes", sub={x: [y for y in ns if self.below(x, y)] for x in ns}, mro={x: self.order(x) for x in ns})


def lattice(rng):
    spec = []
    for n in "ABCDEFG"[:rng.randint(3, 7)]:
        for _ in range(20):
            bases = rng.sample([s[0] for s in spec], min(len(spec), rng.choice([0, 1, 1, 2, 2, 3])))
            try:
                Lattice(spec + [(n, bases)])
            except TypeError:
                continue
            break
        else:
            bases = []
        spec.append((n, bases))
    return Lattice(spec)


class Impl:
    """implementations which tell what they got"""

    def __init__(self):
        self.n = 0

    def make(self, name="f", params=None, G=None, owner=False, ret=False):
        """params: annotations in order, None where there is none"""
        self.n += 1
        while params and params[-1] is None:
            params = params[:-1]
        fid = "i%d" % self.n
        ps = ["p%d%s" % (i, "" if a is None else ": " + a) for i, a in enumerate(params or [])]
        src = "def %s(%s*rest, **kw)%s:\n  return (%r, (%s) + rest, kw)\n" % (
            name, "".join(p + ", " for p in ps), " -> O" if ret else "", fid, "".join("p%d, " % i for i in range(len(ps))))
        return fid, src


def define(src, G, name="f"):
    L = {}
    exec(src, G, L)
    return L[name]


def trailing(params):
    """the signature of annotated parameters"""
    s = ["O" if a is None else a for a in params]
    while params and params[-1] is None:
        params, s = params[:-1], s[:-1]
    return s


def instance(lat, c, values):
    return values[c]() if c in values else lat.cls[c]()


def asked(rec, f, lat, sig, values, how, extra=None):
    args = [instance(lat, c, values) for c in sig]
    kw = {"k": 1} if rec.rng.random() < 0.2 else {}
    if how == "item":
        cs = tuple(lat.cls[c] for c in sig)
        o, g = rec.call(lambda: f[cs])
        o, r = rec.call(lambda: g(*args, **kw)) if o == "ok" else (o, None)
    else:
        o, r = rec.call(lambda: f(*args, **kw))
    full = ([extra] if extra is not None else []) + args
    ok = o == "ok" and isinstance(r, tuple) and len(r) == 3
    rec.event("Call", sig=([type(extra).__name__] if extra is not None else []) + list(sig), how=how, outcome=o, got=str(r[0]) if ok else str(r)[:40],
              passed=bool(ok and len(r[1]) == len(full) and all(a is b for a, b in zip(r[1], full)) and r[2] == kw))


def history(k):
    def f(rec):
        rng = rec.rng
        for _ in range(6):
            lat, imp, values = lattice(rng), Impl(), {}
            pool = list(lat.cls)
            G = dict(lat.cls)
            generic = rng.random() < 0.3
            callable_ = list(pool)
            if generic:
                more(rng, lat, values, callable_)
                G.update(lat.ann)
                G["typing"] = typing
                pool = lat.names()
            lat.log(rec)
            ns = dict(G)
            ns["multimethod"] = multimethod
            sig = lambda: [rng.choice(pool) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 2, 3]))]
            # the first definition
            p = [rng.choice(pool + [None]) for _ in range(rng.choice([0, 1, 2]))]
            fid, src = imp.make(params=p, ret=rng.random() < 0.2)
            o, r = rec.call(lambda: exec("@multimethod\n" + src, ns))
            rec.event("Register", sigs=[[trailing(p), fid]], how="decorated", outcome=o, same=True)
            if o != "ok":
                continue
            fn = ns["f"]
            known = [trailing(p)]
            impls = []
            for _ in range(rng.choice([4, 8, 12, 25])):
                what = rng.random()
                if what < 0.45:
                    how = rng.choice(["item", "types", "types", "annotated", "redefined", "again", "pending"])
                    if how in ("item", "types"):
                        s = sig() if rng.random() < 0.8 or not known else rng.choice(known)
                        if how == "types" and (not s or any(c in lat.gen or c in lat.uni for c in s)):
                            how = "item"
                        fid, src = imp.make(name=rng.choice(["f", "g"]))
                        g = define(src, G, src[4])
                        ts = tuple(lat.ann[c] for c in s)
                        if how == "item":
                            o, r = rec.call(lambda: fn.__setitem__(ts, g))
                            r = g
                        else:
                            o, r = rec.call(lambda: fn.register(*ts)(g))
                        rec.event("Register", sigs=[[s, fid]], how=how, outcome=o, same=r is g)
                        known.append(s)
                        impls.append((fid, g))
                    elif how == "again" and impls:           # one implementation for several signatures
                        s = sig()
                        fid, g = rng.choice(impls)
                        o, r = rec.call(lambda: fn.__setitem__(tuple(lat.ann[c] for c in s), g))
                        rec.event("Register", sigs=[[s, fid]], how=how, outcome=o, same=True)
                        known.append(s)
                    elif how in ("annotated", "redefined"):
                        p = [rng.choice(pool + [None]) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
                        name = rng.choice(["f", "g"]) if how == "annotated" else "f"
                        fid, src = imp.make(name=name, params=p, ret=rng.random() < 0.2)
                        if how == "annotated":
                            g = define(src, G, name)
                            o, r = rec.call(lambda: fn.register(g))
                            same = r is (fn if name == "f" else g)
                        else:
                            o, r = rec.call(lambda: exec("@multimethod\n" + src, ns))
                            same = ns["f"] is fn
                        rec.event("Register", sigs=[[trailing(p), fid]], how=how, outcome=o, same=same)
                        known.append(trailing(p))
                    elif how == "pending":     # annotations naming a class that is not there yet
                        H = dict(G)
                        c = rng.choice(pool)
                        p = ["'Later'"] + [rng.choice(pool) for _ in range(rng.choice([0, 1]))]
                        fid, src = imp.make(name="g", params=p)
                        g = define(src, H, "g")
                        fresh = rng.random() < 0.7
                        if fresh:                            # nothing is remembered
                            s = sig()
                            fid0, src0 = imp.make()
                            g0 = define(src0, G)
                            o, r = rec.call(lambda: fn.__setitem__(tuple(lat.ann[z] for z in s), g0))
                            rec.event("Register", sigs=[[s, fid0]], how="item", outcome=o, same=True)
                            known.append(s)
                        o, r = rec.call(lambda: fn.register(g))
                        early = rng.random() < 0.5
                        s = [c] + p[1:]
                        if early:                            # a lookup in between may report what is missing, and loses nothing
                            o2, _ = rec.call(lambda: fn(*[instance(lat, z, values) for z in [rng.choice(callable_)]]))
                        H["Later"] = lat.ann[c]
                        asking = None
                        if not early and rng.random() < 0.5:  # the next lookup of something new brings it in
                            asking = [rng.choice(callable_) for _ in range(rng.choice([1, 2, 4]))]
                        if asking is None or asking in known or any(c in values for c in asking) or not fresh:
                            asking = None
                            o3, _ = rec.call(lambda: fn.evaluate())
                            o = o if o3 == "ok" else o3
                        rec.event("Register", sigs=[[s, fid]], how="%s%s" % (how, "-asked-before" if early else "-asked" if asking is not None else ""), outcome=o, same=r is g)
                        known.append(s)
                        if asking is not None:
                            asked(rec, fn, lat, asking, values, "call")
                elif what < 0.55 and known:
                    s = rng.choice(known) if rng.random() < 0.85 else sig()
                    if any(c in lat.gen or c in lat.uni for c in s):
                        continue
                    o, r = rec.call(lambda: fn.__delitem__(tuple(lat.cls[c] for c in s)))
                    rec.event("Remove", sig=s, outcome=o)
                else:
                    for _ in range(rng.choice([1, 2, 5])):
                        s = [rng.choice(callable_) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
                        plain = all(c in lat.cls and c not in values for c in s)
                        asked(rec, fn, lat, s, values, "item" if plain and rng.random() < 0.15 else "call")
            for _ in range(6):
                asked(rec, fn, lat, [rng.choice(callable_) for _ in range(rng.choice([1, 1, 2, 2, 3]))], values, "call")
    return f


def more(rng, lat, values, callable_):
    """containers of the classes of the lattice"""
    users = [c for c in lat.cls if c != "O"]
    lat.plain("list", list), lat.plain("tuple", tuple), lat.plain("dict", dict), lat.plain("str", str)
    values.update(list=list, tuple=tuple, dict=dict, str=lambda: "word")
    for c in rng.sample(users, min(len(users), 3)):
        n = "list_" + c
        lat.generic(n, list, [c], typing.List[lat.cls[c]])
        values[n] = lambda c=c: [lat.cls[c](), object()]
        callable_.append(n)
    c = rng.choice(users)
    lat.generic("iter_" + c, collections.abc.Iterable, [c], typing.Iterable[lat.cls[c]])
    a, b = rng.choice(users), rng.choice(users)
    n = "tuple_%s_%s" % (a, b)
    lat.generic(n, tuple, [a, b], typing.Tuple[lat.cls[a], lat.cls[b]])
    values[n] = lambda: (lat.cls[a](), lat.cls[b]())
    c = rng.choice(users)
    n = "dict_" + c
    lat.generic(n, dict, ["str", c], typing.Dict[str, lat.cls[c]])
    values[n] = lambda c=c: {"a": lat.cls[c](), "b": 3}
    callable_ += ["list", "tuple", "dict", "str", "tuple_%s_%s" % (a, b), n]
    pairs = [(x, y) for x in users for y in users if x < y and not any(z != "O" and lat.below(x, z) and lat.below(y, z) for z in lat.cls)]
    if pairs:
        lat.union("either", list(rng.choice(pairs)))


def dense(k):
    """few classes, signatures of several lengths, every call after every step"""
    def f(rec):
        rng = rec.rng
        shapes = [[("A", []), ("B", ["A"])], [("A", []), ("B", ["A"]), ("C", ["B"])], [("A", []), ("B", ["A"]), ("C", ["A"]), ("D", ["C", "B"])]]
        for _ in range(12):
            lat, imp = Lattice(rng.choice(shapes)), Impl()
            pool = list(lat.cls)
            deep = [()] + [(a,) for a in pool] + [(a, b) for a in pool for b in pool]
            lat.log(rec)
            fid, src = imp.make()
            o, fn = rec.call(lambda: multimethod(define(src, dict(lat.cls))))
            rec.event("Register", sigs=[[[], fid]], how="function", outcome=o, same=True)
            if o != "ok":
                continue
            have = [()]
            for step in range(rng.randint(4, 9)):
                if have and rng.random() < 0.25:
                    s = rng.choice(have)
                    have.remove(s)
                    o, r = rec.call(lambda: fn.__delitem__(tuple(lat.cls[c] for c in s)))
                    rec.event("Remove", sig=list(s), outcome=o)
                else:
                    s = rng.choice(deep)
                    fid, src = imp.make()
                    g = define(src, dict(lat.cls))
                    o, r = rec.call(lambda: fn.__setitem__(tuple(lat.cls[c] for c in s), g))
                    rec.event("Register", sigs=[[list(s), fid]], how="item", outcome=o, same=True)
                    have = [x for x in have if x != s] + [s]
                for c in rng.sample(deep, min(len(deep), rng.choice([0, 4, 13]))):
                    asked(rec, fn, lat, list(c), {}, "call")
            for c in deep:
                asked(rec, fn, lat, list(c), {}, "call")
    return f


def methods(k):
    """methods of a class, called on its instances and those of subclasses"""
    def f(rec):
        rng = rec.rng
        for _ in range(6):
            lat, imp = lattice(rng), Impl()
            meta = rng.random() < 0.5
            G = dict(lat.cls)
            G.update(multimethod=multimethod, multimeta=multimeta)
            pool = list(lat.cls)
            src = "class Owner(%s):\n  x = 3\n" % ("metaclass=multimeta" if meta else "")
            sigs = []
            for _ in range(rng.randint(1, 5)):
                p = [None] + [rng.choice(pool + [None]) for _ in range(rng.choice([1, 1, 2]))]
                if trailing(p) == []:
                    continue
                fid, s = imp.make(name="m", params=p)
                src += ("" if meta else "  @multimethod\n") + "".join("  " + z + "\n" for z in s.splitlines())
                sigs.append([trailing(p), fid])
            if not sigs:
                continue
            o, r = rec.call(lambda: exec(src, G))
            if o == "ok":
                G["Sub"] = type("Sub", (G["Owner"],), {})
                lat.plain("Owner", G["Owner"])
                lat.plain("Sub", G["Sub"])
            lat.log(rec)
            rec.event("Register", sigs=sigs, how="metaclass" if meta else "methods", outcome=o, same=o == "ok" and type(G["Owner"].__dict__.get("m")) is multimethod)
            if o != "ok":
                continue
            for _ in range(12):
                me = lat.cls[rng.choice(["Owner", "Sub"])]()
                asked(rec, me.m, lat, [rng.choice(pool) for _ in range(rng.choice([1, 1, 2]))], {}, "method", extra=me)
    return f


def overloads(k):
    """functions which dispatch on predicates"""
    def f(rec):
        rng = rec.rng
        for _ in range(8):
            names = ["x", "y"][:rng.choice([1, 2])]
            made = []
            fn = None
            for step in range(rng.randint(4, 14)):
                if fn is None or rng.random() < 0.4:
                    fid = "o%d" % step
                    ok = {n: sorted(rng.sample(range(5), rng.randint(0, 4))) for n in names if rng.random() < 0.7}
                    name = rng.choice(["f", "g"]) if fn is not None else "f"
                    L = {"P": {n: (lambda v, s=set(s): v in s) for n, s in ok.items()}}
                    key = "k%d" % step if ok else "bare"
                    if made and rng.random() < 0.3:      # the same predicates again
                        key, P = rng.choice(made)
                        ok, L = P
                    exec("def %s(%s):\n  return (%r, [%s])" % (name, ", ".join(n + (": P[%r]" % n if n in ok else "") for n in names), fid, ", ".join(names)), L)
                    g = L[name]
                    made.append((key, (ok, {"P": L["P"]})))
                    if fn is None:
                        o, r = rec.call(lambda: overload(g))
                        fn = r
                        rec.event("Offer", first=True, key=key, fn=fid, ok=ok, outcome=o)
                        if fn is None:
                            break
                    else:
                        o, r = rec.call(lambda: fn.register(g))
                        good = r is (fn if name == "f" else g)
                        rec.event("Offer", first=False, key=key, fn=fid, ok=ok, outcome=o if good or o != "ok" else "returned-something-else")
                else:
                    args = [rng.randrange(5) for _ in names]
                    byname = rng.random() < 0.3
                    o, r = rec.call(lambda: fn(**dict(zip(names, args))) if byname else fn(*args))
                    ok = o == "ok" and isinstance(r, tuple)
                    rec.event("Ask", args=[list(z) for z in zip(names, args)], outcome=o, got=r[0] if ok else str(r), passed=bool(ok and r[1] == args))
    return f


def replay(k, n):
    def f(rec):
        spec = [("A", []), ("B", ["A"]), ("C", ["A"]), ("D", ["B", "C"])]
        calls = [["A"], ["D"], ["A", "B"], ["B", "A"], ["D", "D"], ["C", "B"]]
        lat = Lattice(spec)
        hs = json.load(open(os.path.join(os.environ["VERIF_BEH"], "dispatches.json")))[k::n]
        if not thorough and len(hs) > 250:
            hs = rec.rng.sample(hs, 250)
        for h in hs:
            imp = Impl()
            fn = None
            lat.log(rec)
            for s in h:
                ts = tuple(lat.cls[c] for c in s["sig"])
                if s["op"] == "set":
                    fid, src = "f%d" % s["fn"], None
                    g = IMPL[s["fn"]]
                    if fn is None:
                        o, fn = rec.call(lambda: multimethod(BARE))
                        if o == "ok":
                            o, r = rec.call(lambda: fn.__delitem__(()))
                    o, r = rec.call(lambda: fn.__setitem__(ts, g))
                    rec.event("Register", sigs=[[s["sig"], fid]], how="item", outcome=o, same=True)
                elif s["op"] == "unset":
                    o, r = rec.call(lambda: fn.__delitem__(ts))
                    rec.event("Remove", sig=s["sig"], outcome=o)
                elif fn is not None:
                    asked(rec, fn, lat, s["sig"], {}, "call")
            if fn is not None:
                for c in calls:
                    asked(rec, fn, lat, c, {}, "call")
    return f


def BARE(*a, **k):
    return ("bare", a, k)


IMPL = {i: (lambda i: lambda *a, **k: ("f%d" % i, a, k))(i) for i in (1, 2)}

S = []
for k in range(100 if thorough else 16):
    S.append(("history/%d" % k, history(k)))
    S.append(("dense/%d" % k, dense(k)))
    S.append(("methods/%d" % k, methods(k)))
    S.append(("overloads/%d" % k, overloads(k)))
for k in range(8):
    S.append(("dispatches/%d" % k, replay(k, 8)))
if __name__ == "__main__":
    run_scenarios(S)
