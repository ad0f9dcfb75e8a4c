"""M01 / M02: calibrations of generated and sample models; histories of
set_calibration and reads (those printed by TLC and random longer ones)."""
import sys, os, glob, json, random, copy
import numpy as np
from fractions import Fraction
from rec import run_scenarios, q, qa
from mgen import gen, num, par, show, top, rand_expr, dec, GROUPS
import mparse
from dolo import yaml_import

PID = os.environ["VERIF_PID"]
thorough = os.environ["VERIF_TIER"] == "thorough"
R = os.environ["VERIF_REPO"]


def entry_text(e):
    """calibration entries are plain numbers when the expression is a number"""
    if e[0] == "num":
        f = Fraction(e[1])
        return dec(f) if f >= 0 else "-" + dec(-f)
    return top(e)


def gen_cal(rng, A, fault=None):
    """random triangular system; returns the entries (name -> expr)"""
    sym = A["symbols"]
    declared = [n for g in GROUPS for n in sym[g]]
    dn = [d["name"] for d in A["defs"]]
    extra = ["kx_%d" % i for i in range(rng.randint(0, 3))]
    order = declared + extra + [n for n in dn if rng.random() < 0.3]
    rng.shuffle(order)
    ent, done = {}, []
    for n in order:
        if rng.random() < 0.12 and n not in extra:
            continue                    # left to its default
        if not done or rng.random() < 0.35:
            e = num(Fraction(rng.randint(-12, 16), rng.choice([1, 2, 4, 8])))
        else:
            e = rand_expr(rng, [par(x) for x in done], 2)
            if not mparse_atoms(e):
                e = ["add", e, par(rng.choice(done))]
        ent[n] = e
        done.append(n)
    # definitions depend on symbols; entries may also use definitions which only use entries
    defs_ok = [d for d in A["defs"] if d["name"] not in ent]
    if defs_ok and rng.random() < 0.5:
        d = defs_ok[0]
        reach = closure(A, ent, d["name"])
        cand = [n for n in declared if n not in reach and n not in ent]
        if cand:
            ent[rng.choice(cand)] = ["add", par(d["name"]), num(1)]
    if fault == "cycle":
        ks = [k for k in ent if k in declared]
        k = rng.choice(ks)
        dep = [j for j in ent if k in closure(A, ent, j) or j == k]
        ent[k] = ["add", par(rng.choice(dep)), num(1)]
    if fault == "unknown":
        k = rng.choice(list(ent))
        ent[k] = ["mul", ent[k], par("not_a_symbol")]
    return ent


def mparse_atoms(e):
    from mgen import atoms
    return atoms(e)


def closure(A, ent, n):
    """symbols n depends on"""
    D = {d["name"]: d["expr"] for d in A["defs"]}
    seen, todo = set(), [n]
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        e = ent.get(k) or D.get(k)
        if e is not None:
            todo += list(mparse_atoms(e))
    return seen


def rewrite(A, ent, rng, dom, exo_lines):
    """the YAML text with calibration, exogenous and domain replaced"""
    head = A["yaml"].split("calibration:")[0]
    items = list(ent.items())
    rng.shuffle(items)
    Y = [head + "calibration:"]
    for n, e in items:
        Y.append("    %s: %s" % (n, entry_text(e)))
    Y += ["", "exogenous:" + exo_lines[0]] + exo_lines[1:]
    Y += ["", "domain:"]
    keys = list(dom)
    rng.shuffle(keys)
    for s in keys:
        Y.append("    %s: [%s, %s]" % (s, entry_text(dom[s][0]), entry_text(dom[s][1])))
    Y += ["", "options:", "    grid: !Cartesian", "        n: [%s]" % ", ".join("4" for _ in dom), ""]
    return "\n".join(Y)


def gen_exo(rng, A, ent):
    """exogenous section with parameters depending on the calibration"""
    names = A["symbols"]["exogenous"]
    ps = [n for n in A["symbols"]["parameters"] if n in ent] or None

    def sq():
        if not ps:
            return num(Fraction(1, 4))
        p = par(rng.choice(ps))
        return ["add", num(Fraction(1, 8)), ["mul", p, p]]

    lin = lambda: par(rng.choice(ps)) if ps else num(Fraction(1, 2))
    d = len(names)
    kind = rng.choice(["normal", "var1", "per-shock", "per-shock", "mc"])
    if kind == "normal":
        S = [[sq() if i == j else num(0) for j in range(d)] for i in range(d)]
        return [dict(kind="Normal", params=[S])], [" !Normal", "    Σ: [%s]" % ", ".join("[" + ", ".join(map(entry_text, r)) + "]" for r in S)]
    if kind == "var1":
        S = [[sq() if i == j else num(0) for j in range(d)] for i in range(d)]
        r = ["div", num(1), ["add", num(1), sq()]]
        return [dict(kind="VAR1", params=[[[r if i == j else num(0) for j in range(d)] for i in range(d)], S])], \
            [" !VAR1", "    rho: %s" % entry_text(r), "    Sigma: [%s]" % ", ".join("[" + ", ".join(map(entry_text, x)) + "]" for x in S)]
    if kind == "mc":
        V = [[lin() for _ in range(d)], [["add", num(1), sq()] for _ in range(d)]]
        p = ["div", num(1), ["add", num(1), sq()]]
        T = [[p, ["sub", num(1), p]], [num(Fraction(1, 4)), num(Fraction(3, 4))]]
        mat = lambda X: "[" + ", ".join("[" + ", ".join(map(entry_text, x)) + "]" for x in X) + "]"
        return [dict(kind="MarkovChain", params=[T, V])], [" !MarkovChain", "    values: " + mat(V), "    transitions: " + mat(T)]
    out, lines = [], [""]
    for n in names:
        k = rng.choice(["UNormal", "AR1", "ConstantProcess"])
        if k == "UNormal":
            s = sq()
            out.append(dict(kind=k, params=[[[s]]]))
            lines += ["    %s: !UNormal" % n, "        σ: " + entry_text(s)]
        elif k == "AR1":
            r, s = ["div", num(1), ["add", num(1), sq()]], sq()
            out.append(dict(kind=k, params=[[[r]], [[s]]]))
            lines += ["    %s: !AR1" % n, "        rho: " + entry_text(r), "        sigma: " + entry_text(s)]
        else:
            mu = lin()
            out.append(dict(kind=k, params=[[[mu]]]))
            lines += ["    %s: !ConstantProcess" % n, "        μ: [%s]" % entry_text(mu)]
    return out, lines


def obs_exo(ex):
    ps = getattr(ex, "processes", None)
    ps = [ex] if ps is None else list(ps)
    out = []
    for p in ps:
        k = type(p).__name__
        if k == "Normal":
            pr = [p.Σ]
        elif k == "UNormal":
            pr = [[[p.σ]]]
        elif k == "AR1":
            pr = [[[p.ρ]], [[p.σ]]]
        elif k == "VAR1":
            pr = [p.ρ, p.Σ]
        elif k == "MarkovChain":
            pr = [p.transitions, p.values]
        elif k == "ConstantProcess":
            pr = [[list(p.μ)]]
        else:
            pr = [[["nan"]]]
        out.append([qa(np.atleast_2d(np.array(x, dtype=float))) if not isinstance(x, list) or k != "x" else x for x in pr])
    return out


def read(rec, o, m, view, grid=True):
    got = {}

    def f():
        if view == "calibration":
            c = m.calibration
            groups = [g for g in m.symbols.keys()]
            ro = True
            for g in groups:
                a = c[g]
                if len(a):
                    old = float(a[0])
                    try:
                        a[0] = old + 1.0
                        ro = False
                        a[0] = old
                    except ValueError:
                        pass
            tup = True
            if len(groups) >= 2:
                t = c[groups[0], groups[1]]
                tup = len(t) == 2 and np.array_equal(t[0], c[groups[0]], equal_nan=True) and \
                    np.array_equal(t[1], c[groups[1]], equal_nan=True)
            # both spellings of the group of controls
            if "controls" in groups:
                tup = tup and np.array_equal(c["actions"], c["controls"], equal_nan=True)
            return dict(flat={n: q(v) for n, v in c.flat.items()}, grouped={g: qa(c[g]) for g in groups},
                        order={g: list(m.symbols[g]) for g in groups},
                        lookup={n: q(c[n]) for n in c.flat}, tuple_ok=bool(tup), readonly=ro)
        if view == "domain":
            d = m.domain
            r = dict(names=list(d.states), min=qa(d.min), max=qa(d.max), grid=bool(grid), gmin=[], gmax=[])
            if grid:
                g, dp = m.discretize()
                nod = g["endo"].nodes
                r["gmin"], r["gmax"] = qa(nod.min(axis=0)), qa(nod.max(axis=0))
            return r
        if view == "exogenous":
            return obs_exo(m.exogenous)
        if view == "residuals":
            r = m.residuals()
            return dict(transition=qa(r["transition"]), arbitrage=qa(r["arbitrage"]))
        if view == "functions":
            c = m.calibration
            return qa(m.functions["transition"](c["exogenous"], c["states"], c["controls"], c["exogenous"], c["parameters"]))

    out, v = rec.call(f)
    rec.event("Read", obj=o, view=view, outcome=out, got=v if out == "ok" else {})


def write(rec, txt):
    fn = os.path.abspath("mo_%s_%d.yaml" % (rec.sc.replace("/", "_"), os.getpid()))
    with open(fn, "w") as f:
        f.write(txt)
    return fn


def abstract(A, dom, exo):
    return dict(symbols=A["symbols"], defs=A["defs"], blocks=A["blocks"], bounds=A["bounds"], domain=dom, exo=exo)


def imp(rec, o, fn, A, dom, exo, ent, check=True):
    out, m = rec.call(yaml_import, fn, check=check)
    rec.event("Import", obj=o, outcome=out, calib=ent, **abstract(A, dom, exo))
    return m if out == "ok" else None


def gen_dom(rng, A, ent):
    ps = [n for n in A["symbols"]["parameters"] if n in ent]
    dom = {}
    for s in A["symbols"]["states"]:
        lo = num(Fraction(rng.randint(-8, 4), 4))
        hi = num(rng.randint(4, 9))
        if ps:
            p = par(rng.choice(ps))
            lo = ["sub", lo, ["mul", p, p]]
            hi = ["add", hi, ["mul", p, p]] if rng.random() < 0.7 else hi
        dom[s] = [lo, hi]
    return dom


def value_of(e):
    """python value given to set_calibration for an entry: a number or a string"""
    if e[0] == "num":
        f = Fraction(e[1])
        return int(f) if f.denominator == 1 else float(f)
    return top(e)


# ------------------------------------------------------------------ scenarios
def cal_scenario(i):
    fault = {0: "cycle", 1: "unknown"}.get(i % 8)

    def run(rec):
        rng = rec.rng
        A = gen(rng, blocks=["arbitrage", "transition"] + rng.choice([[], ["value"], ["felicity", "expectation", "direct_response"]]))
        ent = gen_cal(rng, A, fault)
        dom = gen_dom(rng, A, ent)
        exo, lines = gen_exo(rng, A, ent)
        # the same entries in several textual orders
        for k in range(3):
            fn = write(rec, rewrite(A, ent, rng, dom, lines))
            # the last order is imported with the checks, which compile the functions
            m = imp(rec, "m%d" % k, fn, A, dom, exo, ent, check=(k == 2 or fault is not None))
            if m is None:
                continue
            read(rec, "m%d" % k, m, "calibration")
            if fault is None and k == 2:
                for v in ("domain", "exogenous", "residuals", "functions", "calibration"):
                    read(rec, "m%d" % k, m, v, grid=nice(m))
    return run


def nice(m):
    try:
        d = m.domain
        return bool(np.all(np.isfinite(d.min)) and np.all(np.isfinite(d.max)) and np.all(d.max > d.min)
                    and all(k not in type(m.exogenous).__name__ for k in ("x",)) and gridable(m))
    except Exception:
        return False


def gridable(m):
    """only the endogenous grid is of interest: skip shocks whose parameters
    are not admissible for a discretization"""
    try:
        m.exogenous.discretize()
        return True
    except Exception:
        return False


def full_cal(rng, A):
    """a complete calibration made of numbers and a few expressions"""
    ent, done = {}, []
    for g in ["parameters", "exogenous", "states", "controls", "values", "rewards", "expectations", "poststates"]:
        for n in A["symbols"][g]:
            if done and rng.random() < 0.4:
                ent[n] = ["add", num(Fraction(1, 2)), ["mul", par(rng.choice(done)), num(Fraction(rng.randint(1, 6), 8))]]
            else:
                ent[n] = num(Fraction(rng.randint(2, 9), 8))
            done.append(n)
    return ent


def histories(rec, H, tag, A, views_extra=False):
    rng = rec.rng
    ent0 = full_cal(rng, A)
    P = A["symbols"]["parameters"]
    dom = gen_dom(rng, A, ent0)
    exo, lines = gen_exo(rng, A, ent0)
    fn = write(rec, rewrite(A, ent0, rng, dom, lines))
    p, qq = P[0], P[1]
    later = A["symbols"]["states"][0]
    # the second parameter may depend on the first one, never the converse
    ent0[p] = num(Fraction(3, 8))
    if p in mparse_atoms(ent0[qq]) is False:
        pass
    fn = write(rec, rewrite(A, ent0, rng, dom, lines))
    changes = [
        {p: num(Fraction(7, 8))},
        {p: num(2)},
        {qq: ["add", num(Fraction(1, 4)), ["mul", par(p), par(p)]]},
        {p: num(Fraction(5, 8)), later: ["add", par(qq), num(1)]},
    ]
    hist = []
    for k, h in enumerate(H):
        ms = {}
        for o in sorted({x["o"] for x in h}):
            ms[o] = imp(rec, o, fn, A, dom, exo, ent0, check=False)
        for n, x in enumerate(h):
            m = ms[x["o"]]
            if m is None:
                break
            if x["op"] == "set":
                e = changes[x["i"] - 1]
                kw = {a: value_of(b) for a, b in e.items()}
                style = (k + n) % 3
                if style == 0:
                    out, _ = rec.call(m.set_calibration, **kw)
                elif style == 1:
                    out, _ = rec.call(m.set_calibration, kw)
                else:
                    # one entry in the dictionary, the other as keyword
                    a = list(kw)[0]
                    rest = {b: v for b, v in kw.items() if b != a}
                    out, _ = rec.call(m.set_calibration, {a: kw[a]}, **rest)
                rec.event("Set", obj=x["o"], entries=e, outcome=out)
            else:
                read(rec, x["o"], m, x["view"], grid=False)


def tlc_histories(H, j):
    def run(rec):
        A = gen(rec.rng, blocks=["arbitrage", "transition"])
        histories(rec, H, j, A)
    return run


def random_history(i):
    """long histories on one or two objects of a generated model, all views"""
    def run(rec):
        rng = rec.rng
        A = gen(rng, blocks=["arbitrage", "transition"] + rng.choice([[], ["value"], ["felicity"]]))
        ent = full_cal(rng, A)
        # some declared symbols have no entry
        for n in list(ent):
            g = next(g for g in A["symbols"] if n in A["symbols"][g])
            users = [k for k in ent if n in mparse_atoms(ent[k])]
            if g in ("values", "rewards", "exogenous") and rng.random() < 0.4 and not users:
                del ent[n]
        if rng.random() < 0.6:
            n = A["symbols"]["parameters"][-1]
            if not any(n in mparse_atoms(e) for k, e in ent.items()):
                del ent[n]
        dom = gen_dom(rng, A, ent)
        exo, lines = gen_exo(rng, A, ent)
        fn = write(rec, rewrite(A, ent, rng, dom, lines))
        data = {o: dict(ent) for o in ("a", "b")}
        ms = {o: imp(rec, o, fn, A, dom, exo, ent, check=(o == "a")) for o in ("a", "b")}
        if ms["a"] is None or ms["b"] is None:
            return
        allsym = [n for g in ("parameters", "exogenous", "states", "controls") for n in A["symbols"][g]]
        for k in range(30 if thorough else 16):
            o = rng.choice(["a", "a", "b"])
            if rng.random() < 0.5:
                e = {}
                for n in rng.sample(allsym, rng.choice([1, 1, 2])):
                    trial = dict(data[o])
                    trial.update(e)
                    # any expression that keeps the system triangular
                    trial[n] = num(1)
                    ok = [x for x in trial if n not in closure(A, trial, x) and x != n]
                    if ok and rng.random() < 0.5:
                        e[n] = ["add", num(Fraction(rng.randint(1, 8), 8)), ["mul", par(rng.choice(ok)), num(Fraction(1, 2))]]
                    else:
                        e[n] = num(Fraction(rng.randint(2, 24), 8))
                kw = {a: value_of(b) for a, b in e.items()}
                if any(isinstance(v, float) for v in kw.values()) and rng.random() < 0.3:
                    kw = {a: (np.float64(v) if isinstance(v, float) else v) for a, v in kw.items()}
                out, _ = rec.call(ms[o].set_calibration, kw) if rng.random() < 0.5 else rec.call(ms[o].set_calibration, **kw)
                data[o].update(e)
                rec.event("Set", obj=o, entries=e, outcome=out)
            else:
                v = rng.choice(["calibration", "domain", "exogenous", "residuals", "functions"])
                if o == "b" and v in ("residuals", "functions"):
                    v = "calibration"
                read(rec, o, ms[o], v, grid=nice(ms[o]) if v == "domain" else False)
        # a third object, imported from the same file after all these changes
        c = imp(rec, "c", fn, A, dom, exo, ent, check=False)
        if c is not None:
            for v in ("calibration", "domain", "exogenous"):
                read(rec, "c", c, v, grid=False)
    return run


def example(fn):
    def run(rec):
        A = mparse.read_model(fn)
        V = [v for g, vs in A["symbols"].items() if g != "parameters" for v in vs] + [d["name"] for d in A["defs"]]
        ent = {k: mparse.expr(str(v), V) for k, v in A["calibration"].items()}
        dom = {}
        for s, b in A["domain"].items():
            if s in A["symbols"]["states"]:
                dom[s] = [mparse.expr(str(b[0]), V), mparse.expr(str(b[1]), V)]
        m = imp(rec, "m", fn, A, dom, [], ent)
        if m is None:
            return
        views = ["calibration", "residuals"] + (["domain"] if len(dom) == len(A["symbols"]["states"]) else []) + ["functions"]
        for v in views:
            read(rec, "m", m, v, grid=False)
        nums = [k for k, e in ent.items() if e[0] == "num" and k in A["symbols"]["parameters"]]
        for k in rec.rng.sample(nums, min(3, len(nums))):
            e = {k: num(Fraction(ent[k][1]) * Fraction(rec.rng.choice([127, 126]), 128))}
            out, _ = rec.call(m.set_calibration, **{k: value_of(e[k])})
            rec.event("Set", obj="m", entries=e, outcome=out)
            for v in rec.rng.sample(views, 2) + ["calibration"]:
                read(rec, "m", m, v, grid=False)
    return run


SC = []
if PID == "M02":
    SC += [("cal/%d" % i, cal_scenario(i)) for i in range(600 if thorough else 96)]
    for f in sorted(glob.glob(R + "/examples/models/*.yaml")) + sorted(glob.glob(R + "/examples/models_/*.yaml")):
        if mparse.readable(f):
            SC.append(("example/" + os.path.basename(os.path.dirname(f)) + "/" + os.path.basename(f), example(f)))
if PID == "M01":
    H = json.load(open(os.path.join(os.environ["VERIF_BEH"], "histories.json")))
    n = 16
    for j in range(n):
        SC.append(("tlc-histories/%d" % j, tlc_histories(H[j::n], j)))
    SC += [("history/%d" % i, random_history(i)) for i in range(240 if thorough else 40)]
    for f in sorted(glob.glob(R + "/examples/models/*.yaml")):
        SC.append(("example/" + os.path.basename(f), example(f)))
sys.exit(run_scenarios(SC, timeout=600))
