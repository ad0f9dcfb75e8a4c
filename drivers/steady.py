"""K01: residuals and steady states."""
import sys, os, json, re
import mparse
from fractions import Fraction as F
import numpy as np
from rec import run_scenarios, q, qa
from mgen import GROUPS
from sgen import gen_solvable, exo_lines, load
from lgen import linear, pick, IN, OUT
from dolo import yaml_import
from dolo.algos.steady_state import residuals, find_steady_state

thorough = os.environ["VERIF_TIER"] == "thorough"
G4 = ["exogenous", "states", "controls", "parameters"]


def vec(c, g):
    return np.array(c[g], dtype=float)


def report(rec, model, calib, how):
    given = calib is not None
    f = rec.rng.choice([lambda: residuals(model, calib), lambda: model.residuals(calib)] + ([] if given else [lambda: residuals(model), lambda: model.residuals()]))
    o, r = rec.call(f)
    c = calib if given else model.calibration
    m, s, x, p = (qa(vec(c, g)) for g in G4)
    d = dict(outcome=o, how=how, m=m, s=s, x=x, p=p)
    if o == "ok":
        d.update(keys=sorted(r), transition=qa(np.asarray(r["transition"])), arbitrage=qa(np.asarray(r["arbitrage"])))
    rec.event("Residuals", **d)


ANSI = re.compile(r"\x1b\[(\d+)m")


def shown(rec, model, A):
    """what a model displays: its equations, and their residuals at the calibration"""
    V = [v for g, l in A["symbols"].items() if g != "parameters" for v in l]
    names = V + [d["name"] for d in A["defs"]]

    def tree(t):
        z = mparse.P(t, names)
        e = z.sum()
        if z.isop("="):
            z.eat()
            return [e, z.sum()]
        return [e]

    def text():
        S, g, head = {}, None, {}
        for line in rec.rng.choice([str, repr])(model).split("\n"):
            a = re.match(r'^\s*(name|type|file): "(.*?)"?$', line)
            b = re.match(r"^([A-Za-z_]+)$", line)
            c = re.match(r"^ (\d+) +: (?:(\S+) : )?(.*)$", line)
            if a:
                head[a.group(1)] = a.group(2)
            elif b:
                g = b.group(1)
                S[g] = []
            elif c:
                v = c.group(2)
                e = tree(c.group(3))
                S[g].append(dict(n=int(c.group(1)), val=q(float(ANSI.sub("", v))) if v else "none", red=bool(v and "\x1b[31m" in v), lhs=e[0] if len(e) > 1 else [], expr=e[-1]))
        return dict(head=head, S=S)

    def html():
        S, g = {}, None
        h = model._repr_html_()
        for t, e, v in re.findall(r"<tr><td>([^<]*)</td><td>(\$[^$]*\$)</td><td>(.*?)</td></tr>", h):
            g = t or g
            z = re.search(r"-?(?:\d+\.\d+|nan|inf)", v)
            S.setdefault(g, []).append(dict(val=q(float(z.group(0))) if z else "none", red="red" in v))
        return dict(S=S)
    c = model.calibration
    m, s, x, p = (qa(vec(c, g)) for g in G4)
    o, r = rec.call(text)
    o2, r2 = rec.call(html)
    F = lambda r, g: r["S"].get(g, [])
    d = dict(outcome=o, outcome2=o2, m=m, s=s, x=x, p=p, name=A.get("name", "Anonymous"), file=A["file"])
    if o == "ok":
        d.update(head=dict(name=r["head"].get("name", ""), file=r["head"].get("file", "")), sections=sorted(r["S"]), transition=F(r, "transition"), arbitrage=F(r, "arbitrage"), definitions=F(r, "definitions"),
                 own=dict(name=model.name, file=model.filename))
    if o2 == "ok":
        d.update(htransition=F(r2, "transition"), harbitrage=F(r2, "arbitrage"), hdefinitions=F(r2, "definitions"))
    rec.event("Shown", **d)


def find(rec, model, A, how, linear, m=None):
    before = {n: float(v) for n, v in model.calibration.flat.items()}
    kw = {} if m is None else dict(m=m)
    o, r = rec.call(lambda: find_steady_state(model, **kw))
    mm = vec(model.calibration, "exogenous") if m is None else np.array(m, float)
    d = dict(outcome=o, how=how, linear=linear, m=qa(mm), p=qa(vec(model.calibration, "parameters")),
             unchanged={n: float(v) for n, v in model.calibration.flat.items()} == before)
    if o == "ok":
        s, x = vec(r, "states"), vec(r, "controls")
        ok = True
        for g in G4:
            for k, n in enumerate(A["symbols"][g]):
                ok = ok and rec.call(lambda: float(r[n]))[1] == float(r[g][k])
        d.update(s=qa(s), x=qa(x), mf=qa(vec(r, "exogenous")), pf=qa(vec(r, "parameters")), labelled=bool(ok))
    rec.event("Found", **d)
    return r


def shake(rec, model, A, groups, w=1.0):
    for g in groups:
        for k, n in enumerate(A["symbols"][g]):
            if rec.rng.random() < 0.8:
                model.set_calibration(**{n: float(vec(model.calibration, g)[k]) + w * rec.rng.randint(-8, 8) / 8})


def named(rng, A):
    lines = A["yaml"].split("\n")
    A["name"] = rng.choice(["generated", "My model", "éco 1", ""])
    if A["name"]:
        lines[0] = "name: " + A["name"]
    else:
        lines = lines[1:]
        A.pop("name")
    A["yaml"] = "\n".join(lines)


def random_model(name, sizes, exo):
    def run(rec):
        rng, npr = rec.rng, rec.nprng
        for _ in range(8 if thorough else 3):
            A = gen_solvable(rng, sizes, rng.choice(["none", "some"]), exo_lines(rng, sizes[0], exo))
            named(rng, A)
            model = load(rec, name, A)
            if model is None:
                return
            report(rec, model, None, ["calibration", exo])
            shown(rec, model, A)
            ss = find(rec, model, A, ["from the calibration", exo], False)
            if ss is not None:
                model.set_calibration(**{n: float(ss[n]) for g in ("states", "controls") for n in A["symbols"][g]})
                shown(rec, model, A)
                report(rec, model, ss, ["at the steady state", exo])
            for k in range(3):
                shake(rec, model, A, ["states", "controls"], 0.5)
                report(rec, model, None, ["other calibration", exo])
                find(rec, model, A, ["from elsewhere", exo], False)
            shake(rec, model, A, ["parameters"], 0.25)
            find(rec, model, A, ["other parameters", exo], False)
            m = npr.integers(-8, 9, sizes[0]) / 32
            find(rec, model, A, ["other shocks", exo], False, m=rng.choice([m, list(m), tuple(m)]))
            shake(rec, model, A, ["exogenous"], 0.125)
            report(rec, model, None, ["calibrated shocks", exo])
            find(rec, model, A, ["calibrated shocks", exo], False)
            for k in range(3):
                c = dict(exogenous=npr.integers(-8, 9, sizes[0]) / 8, states=npr.integers(-8, 9, sizes[1]) / 4, controls=npr.integers(-8, 9, sizes[2]) / 4,
                         parameters=vec(model.calibration, "parameters") + 0.5)
                report(rec, model, c, ["given point", exo])
    return run


def linear_model(name, ns, nx, kind):
    def run(rec):
        rng = rec.rng
        for _ in range(5 if thorough else 3):
            if kind == "unit":      # a root equal to one: none or many
                rs, ru = pick(rng, ns - 1, IN, False) + [(F(1), "real")], pick(rng, nx, OUT)
            else:
                rs, ru = pick(rng, ns, IN), pick(rng, nx, OUT)
            A, _ = linear(rng, rs, ru)
            named(rng, A)
            model = load(rec, name, A)
            if model is None:
                return
            find(rec, model, A, ["at the steady state", kind], True)
            for k in range(3):
                shake(rec, model, A, ["states", "controls"], 2)
                report(rec, model, None, ["elsewhere", kind])
                shown(rec, model, A)
                find(rec, model, A, ["from elsewhere", kind], True)
            find(rec, model, A, ["other shocks", kind], True, m=np.array([rng.randint(-8, 8) / 8]))
            shake(rec, model, A, ["exogenous"])
            find(rec, model, A, ["calibrated shocks", kind], True)
    return run


MODEL2 = """name: two
symbols:
    exogenous: [z]
    states: [s]
    controls: [x]
    parameters: [a, b, c, d, e, f]
equations:
    arbitrage: |
        d*s[t] + e*x[t] + f
    transition: |
        s[t] = s[t-1] + a*s[t-1] + b*x[t-1] + c + z[t]
calibration:
    s: 0.25
    x: 0.75
    z: 0
    a: 0
    b: 0
    c: 0
    d: 0
    e: 0
    f: 0
exogenous: !UNormal
    σ: 0.1
domain:
    s: [-1, 1]
options:
    grid: !Cartesian
        n: [4]
"""


def models2(rec, k, n):
    B = json.load(open(os.path.join(os.environ["VERIF_BEH"], "models.json")))
    fn = "two_%d.yaml" % k
    open(fn, "w").write(MODEL2)
    model = yaml_import(fn, check=False)
    B = B[k::n]
    if not thorough:
        B = rec.rng.sample(B, min(len(B), 60))
    for b in B:
        model.set_calibration(**{c: float(F(b[c])) for c in "abcdef"})
        o, r = rec.call(lambda: find_steady_state(model))
        d = dict(outcome=o, b=b)
        if o == "ok":
            v = residuals(model, r)
            d.update(z=qa(np.concatenate([vec(r, "states"), vec(r, "controls")])), r=qa(np.concatenate([v["transition"], v["arbitrage"]])))
        rec.event("Model2", **d)


SC = []
for r in range(4 if thorough else 1):
    for j, (z, e) in enumerate([((1, 1, 1), "normal"), ((1, 2, 1), "normal"), ((2, 1, 2), "chain"), ((2, 2, 2), "var1"), ((1, 1, 2), "ar1"), ((1, 2, 2), "unormal"), ((3, 1, 1), "normal"), ((1, 3, 2), "unormal"),
                                ((2, 1, 1), "normal"), ((1, 1, 3), "chain"), ((1, 2, 3), "normal"), ((2, 3, 1), "normal")]):
        n = "model/%d.%d" % (j, r)
        SC.append((n, random_model(n, z, e)))
    for j, (ns, nx, k) in enumerate([(1, 1, "roots"), (2, 1, "roots"), (2, 2, "roots"), (1, 2, "roots"), (3, 1, "roots"), (1, 1, "unit"), (2, 1, "unit"), (1, 2, "unit")]):
        n = "linear/%s/%d.%d" % (k, j, r)
        SC.append((n, linear_model(n, ns, nx, k)))
for j in range(8):
    SC.append(("models/%d" % j, lambda rec, j=j: models2(rec, j, 8)))
sys.exit(run_scenarios(SC))
