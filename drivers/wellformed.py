"""M04: imports of well-formed and ill-formed model files."""
import os, json, copy
from fractions import Fraction
import numpy as np
from rec import run_scenarios, q, qa
from mgen import rand_expr, num, var, par, top, show, SPECS, TARGET, POOL, dec
from dolo import yaml_import

thorough = os.environ["VERIF_TIER"] == "thorough"
INDENT = "    "


def text_of(F, rng, new=True):
    Y = ["name: generated", "symbols:"]
    for g in F["groups"]:
        Y.append("    %s: [%s]" % (g["g"], ", ".join(g["names"])))
    date = lambda t: "[t]" if t == 0 else "[t%+d]" % t
    if F["defs"]:
        Y.append("definitions: |" if new else "definitions:")
        for d in F["defs"]:
            Y.append("    %s%s %s %s" % (d["name"], date(d["date"]), "=" if new else ":", top(d["expr"], rng, bare_ok=False)))
    Y.append("equations:")
    for b in F["eqs"]:
        Y.append("    %s:%s" % (b["block"], " |" if new else ""))
        for e in b["list"]:
            s = top(e["expr"], rng, bare_ok=False)
            if e["lhs"]:
                s = e["lhs"][0] + date(e["lhs"][1]) + " = " + s
            if e["comp"]:
                n, t, lb, ub = e["comp"]
                s += " %s %s <= %s%s <= %s" % (rng.choice("⟂|"), top(lb, rng, bare_ok=False), n, date(t), top(ub, rng, bare_ok=False))
            Y.append("        " + ("" if new else "- ") + s)
    Y.append("calibration:")
    for n, e in F["cal"].items():
        Y.append("    %s: %s" % (n, dec(e[1]) if e[0] == "num" and Fraction(e[1]) >= 0 else top(e, rng, bare_ok=False)))
    if F["domain"]:
        Y.append("domain:")
        for n in F["domain"]:
            Y.append("    %s: [0.5, 2.0]" % n)
    eye = lambda d: "[%s]" % ", ".join("[" + ", ".join("0.01" if i == j else "0.0" for j in range(d)) + "]" for i in range(d))
    if len(F["exo"]) == 1 and F["exo"][0].get("old"):
        Y += ["exogenous: !Normal", "    Σ: " + eye(F["exo"][0]["dim"])]
    elif F["exo"]:
        Y.append("exogenous:")
        for p in F["exo"]:
            Y += ["    %s: !Normal" % ", ".join(p["names"]), "        Σ: " + eye(p["dim"])]
    Y += ["options:", "    grid: !Cartesian", "        n: [%s]" % ", ".join("3" for g in F["groups"] if g["g"] == "states" for _ in g["names"])]
    return "\n".join(Y) + "\n"


def imp(rec, text, tag="m"):
    # a model is what its file says, wherever the file is
    d = rec.rng.choice(["", "", "", "models from http", "modèles", "."])
    fn = os.path.join(d, "%s_%d.%s" % (tag, os.getpid(), rec.rng.choice(["yaml", "yaml", "yml", "txt"])))
    if d:
        os.makedirs(d, exist_ok=True)
    if rec.rng.random() < 0.7:
        fn = os.path.abspath(fn)
    with open(fn, "w") as f:
        f.write(text)
    return rec.call(yaml_import, fn)


def base(rng):
    names = [n for n in POOL if n not in ("t1", "tt")]
    rng.shuffle(names)
    take = lambda n: [names.pop() for _ in range(n)]
    sym = dict(exogenous=take(rng.randint(1, 3)), states=take(rng.randint(1, 3)), controls=take(rng.randint(1, 3)))
    blocks = ["arbitrage", "transition"]
    blocks += [b for b in ("value", "felicity", "expectation", "direct_response", "half_transition", "direct_response_egm", "reverse_state") if rng.random() < 0.2]
    if "value" in blocks:
        sym["values"] = take(rng.randint(1, 2))
    if "felicity" in blocks:
        sym["rewards"] = take(1)
    if set(blocks) & {"expectation", "direct_response", "direct_response_egm"}:
        sym["expectations"] = take(rng.randint(1, 2))
    if set(blocks) & {"half_transition", "direct_response_egm", "reverse_state"}:
        sym["poststates"] = take(rng.randint(1, 2))
    sym["parameters"] = take(rng.randint(1, 3))
    P = [par(p) for p in sym["parameters"]]
    defs = []
    for n in take(rng.randint(0, 2)):
        lv = [var(v) for g in ("exogenous", "states", "controls") for v in sym[g]] + [var(d["name"]) for d in defs] + P
        defs.append(dict(name=n, date=0, expr=rand_expr(rng, lv, 2)))
    eqs = []
    bounded = rng.random() < 0.6
    for b in blocks:
        sp = SPECS[b]
        dates = {t for g, t in sp if g == "states"} & {t for g, t in sp if g == "controls"}
        lv = [var(v, t) for g, t in sp for v in sym[g]] + [var(d["name"], t) for t in dates for d in defs] + P
        tg = sym[TARGET.get(b, "controls")]
        lst = []
        for n in tg:
            e = dict(lhs=[n, 0] if b in TARGET else [], expr=rand_expr(rng, lv, 2), comp=[])
            if b == "arbitrage" and bounded and rng.random() < 0.6:
                lb = [var(v) for g in ("exogenous", "states") for v in sym[g]] + P
                e["comp"] = [n, 0, rand_expr(rng, lb, 1), rand_expr(rng, lb, 1)]
            lst.append(e)
        eqs.append(dict(block=b, list=lst))
    rng.shuffle(eqs)
    order = list(sym)
    rng.shuffle(order)
    groups = [dict(g=g, names=sym[g]) for g in order]
    cal = {}
    known = []
    for n in rng.sample([n for g in order for n in sym[g]], sum(map(len, sym.values()))):
        if rng.random() < 0.9:
            cal[n] = num(Fraction(rng.randint(1, 16), 8)) if not known or rng.random() < 0.7 else ["add", par(rng.choice(known)), num("1/2")]
            known.append(n)
    ex = sym["exogenous"]
    style = rng.choice(["old", "names", "split"])
    exo = [dict(names=list(ex), dim=len(ex), old=style == "old")] if style != "split" else [dict(names=[n], dim=1, old=False) for n in ex]
    dom = list(sym["states"]) if rng.random() < 0.9 else []
    rng.shuffle(dom)
    return dict(groups=groups, defs=defs, eqs=eqs, domain=dom, exo=exo, cal=cal)


def leaf_spots(e, path=()):
    if e[0] in ("var", "par"):
        yield path
    elif e[0] != "num":
        for i in range(1, len(e)):
            yield from leaf_spots(e[i], path + (i,))


def put(e, path, new):
    if not path:
        return new
    e = list(e)
    e[path[0]] = put(e[path[0]], path[1:], new)
    return e


def mutate(F, rng):
    """one change, which may or may not break a rule"""
    G = {g["g"]: g["names"] for g in F["groups"]}
    names = [n for g in F["groups"] for n in g["names"]]
    vs = [n for g in F["groups"] if g["g"] != "parameters" for n in g["names"]]
    fresh = rng.choice(["nope", "qq1", "zzz"])
    eq = rng.choice(F["eqs"])
    e = rng.choice(eq["list"])
    asg = [b for b in F["eqs"] if b["block"] in TARGET]
    arb = [b for b in F["eqs"] if b["block"] == "arbitrage"][0]
    how = rng.choice(["leaf", "leaf", "leaf", "leaf", "bound", "bound", "twice", "comp", "comp-date", "comp-other", "lhs", "lhs", "swap", "swap", "drop", "add", "def-name", "def-date", "def-leaf",
                      "def-order", "domain", "domain-more", "exo-order", "exo-dim", "exo-name", "cal-cycle", "cal-name", "cal-more", "cal-less", "block-name", "no-block", "no-group",
                      "unused", "reorder-group", "def-used-elsewhere", "param-as-var"])
    anyleaf = lambda: rng.choice([var(rng.choice(vs + [d["name"] for d in F["defs"]]), rng.choice([0, 0, 1, -1, 2, -2])), var(fresh, rng.choice([0, 1, -1])), par(rng.choice(G["parameters"] + [fresh]))])
    def change(x):
        s = list(leaf_spots(x))
        return put(x, rng.choice(s), anyleaf()) if s else ["add", x, anyleaf()]
    if how == "leaf":
        e["expr"] = change(e["expr"])
    elif how == "bound":
        k = rng.randrange(len(arb["list"]))
        c = arb["list"][k]["comp"] or [G["controls"][k], 0, num(0), num(1)]
        c[rng.choice([2, 3])] = anyleaf()
        arb["list"][k]["comp"] = c
    elif how == "twice":
        g = rng.choice(F["groups"])["names"]
        g.insert(rng.randrange(len(g) + 1), rng.choice(names))
    elif how.startswith("comp"):
        k = rng.randrange(len(arb["list"]))
        c = arb["list"][k]["comp"] or [G["controls"][k], 0, num(0), num(1)]
        if how == "comp":
            c[0] = rng.choice(vs)
        elif how == "comp-date":
            c[1] = rng.choice([1, -1])
        else:
            c[0] = rng.choice(G["controls"])
        arb["list"][k]["comp"] = c
    elif how == "lhs":
        x = rng.choice(rng.choice(asg)["list"])
        x["lhs"] = rng.choice([[rng.choice(vs + [fresh]), 0], [x["lhs"][0], rng.choice([1, -1])]])
    elif how == "swap":
        l = rng.choice(F["eqs"])["list"]
        i, j = rng.randrange(len(l)), rng.randrange(len(l))
        l[i], l[j] = l[j], l[i]
    elif how == "drop":
        l = rng.choice([b for b in F["eqs"] if len(b["list"]) > 1] or F["eqs"])["list"]
        if len(l) > 1:
            l.pop(rng.randrange(len(l)))
    elif how == "add":
        l = eq["list"]
        l.insert(rng.randrange(len(l) + 1), dict(copy.deepcopy(rng.choice(l)), comp=[]))
    elif how.startswith("def") and F["defs"]:
        d = rng.choice(F["defs"])
        if how == "def-name":
            d["name"] = rng.choice(names + [x["name"] for x in F["defs"]])
        elif how == "def-date":
            d["date"] = rng.choice([1, -1])
        elif how == "def-leaf":
            d["expr"] = change(d["expr"])
        elif how == "def-order":
            F["defs"].reverse()
        else:
            e["expr"] = ["add", e["expr"], var(d["name"], rng.choice([0, 1, -1]))]
    elif how == "domain":
        F["domain"] = [n for n in F["domain"] if rng.random() < 0.5]
    elif how == "domain-more":
        F["domain"] = F["domain"] + [rng.choice(vs)] if rng.random() < 0.5 else F["domain"] + [fresh]
        F["domain"] = list(dict.fromkeys(F["domain"]))
    elif how == "exo-order":
        rng.shuffle(F["exo"][0]["names"] if len(F["exo"]) == 1 and not F["exo"][0].get("old") else F["exo"])
    elif how == "exo-dim":
        p = rng.choice(F["exo"])
        p["dim"] += 1
    elif how == "exo-name":
        p = rng.choice(F["exo"])
        if not p.get("old"):
            p["names"][rng.randrange(len(p["names"]))] = rng.choice(names + [fresh])
            if len(set(n for z in F["exo"] for n in z["names"])) < sum(len(z["names"]) for z in F["exo"]) and len(F["exo"]) > 1:
                p["names"] = [fresh]
    elif how == "cal-cycle" and F["cal"]:
        ks = list(F["cal"])
        a, b = rng.choice(ks), rng.choice(ks)
        F["cal"][a] = ["add", par(b), num(1)]
        F["cal"][b] = ["mul", num(2), par(a)]
    elif how == "cal-name" and F["cal"]:
        F["cal"][rng.choice(list(F["cal"]))] = ["add", par(rng.choice(names + [fresh])), num(1)]
    elif how == "cal-more":
        F["cal"][fresh] = num(rng.randint(0, 3))
    elif how == "cal-less" and F["cal"]:
        F["cal"].pop(rng.choice(list(F["cal"])))
    elif how == "block-name":
        eq["block"] = rng.choice([eq["block"] + "s", "transitions", "utility"])
    elif how == "no-block" and len(F["eqs"]) > 1:
        F["eqs"].remove(eq)
    elif how == "no-group":
        F["groups"].remove(rng.choice(F["groups"]))
    elif how == "unused":
        G["parameters"].append(fresh)
    elif how == "reorder-group":
        rng.shuffle(rng.choice(F["groups"])["names"])
    elif how == "param-as-var":
        e["expr"] = ["add", e["expr"], var(rng.choice(G["parameters"]), rng.choice([0, 0, 1]))]
    return how


WITNESS = """name: witness
symbols:
    exogenous: [e1]
    states: [k]
    controls: [c]
    parameters: [p]
definitions: |
    y[t] = k[t]*c[t]
equations:
    arbitrage: |
        c[t] - p*k[t+1] + y[t] ⟂ 0 <= c[t] <= k[t]
    transition: |
        k[t] = p*k[t-1] + e1[t] + c[t-1]
calibration:
    k: 1
    c: k/2
    p: 0.5
domain:
    k: [0, p*4]
exogenous: !Normal
    Σ: [[0.01]]
options:
    grid: !Cartesian
        n: [3]
"""


def witness(rec):
    o, m = imp(rec, WITNESS, "w")
    look = []
    if o == "ok":
        a = [np.array([0.25]), np.array([1.5]), np.array([0.75]), np.array([0.5]), np.array([2.5]), np.array([1.25]), np.array([0.375])]
        look = [qa(m.calibration["states"]), qa(m.calibration["controls"]), qa(np.array(m.domain.min)), qa(np.array(m.domain.max)), qa(m.functions["arbitrage"](*a)),
                qa(m.functions["transition"](*[a[i] for i in (0, 1, 2, 3, 6)])), qa(m.functions["arbitrage_ub"](a[0], a[1], a[6])), qa(m.exogenous.Σ), sorted(m.functions.keys())]
    rec.event("Witness", outcome=o, look=look)


def one(k):
    def f(rec):
        rng = rec.rng
        with_w = k % 4 == 0
        if with_w:
            witness(rec)
        for j in range(7):
            F = base(rng)
            how = "none"
            if j:
                how = mutate(F, rng)
            for p in F["exo"]:
                if p.get("old"):          # no names are written
                    p["names"] = [n for g in F["groups"] if g["g"] == "exogenous" for n in g["names"]]
            new = rng.random() < 0.85 or any(e["comp"] for b in F["eqs"] for e in b["list"]) or how in ("def-date", "def-order", "def-leaf")
            o, m = imp(rec, text_of(F, rng, new))
            rec.event("Import", file=F, outcome=o, how=how + ("" if new else "/old"))
        if with_w:
            witness(rec)
    return f


def replay(k, n):
    def f(rec):
        B = json.load(open(os.path.join(os.environ["VERIF_BEH"], "files.json")))
        if not thorough:
            import random
            random.Random(os.environ["VERIF_SEED"]).shuffle(B)
            B = [b for b in B if b["accepted"]][:60] + [b for b in B if not b["accepted"]][:240]
        for b in B[k::n]:
            o, m = imp(rec, text_of(b["file"], rec.rng))
            rec.event("Replay", outcome=o, accepted=b["accepted"], what=b["what"])
    return f


S = []
for k in range(150 if thorough else 24):
    S.append(("import/%d" % k, one(k)))
for k in range(16):
    S.append(("files/%d" % k, replay(k, 16)))
if __name__ == "__main__":
    run_scenarios(S)
