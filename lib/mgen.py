"""Random model files: an abstract syntax tree (given to the specification)
and the YAML text (given to the real importer)."""
import random
from fractions import Fraction

GROUPS = ["exogenous", "states", "controls", "poststates", "values", "rewards", "expectations", "parameters"]
NAMES = ["k", "k1", "kk", "z", "zz", "a", "b", "c", "w", "x", "x1", "y", "n", "h", "q1", "r", "u", "g", "Kap", "Z",
         "delta", "rho", "bet", "sig", "alp", "mu", "eta", "lam", "th", "phi", "om", "ka", "exo", "logk", "p1", "p_2",
         "s", "m", "S", "X", "M", "p", "v", "out", "aux", "t1", "tt"]
POOL = [n for n in NAMES if n not in ("s", "m", "S", "X", "M", "p", "v", "out", "x")]

SPECS = {
    "arbitrage": [("exogenous", 0), ("states", 0), ("controls", 0), ("exogenous", 1), ("states", 1), ("controls", 1)],
    "transition": [("exogenous", -1), ("states", -1), ("controls", -1), ("exogenous", 0)],
    "value": [("exogenous", 0), ("states", 0), ("controls", 0), ("exogenous", 1), ("states", 1), ("controls", 1), ("values", 1)],
    "felicity": [("exogenous", 0), ("states", 0), ("controls", 0)],
    "expectation": [("exogenous", 1), ("states", 1), ("controls", 1)],
    "direct_response": [("exogenous", 0), ("states", 0), ("expectations", 0)],
    "half_transition": [("exogenous", -1), ("poststates", -1), ("exogenous", 0)],
    "direct_response_egm": [("exogenous", 0), ("poststates", 0), ("expectations", 0)],
    "reverse_state": [("exogenous", 0), ("poststates", 0), ("controls", 0)],
    "arbitrage_lb": [("exogenous", 0), ("states", 0)],
}
SPECS["arbitrage_ub"] = SPECS["arbitrage_lb"]
TARGET = {"transition": "states", "value": "values", "felicity": "rewards", "expectation": "expectations",
          "direct_response": "controls", "half_transition": "states", "direct_response_egm": "controls",
          "reverse_state": "states"}


def num(x):
    return ["num", str(Fraction(x))]


def var(n, t=0):
    return ["var", n, t]


def par(n):
    return ["par", n]


def dec(fr):
    fr = Fraction(fr)
    assert fr >= 0
    if fr.denominator == 1:
        return str(fr.numerator)
    return repr(float(fr))


def show(e, rng=None, bare_ok=True):
    """YAML text of an expression; every compound operand is parenthesized"""
    o = e[0]
    if o == "num":
        f = Fraction(e[1])
        return dec(f) if f >= 0 else "(-" + dec(-f) + ")"
    if o == "par":
        return e[1]
    if o == "var":
        t = e[2]
        style = rng.random() if rng else 0.0
        if t == 0:
            if bare_ok and style > 0.8:
                return e[1]
            return e[1] + "[t]"
        if style > 0.75:
            return "%s(%d)" % (e[1], t)
        return "%s[t%+d]" % (e[1], t)
    if o == "neg":
        return "(-(" + show(e[1], rng, bare_ok) + "))"
    if o in ("exp", "log"):
        return "%s(%s)" % (o, show(e[1], rng, bare_ok))
    op = {"add": "+", "sub": "-", "mul": "*", "div": "/", "pow": "^"}[o]
    sp = " " if (rng and rng.random() < 0.5) else ""
    return "(" + show(e[1], rng, bare_ok) + sp + op + sp + show(e[2], rng, bare_ok) + ")"


def top(e, rng=None, bare_ok=True):
    s = show(e, rng, bare_ok)
    if e[0] in ("add", "sub", "mul", "div") and s[0] == "(" and s[-1] == ")":
        return s[1:-1]
    return s


def atoms(e, out=None):
    out = set() if out is None else out
    if e[0] in ("var", "par"):
        out.add(e[1])
    elif e[0] != "num":
        for s in e[1:]:
            atoms(s, out)
    return out


def rand_expr(rng, leaves, depth):
    """leaves: list of leaf nodes"""
    if depth == 0 or rng.random() < 0.12:
        if rng.random() < 0.2 or not leaves:
            return num(Fraction(rng.randint(1, 24), rng.choice([1, 2, 4, 8])))
        return rng.choice(leaves)
    r = rng.random()
    sub = lambda: rand_expr(rng, leaves, depth - 1)
    if r < 0.28:
        return ["add", sub(), sub()]
    if r < 0.52:
        return ["sub", sub(), sub()]
    if r < 0.75:
        return ["mul", sub(), sub()]
    if r < 0.83:
        d = sub()
        return ["div", sub(), ["add", num(rng.randint(1, 3)), ["mul", d, d]]]
    if r < 0.88:
        return ["pow", sub(), num(rng.choice([2, 3]))]
    if r < 0.93:
        return ["neg", sub()]
    if r < 0.97:
        d = sub()
        return ["log", ["add", num(1), ["mul", d, d]]]
    d = rng.choice(leaves) if leaves else num(1)
    return ["exp", ["div", d, num(4)]]


def tamed(rng, e, n, sym):
    """a transition whose paths stay bounded when the controls do, and depend on every argument"""
    w = lambda: num(Fraction(rng.choice([-3, -2, -1, 1, 2, 3]), 8))
    r = ["add", ["mul", num(Fraction(rng.randint(1, 3), 4)), var(n, -1)], ["div", e, ["add", num(1), ["mul", e, e]]]]
    for t in (-1, 0):
        r = ["add", r, ["mul", w(), var(rng.choice(sym["exogenous"]), t)]]
    return ["add", r, ["mul", w(), ["div", var(rng.choice(sym["controls"]), -1), num(4)]]]


def gen(rng, blocks=None, style=None, sizes=None, tame=False, exo=None):
    """a random model: dict(symbols, defs, blocks, bounds, yaml)"""
    names = POOL[:]
    rng.shuffle(names)
    take = lambda n: [names.pop() for _ in range(n)]
    sym = {g: [] for g in GROUPS}
    sizes = sizes or {}
    sym["exogenous"] = take(sizes.get("exogenous") or rng.randint(1, 2))
    sym["states"] = take(sizes.get("states") or rng.randint(1, 3))
    sym["controls"] = take(sizes.get("controls") or rng.randint(1, 3))
    sym["parameters"] = take(rng.randint(2, 4))
    if blocks is None:
        blocks = ["arbitrage", "transition"]
        opt = ["value", "felicity", "expectation", "direct_response", "half_transition", "direct_response_egm",
               "reverse_state"]
        blocks += [b for b in opt if rng.random() < 0.35]
    if "value" in blocks:
        sym["values"] = take(rng.randint(1, 2))
    if "felicity" in blocks:
        sym["rewards"] = take(1)
    if set(blocks) & {"expectation", "direct_response", "direct_response_egm"}:
        sym["expectations"] = take(rng.randint(1, 2))
    if set(blocks) & {"half_transition", "direct_response_egm", "reverse_state"}:
        sym["poststates"] = take(rng.randint(1, 2))
    style = style or rng.choice(["new", "new", "old"])
    P = [par(p) for p in sym["parameters"]]

    # definitions: functions of exogenous, states, controls and earlier definitions at t
    defs = []
    nd = rng.randint(0, 3)
    base = [var(v) for g in ("exogenous", "states", "controls") for v in sym[g]]
    for n in take(nd):
        prev = [var(d["name"]) for d in defs]
        e = rand_expr(rng, base + P + prev + prev, 2)
        defs.append(dict(name=n, expr=e))
    dnames = [d["name"] for d in defs]
    text_defs = defs[:]
    if style == "old":
        rng.shuffle(text_defs)      # a mapping may be written in any order
    defs = text_defs                # outputs are listed in written order

    def leaves(b):
        sp = SPECS[b]
        lv = [var(v, t) for g, t in sp for v in sym[g]]
        dates_s = {t for g, t in sp if g == "states"} & {t for g, t in sp if g == "controls"}
        dv = [var(d, t) for t in dates_s for d in dnames]
        return lv + dv * 2 + P

    B, lines = {}, {}
    bounds = []
    withb = rng.random() < 0.6
    for b in blocks:
        eqs = []
        if b == "arbitrage":
            for i, c in enumerate(sym["controls"]):
                rhs = rand_expr(rng, leaves(b), 3)
                # bias: the block must use both dates
                rhs = ["add", rhs, ["mul", rng.choice([l for l in leaves(b) if l[0] == "var"]),
                                    rng.choice([l for l in leaves(b) if l[0] == "var"])]]
                q = dict(rhs=rhs)
                if style == "old" and rng.random() < 0.6:
                    q["lhs"] = rand_expr(rng, leaves(b), 2)
                if withb:
                    # (old style: a bounded equation is a plain formula)
                    if "lhs" in q or rng.random() < 0.3:
                        bounds.append(dict(lb=["num", "-inf"], ub=["num", "inf"]))
                    else:
                        lb = rand_expr(rng, leaves("arbitrage_lb"), 1)
                        ub = rand_expr(rng, leaves("arbitrage_lb"), 1)
                        r = rng.random()
                        if r < 0.15:
                            lb = ["num", "-inf"]
                        elif r < 0.3:
                            ub = ["num", "inf"]
                        bounds.append(dict(lb=lb, ub=ub, written=True))
                eqs.append(q)
            if withb and not any("written" in z for z in bounds):
                bounds = []
        else:
            tg = sym[TARGET[b]] if b in TARGET else []
            for k, n in enumerate(tg):
                # recursive blocks: the symbols defined above may be used
                prev = [var(z) for z in tg[:k]] if b in ("direct_response", "direct_response_egm", "reverse_state") else []
                rhs = rand_expr(rng, leaves(b) + prev * 3, 3)
                if tame and b == "transition":
                    rhs = tamed(rng, rhs, n, sym)
                eqs.append(dict(rhs=rhs))
        B[b] = eqs

    def sb(e):
        return {"-inf": "-inf", "inf": "inf"}.get(e[1] if e[0] == "num" else None) or top(e, rng)

    Y = ["name: generated", "", "symbols:"]
    for g in GROUPS:
        if sym[g]:
            Y.append("    %s: [%s]" % (g, ", ".join(sym[g])))
    Y.append("")
    if defs:
        if style == "new":
            Y.append("definitions: |")
            for d in defs:
                Y.append("    %s[t] = %s" % (d["name"], top(d["expr"], rng, bare_ok=False)))
        else:
            Y.append("definitions:")
            for d in defs:
                Y.append("    %s: %s" % (d["name"] + rng.choice(["[t]", "[t]", ""]), top(d["expr"], rng)))
        Y.append("")
    Y.append("equations:")
    order = blocks[:]
    rng.shuffle(order)
    for b in order:
        new = style == "new"
        Y.append("    %s:%s" % (b, " |" if new else ""))
        pre = "        " if new else "        - "
        for i, qn in enumerate(B[b]):
            if b == "arbitrage":
                s = top(qn["rhs"], rng)
                if "lhs" in qn:
                    s = top(qn["lhs"], rng) + " = " + s
                if bounds and "written" in bounds[i]:
                    s += "   %s %s <= %s[t] <= %s" % (rng.choice(["⟂", "|"]), sb(bounds[i]["lb"]), sym["controls"][i],
                                                       sb(bounds[i]["ub"]))
            else:
                t = 0
                s = "%s[t] = %s" % (sym[TARGET[b]][i], top(qn["rhs"], rng))
                if b == "expectation":
                    s = "%s[t] = %s" % (sym[TARGET[b]][i], top(qn["rhs"], rng))
            Y.append(pre + s)
    Y.append("")
    Y.append("calibration:")
    cal = {}
    for g in GROUPS:
        for n in sym[g]:
            v = Fraction(rng.randint(2, 16), 8)
            cal[n] = str(v)
            Y.append("    %s: %s" % (n, dec(v)))
    Y.append("")
    d = len(sym["exogenous"])
    if exo:
        Y += exo
    else:
        Y.append("exogenous: !Normal")
        Y.append("    Σ: [%s]" % ", ".join("[" + ", ".join("0.01" if i == j else "0.0" for j in range(d)) + "]" for i in range(d)))
    Y.append("")
    Y.append("domain:")
    for n in sym["states"]:
        Y.append("    %s: [0.5, 2.0]" % n)
    Y.append("")
    Y.append("options:")
    Y.append("    grid: !Cartesian")
    Y.append("        n: [%s]" % ", ".join("5" for _ in sym["states"]))
    for z in bounds:
        z.pop("written", None)
    return dict(symbols=sym, defs=defs, blocks=B, bounds=bounds, yaml="\n".join(Y) + "\n", calibration=cal, style=style)
