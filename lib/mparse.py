"""Independent reader of model files: YAML text -> the abstract model the
specification interprets (does not use dolo or dolang)."""
import re
import yaml
from fractions import Fraction

TOK = re.compile(r"\s*(?:(\d+\.\d*(?:[eE][+-]?\d+)?|\.\d+|\d+(?:[eE][+-]?\d+)?)|([^\W\d]\w*)|(\*\*|<=|==|⟂|[-+*/^()\[\]=|,]))")


class ParseError(Exception):
    pass


def tokens(s):
    i, out = 0, []
    s = s.rstrip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise ParseError(s[i:])
        if m.group(1):
            out.append(("num", m.group(1)))
        elif m.group(2):
            out.append(("id", m.group(2)))
        else:
            out.append(("op", m.group(3)))
        i = m.end()
    return out


class P:
    def __init__(self, s, variables):
        self.t, self.i, self.v = tokens(s), 0, variables

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)

    def eat(self, o=None):
        t = self.peek()
        if o is not None and t != ("op", o):
            raise ParseError("expected %s at %s" % (o, self.t[self.i:]))
        self.i += 1
        return t

    def isop(self, *o):
        return self.peek()[0] == "op" and self.peek()[1] in o

    def sum(self):
        e = self.product()
        while self.isop("+", "-"):
            o = self.eat()[1]
            e = ["add" if o == "+" else "sub", e, self.product()]
        return e

    def product(self):
        e = self.unary()
        while self.isop("*", "/"):
            o = self.eat()[1]
            e = ["mul" if o == "*" else "div", e, self.unary()]
        return e

    def unary(self):
        if self.isop("-"):
            self.eat()
            return ["neg", self.unary()]
        if self.isop("+"):
            self.eat()
            return self.unary()
        return self.power()

    def power(self):
        e = self.atom()
        if self.isop("^", "**"):
            self.eat()
            return ["pow", e, self.unary()]
        return e

    def atom(self):
        k, v = self.peek()
        if k == "num":
            self.eat()
            return ["num", str(Fraction(v))]
        if self.isop("("):
            self.eat()
            e = self.sum()
            self.eat(")")
            return e
        if k == "id":
            self.eat()
            if v in ("exp", "log", "sin", "cos") and self.isop("("):
                self.eat()
                e = self.sum()
                self.eat(")")
                if v in ("sin", "cos"):
                    raise ParseError("sin/cos")
                return [v, e]
            if v == "inf":
                return ["num", "inf"]
            if self.isop("["):
                self.eat()
                if self.eat() != ("id", "t"):
                    raise ParseError("date")
                t = 0
                if self.isop("+", "-"):
                    sg = -1 if self.eat()[1] == "-" else 1
                    t = sg * int(self.eat()[1])
                self.eat("]")
                return ["var", v, t]
            if self.isop("(") and (v in self.v):
                self.eat()
                sg = 1
                if self.isop("+", "-"):
                    sg = -1 if self.eat()[1] == "-" else 1
                t = sg * int(self.eat()[1])
                self.eat(")")
                return ["var", v, t]
            return ["var", v, 0] if v in self.v else ["par", v]
        raise ParseError(str(self.t[self.i:]))

    def end(self):
        if self.i != len(self.t):
            raise ParseError(str(self.t[self.i:]))


def expr(s, variables):
    p = P(s, variables)
    e = p.sum()
    p.end()
    if e == ["neg", ["num", "inf"]]:
        e = ["num", "-inf"]
    return e


def node(n):
    if isinstance(n, yaml.ScalarNode):
        return n.value
    if isinstance(n, yaml.SequenceNode):
        return [node(x) for x in n.value]
    return {k.value: node(v) for k, v in n.value}


def read_model(fn):
    with open(fn, encoding="utf-8") as f:
        n = yaml.compose(f.read())
    top = {k.value: v for k, v in n.value}
    d = {k: node(top[k]) for k in ("symbols", "definitions", "equations", "calibration", "domain") if k in top}
    sym = {g: [] for g in ("exogenous", "states", "controls", "poststates", "values", "rewards", "expectations", "parameters")}
    sym.update({("controls" if k == "actions" else k): v for k, v in d["symbols"].items()})
    variables = [v for g, vs in sym.items() if g != "parameters" for v in vs]
    defs = []
    D = d.get("definitions", {})
    if isinstance(D, str):
        items = [ln.split("=", 1) for ln in D.splitlines() if ln.strip()]
    else:
        items = list(D.items())
    dn = [re.match(r"\s*(\w+)", k).group(1) for k, _ in items]
    variables = variables + dn
    for name, (k, v) in zip(dn, items):
        defs.append(dict(name=name, expr=expr(v, variables)))
    blocks, bounds = {}, []
    for b, eqs in d["equations"].items():
        if isinstance(eqs, str):
            eqs = [x for x in eqs.splitlines() if x.strip()]
        L, withb, bb = [], False, []
        for e in eqs:
            comp = None
            m = re.split("[⟂|]", e)
            if len(m) == 2:
                e, comp = m
            sides = e.split("=") if "==" not in e else e.split("==")
            qd = dict(rhs=expr(sides[-1], variables))
            if len(sides) == 2 and b in ("arbitrage", "arbitrage_exp"):
                qd["lhs"] = expr(sides[0], variables)
            L.append(qd)
            if comp is not None:
                lo, _, hi = comp.split("<=")
                bb.append(dict(lb=expr(lo, variables), ub=expr(hi, variables)))
                withb = True
            else:
                bb.append(dict(lb=["num", "-inf"], ub=["num", "inf"]))
        blocks[b] = L
        if b == "arbitrage" and withb:
            bounds = bb
    return dict(symbols=sym, defs=defs, blocks=blocks, bounds=bounds, calibration=d.get("calibration", {}), domain=d.get("domain", {}))


def readable(fn):
    try:
        read_model(fn)
        return True
    except Exception:
        return False
