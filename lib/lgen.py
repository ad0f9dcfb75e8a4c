"""Linear models with chosen roots, in exact arithmetic."""
from fractions import Fraction as F
from mgen import num, var, top, GROUPS, POOL
from sgen import add


def block(rng, roots):
    """matrix with given roots: a list of (modulus, kind) with kind real or pair"""
    n = sum(2 if k == "pair" else 1 for _, k in roots)
    A = [[F(0)] * n for _ in range(n)]
    i = 0
    for r, k in roots:
        if k == "pair":
            a, b = rng.choice([(F(3, 5), F(4, 5)), (F(0), F(1)), (F(4, 5), -F(3, 5)), (F(-3, 5), F(4, 5))])
            A[i][i] = A[i + 1][i + 1] = r * a
            A[i][i + 1], A[i + 1][i] = -r * b, r * b
            i += 2
        else:
            A[i][i] = r * rng.choice([1, 1, -1])
            i += 1
    for a in range(n):          # change of basis
        for b in range(n):
            if a != b and rng.random() < 0.5:
                k = F(rng.choice([1, -1, F(1, 2)]))
                A[a] = [u + k * v for u, v in zip(A[a], A[b])]          # row a += k row b
                for row in A:
                    row[b] -= k * row[a]
    return A


def mm(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(len(B))), F(0)) for j in range(len(B[0]))] for i in range(len(A))]


def linear(rng, rs, ru, var1=False):
    """s' = P s + G (x - C s),  x' - C s' = U (x - C s); roots of P: rs, of U: ru"""
    P, U = block(rng, rs), block(rng, ru)
    ns, nx = len(P), len(U)
    R = lambda a, b: [[F(rng.choice([-1, 0, 1, 1, 2]), rng.choice([1, 2])) for _ in range(b)] for _ in range(a)]
    C, G = R(nx, ns), R(ns, nx)
    GC = mm(G, C)
    gs = [[P[i][j] - GC[i][j] for j in range(ns)] for i in range(ns)]
    UC = mm(U, C)
    mix = block(rng, [(F(1), "real")] * nx)
    f = dict(fX=mix, fS=[[-z for z in r] for r in mm(mix, C)], fx=[[-z for z in r] for r in mm(mix, U)], fs=mm(mix, UC))
    names = POOL[:]
    rng.shuffle(names)
    take = lambda k: [names.pop() for _ in range(k)]
    sym = {g: [] for g in GROUPS}
    sym["exogenous"], sym["states"], sym["controls"], sym["parameters"] = take(1), take(ns), take(nx), take(1)
    sb = [F(rng.randint(-4, 4), 4) for _ in range(ns)]
    xb = [F(rng.randint(-4, 4), 4) for _ in range(nx)]
    e = sym["exogenous"][0]
    K = lambda c: num(c) if c >= 0 else ["neg", num(-c)]
    dev = lambda n, t, b: ["sub", var(n, t), K(b)]
    term = lambda c, n, t, b: ["mul", K(c), dev(n, t, b)]
    tr, ar = [], []
    for i in range(ns):
        T = [K(sb[i])] + [term(gs[i][j], sym["states"][j], -1, sb[j]) for j in range(ns) if gs[i][j]] + \
            [term(G[i][j], sym["controls"][j], -1, xb[j]) for j in range(nx) if G[i][j]] + [["mul", K(F(rng.randint(-2, 2), 2)), var(e, rng.choice([0, -1]))]]
        tr.append(dict(rhs=add(*T)))
    for i in range(nx):
        T = [term(f["fs"][i][j], sym["states"][j], 0, sb[j]) for j in range(ns)] + [term(f["fS"][i][j], sym["states"][j], 1, sb[j]) for j in range(ns)] + \
            [term(f["fx"][i][j], sym["controls"][j], 0, xb[j]) for j in range(nx)] + [term(f["fX"][i][j], sym["controls"][j], 1, xb[j]) for j in range(nx)] + \
            [["mul", K(F(rng.randint(-2, 2), 2)), var(e, rng.choice([0, 1]))]]
        ar.append(dict(rhs=add(*T)))
    Y = ["name: linear", "", "symbols:"] + ["    %s: [%s]" % (g, ", ".join(sym[g])) for g in GROUPS if sym[g]] + ["", "equations:", "    arbitrage: |"]
    Y += ["        " + top(z["rhs"], rng) for z in ar] + ["    transition: |"]
    Y += ["        %s[t] = %s" % (sym["states"][i], top(z["rhs"], rng)) for i, z in enumerate(tr)]
    Y += ["", "calibration:"] + ["    %s: %r" % (n, float(b)) for n, b in list(zip(sym["states"], sb)) + list(zip(sym["controls"], xb))] + ["    %s: 0" % e, "    %s: 1" % sym["parameters"][0]]
    ex = ["exogenous: !VAR1", "    ρ: 0.75", "    Σ: [[0.01]]"] if var1 else rng.choice([["exogenous: !UNormal", "    σ: 0.1"], ["exogenous: !Normal", "    Σ: [[0.01]]"]])
    Y += [""] + ex + ["domain:"] + ["    %s: [-2, 2]" % s for s in sym["states"]] + ["options:", "    grid: !Cartesian", "        n: [%s]" % ", ".join(["3"] * ns)]
    mods = [r for r, k in rs + ru for _ in range(2 if k == "pair" else 1)]
    return dict(symbols=sym, defs=[], blocks=dict(transition=tr, arbitrage=ar), bounds=[], yaml="\n".join(Y) + "\n"), mods


IN = [F(0), F(1, 4), F(1, 2), F(3, 4), F(9, 10)]
OUT = [F(5, 4), F(3, 2), F(2), F(11, 10), F(3)]


def pick(rng, n, pool, pairs=True):
    out = []
    while n:
        if n >= 2 and pairs and rng.random() < 0.5:
            out.append((rng.choice([p for p in pool if p]), "pair")); n -= 2
        else:
            out.append((rng.choice(pool), "real")); n -= 1
    return out
