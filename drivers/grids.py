import sys, os
import numpy as np
from fractions import Fraction
from rec import run_scenarios, q, qa
from mgen import gen
from dolo.numeric.grids import (UniformCartesianGrid, NonUniformCartesianGrid, UnstructuredGrid, SmolyakGrid, EmptyGrid,
                                ProductGrid, cat_grids, nodes as f_nodes, node as f_node, n_nodes as f_n_nodes)
from dolo.numeric.misc import cartesian, mlinspace
from dolo.compiler.objects import CartesianDomain
from dolo import yaml_import

thorough = os.environ["VERIF_TIER"] == "thorough"


def common(g, alt=False):
    if alt:
        n, N = f_n_nodes(g), f_nodes(g)
        return dict(n_nodes=int(n), nodes=qa(N), node=[qa(f_node(g, i)) for i in range(n)])
    return dict(n_nodes=int(g.n_nodes), nodes=qa(g.nodes), node=[qa(g.node(i)) for i in range(g.n_nodes)])


def uniform(rec, f, mn, mx, n, alt=False):
    def obs():
        g = f()
        return dict(common(g, alt), amin=qa(np.array(g.min)), amax=qa(np.array(g.max)), an=[int(i) for i in g.n], d=int(g.d))
    o, r = rec.call(obs)
    rec.event("Uniform", outcome=o, min=qa(list(mn)), max=qa(list(mx)), n=[int(i) for i in n], **(r or {}))


def nonuniform(rec, f, lists):
    def obs():
        g = f()
        return dict(common(g), amin=qa(np.array(g.min)), amax=qa(np.array(g.max)), an=[int(i) for i in g.n], d=int(g.d))
    o, r = rec.call(obs)
    rec.event("NonUniform", outcome=o, lists=[qa(list(l)) for l in lists], **(r or {}))


def bounds(rng, d):
    mn = [rng.choice([rng.randint(-20, 20) / 8, round(rng.uniform(-3, 3), 3)]) for _ in range(d)]
    mx = [a + rng.choice([rng.randint(1, 40) / 8, round(rng.uniform(0.1, 3), 3)]) for a in mn]
    return mn, mx


def lst(rng):
    l = [rng.randint(-40, 40) / 8 for _ in range(rng.randint(1, 4))]
    r = rng.random()
    if r < 0.4:
        l = sorted(set(l))
    elif r < 0.6:
        l = sorted({int(x) for x in l})
    return l


def scenario(i):
    def run(rec):
        rng = rec.rng
        for k in range(6 if not thorough else 20):
            d = rng.randint(1, 4)
            n = [rng.choice([1, 2, 2, 3, 4, 5, 7]) for _ in range(d)]
            while np.prod(n) > 150:
                n[rng.randrange(d)] = 1
            mn, mx = bounds(rng, d)
            uniform(rec, lambda: UniformCartesianGrid(mn, mx, n), mn, mx, n, alt=rng.random() < 0.3)
            # bounds and sizes which do not match
            bad = [list(mn), list(mx), list(n)]
            for _ in range(rng.randint(1, 2)):
                w = rng.randrange(3)
                if rng.random() < 0.5 and len(bad[w]) > 1:
                    bad[w].pop()
                else:
                    bad[w].append(rng.choice(bad[w]))
            if len({len(b) for b in bad}) > 1:
                o, r = rec.call(lambda: common(UniformCartesianGrid(*bad)))
                rec.event("Mismatched", outcome=o, sizes=[len(b) for b in bad])
            # default number of points
            if d <= 1:
                uniform(rec, lambda: UniformCartesianGrid(mn, mx), mn, mx, [20] * d)
            # integer bounds
            if rng.random() < 0.5:
                a = [rng.randint(-4, 4) for _ in range(d)]
                b = [x + rng.randint(1, 3) for x in a]
                uniform(rec, lambda: UniformCartesianGrid(a, b, n), a, b, n)
            # sum and product of grids
            d2 = rng.randint(1, 2)
            n2 = [rng.randint(1, 3) for _ in range(d2)]
            m2, x2 = bounds(rng, d2)
            if np.prod(n) * np.prod(n2) < 200:
                g1, g2 = UniformCartesianGrid(mn, mx, n), UniformCartesianGrid(m2, x2, n2)
                f = rng.choice([lambda: g1 + g2, lambda: g1 * g2, lambda: cat_grids(g1, g2)])
                uniform(rec, f, mn + m2, mx + x2, n + n2)
                # the factors are unchanged
                uniform(rec, lambda: g1, mn, mx, n)
            g0 = UniformCartesianGrid(mn, mx, n)
            f = rng.choice([lambda: EmptyGrid() + g0, lambda: EmptyGrid() * g0, lambda: cat_grids(EmptyGrid(), g0),
                            lambda: ProductGrid(EmptyGrid(), g0, names=["exo", "endo"])["endo"],
                            lambda: ProductGrid(g0, EmptyGrid(), names=["exo", "endo"])["exo"]])
            uniform(rec, f, mn, mx, n)
            # non uniform grids
            L = [lst(rng) for _ in range(rng.randint(1, 3))]
            nonuniform(rec, lambda: NonUniformCartesianGrid(L), L)
            L2 = [lst(rng) for _ in range(rng.randint(1, 2))]
            nonuniform(rec, lambda: NonUniformCartesianGrid(L) + NonUniformCartesianGrid(L2), L + L2)
            nonuniform(rec, lambda: NonUniformCartesianGrid(L2) * NonUniformCartesianGrid(L), L2 + L)
            # unstructured
            U = [[rng.randint(-40, 40) / 8 for _ in range(d)] for _ in range(rng.randint(1, 6))]
            o, r = rec.call(lambda: (lambda g: dict(common(g), amin=qa(g.min), amax=qa(g.max), d=int(g.d)))(UnstructuredGrid(U)))
            rec.event("Unstructured", outcome=o, given=qa(U), **(r or {}))
            # domain.discretize
            names = ["s%d" % j for j in range(d)]
            rng.shuffle(names)
            dom = lambda: CartesianDomain(**{nm: [a, b] for nm, a, b in zip(names, mn, mx)})
            uniform(rec, lambda: dom().discretize(n=n), mn, mx, n)
            if d == 1:
                uniform(rec, lambda: dom().discretize(), mn, mx, [10])
            # enumeration functions
            A = [lst(rng) for _ in range(rng.randint(1, 4))]
            o, r = rec.call(lambda: qa(cartesian(A)))
            rec.event("Array", kind="lists", outcome=o, lists=[qa(l) for l in A], nodes=r or [])
            o, r = rec.call(lambda: qa(mlinspace(mn, mx, n)))
            rec.event("Array", kind="lin", outcome=o, min=qa(mn), max=qa(mx), n=n, nodes=r or [])

            def with_out():
                out = np.zeros((int(np.prod([len(a) for a in A])), len(A)))
                cartesian(A, out)
                return qa(out)
            o, r = rec.call(with_out)
            rec.event("Array", kind="lists", outcome=o, lists=[qa(l) for l in A], nodes=r or [])

            def with_out2():
                out = np.zeros((int(np.prod(n)), d))
                mlinspace(mn, mx, n, out)
                return qa(out)
            o, r = rec.call(with_out2)
            rec.event("Array", kind="lin", outcome=o, min=qa(mn), max=qa(mx), n=n, nodes=r or [])
        d, mu = rng.choice([(2, 1), (2, 2), (3, 1), (2, 3), (3, 2)] + ([(4, 2), (3, 3)] if thorough else []))
        mn, mx = bounds(rng, d)
        o, r = rec.call(lambda: common(SmolyakGrid(mn, mx, mu)))
        rec.event("Smolyak", outcome=o, min=qa(mn), max=qa(mx), mu=mu, **(r or {}))
    return run


def yaml_import_text(txt, i):
    fn = os.path.abspath("h_%d_%d.yaml" % (i, os.getpid()))
    open(fn, "w").write(txt)
    return yaml_import(fn, check=False)


def model_grid(i):
    """the endogenous grid of a model is the one its file describes"""
    def run(rec):
        rng = rec.rng
        A = gen(rng, blocks=["arbitrage", "transition"])
        st = A["symbols"]["states"]
        mn, mx = bounds(rng, len(st))
        n = [rng.randint(2, 5) for _ in st]
        keys = list(range(len(st)))
        rng.shuffle(keys)
        txt = A["yaml"].split("domain:")[0] + "domain:\n" + "".join("    %s: [%r, %r]\n" % (st[k], mn[k], mx[k]) for k in keys)
        kind = rng.choice(["n", "orders", "none", "smolyak", "type", "nonuniform", "oldbounds"])
        if kind == "none" and len(st) > 1:
            kind = "n"
        if kind == "smolyak" and len(st) == 1:
            kind = "n"
        if kind in ("n", "orders"):
            txt += "options:\n    grid: !%s\n        %s: %s\n" % (rng.choice(["Cartesian", "CartesianGrid"]), kind, n)
        elif kind == "type":
            txt += "options:\n    grid:\n        type: Cartesian\n        orders: %s\n" % n
        elif kind == "none":
            txt += "options:\n    grid: !Cartesian {}\n"
            n = [20]
        elif kind == "oldbounds":   # the domain as grid options
            a, b, w = rng.choice([("a", "b", "orders"), ("min", "max", "n")])
            txt = txt.split("domain:")[0] + "options:\n    grid:\n        type: Cartesian\n        %s: %s\n        %s: %s\n        %s: %s\n" % (a, mn, b, mx, w, n)
        elif kind == "nonuniform":
            pn = A["symbols"]["parameters"][0]
            pv = float(yaml_import_text(txt, i).calibration[pn])
            lists, shown = [], []
            for _ in st:
                l = sorted({rng.randint(-40, 40) / 8 for _ in range(rng.randint(1, 4))})
                e = [repr(z) for z in l]
                if pv == pv and abs(pv) < 1e6 and rng.random() < 0.7:
                    j = rng.randrange(len(l))
                    e[j], l[j] = rng.choice([(pn, pv), ("%r + %s" % (l[j], pn), l[j] + pv)])
                lists.append(l)
                shown.append("[%s]" % ", ".join(e))
            txt += "options:\n    grid: !NonUniformCartesian%s\n" % rng.choice(["", "Grid"]) + "".join("        - %s\n" % e for e in shown)
        else:
            mu = rng.choice([1, 2])
            txt += "options:\n    grid: !Smolyak\n        mu: %d\n" % mu
        fn = os.path.abspath("g_%d_%d.yaml" % (i, os.getpid()))
        open(fn, "w").write(txt)
        f = lambda: yaml_import(fn, check=False).discretize()[0]["endo"]
        if kind == "nonuniform":
            nonuniform(rec, f, lists)
        elif kind == "smolyak":
            o, r = rec.call(lambda: common(f()))
            rec.event("Smolyak", outcome=o, min=qa(mn), max=qa(mx), mu=mu, **(r or {}))
        else:
            uniform(rec, f, mn, mx, n)
        n3 = [rng.randint(1, 4) for _ in st]
        uniform(rec, lambda: yaml_import(fn, check=False).discretize(grid_options={"n": n3})[0]["endo"], mn, mx, n3)
    return run


SC = [("grids/%d" % i, scenario(i)) for i in range(60 if thorough else 16)]
SC += [("model-grid/%d" % i, model_grid(i)) for i in range(200 if thorough else 48)]
sys.exit(run_scenarios(SC))
