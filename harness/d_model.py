"""Drivers for models, transformations and inference (C05, C06, C07, C08, C21, parts of C02, C03, C04)."""
from core import *
from d_factor import FHist
import math as _m
from bcause.inference.probabilistic.elimination import VariableElimination
from bcause.inference.ordering import Heuristic, min_fill_heuristic, min_size_heuristic, min_weight_heuristic
from bcause.models.transform.simplification import minimalize
from bcause.models.transform.conversion import causal_to_bnet, bnet_to_causal

CELLS = 700


def custom_heuristic(rng):
    seed = rng.randrange(10 ** 6)

    def heur(dag, to_remove, varsizes=None, **kw):
        out = sorted(to_remove)
        random.Random(seed).shuffle(out)
        return out
    return heur


def pick_heuristic(rng):
    return rng.choice([None, None, min_fill_heuristic, min_size_heuristic, min_weight_heuristic, Heuristic.MIN_FILL,
                       Heuristic.MIN_SIZE, Heuristic.MIN_WEIGHT, custom_heuristic(rng), custom_heuristic(rng)])


class MHist(FHist):
    def __init__(self, rng, rec, w, h, vt=None):
        super().__init__(rng, rec, w, [vt or rng.choice(["numpy"] * 4 + ["list", "treedict", "numpy1d"])], h)
        self.vt = self.vts[0]

    def fac(self, i): return self.objs[i - 1][0]

    def put(self, o, meta=None):
        self.objs.append([o] if o is not None else None)
        self.meta.append(meta)
        return len(self.objs)

    # ---- factors of models
    def cpt(self, v, pa, K, zero=.15, doms=None):
        """conditional table of v given pa with values k/K"""
        rng, w = self.rng, self.w
        vs = [v] + list(pa)
        n = [len(doms[x]) if doms and x in doms else w.card(x) for x in vs]
        cols = [composition(rng, K, n[0], zero) for _ in range(_m.prod(n[1:]))]
        # row-major with v first
        vals = [[cols[c][r], K] for r in range(n[0]) for c in range(len(cols))]
        vals = [[a // _m.gcd(a, b), b // _m.gcd(a, b)] if a else [0, 1] for a, b in vals]
        return self.table(vs, vals, [v], doms)

    def table(self, vs, vals, left, doms=None):
        """a factor given in the canonical order of vs; listed in random order of variables and states"""
        rng, w = self.rng, self.w
        vo = vs[:]
        if rng.random() < .6: rng.shuffle(vo)
        base = {v: (list(doms[v]) if doms and v in doms else list(range(1, w.card(v) + 1))) for v in vs}
        do = []
        for v in vo:
            d = base[v][:]
            if rng.random() < .25: rng.shuffle(d)
            do.append(d)
        st = [_m.prod(len(base[x]) for x in vs[i + 1:]) for i in range(len(vs))]
        out = []
        for cell in itertools.product(*do):
            asg = dict(zip(vo, cell))
            out.append(vals[sum(st[i] * base[x].index(asg[x]) for i, x in enumerate(vs))])
        dom = {w.name(v): [w.lab(v, s) for s in d] for v, d in zip(vo, do)}
        mode = rng.choice([1, 2, 3])
        ls, rs = list(left), [v for v in vo if v not in left]
        kw = {}
        if mode in (1, 3): kw["left_vars"] = [w.name(v) for v in ls]
        if mode in (2, 3): kw["right_vars"] = [w.name(v) for v in rs]
        o = call(lambda: MultinomialFactor(dom, [fl(x) for x in out], vtype=self.vt, **kw))
        return self.push("mk", [o], vo=vo, do=do, vals=out, mode=mode, ls=ls, rsv=rs)

    def det(self, v, pa, out=None, doms=None, shuffle=True):
        """structural equation as a DeterministicFactor"""
        rng, w = self.rng, self.w
        vo = [v] + list(pa)
        if shuffle: rng.shuffle(vo)
        do = []
        for x in vo:
            d = list(doms[x]) if doms and x in doms else list(range(1, w.card(x) + 1))
            if shuffle and rng.random() < .25: rng.shuffle(d)
            do.append(d)
        dv = do[vo.index(v)]
        n = _m.prod(len(d) for x, d in zip(vo, do) if x != v)
        if out is None: out = [rng.choice(dv) for _ in range(n)]
        dom = {w.name(x): [w.lab(x, s) for s in d] for x, d in zip(vo, do)}
        kw = rng.choice([dict(left_vars=[w.name(v)]), dict(right_vars=[w.name(x) for x in vo if x != v])])
        o = call(lambda: DeterministicFactor(dom, [w.lab(v, s) for s in out], vtype=self.vt, **kw))
        return self.push("mkdet", [o], vo=vo, do=do, lv=v, out=out)

    def deteq(self, v, pa):
        """structural equation, as deterministic or as degenerate multinomial factor"""
        rng, w = self.rng, self.w
        if rng.random() < .5: return self.det(v, pa)
        n = [w.card(x) for x in [v] + list(pa)]
        cols = [rng.randrange(n[0]) for _ in range(_m.prod(n[1:]))]
        return self.table([v] + list(pa), [[int(cols[c] == r), 1] for r in range(n[0]) for c in range(len(cols))], [v])

    def function(self, v, pa, out):
        """structural equation given by its table: out lists the states of v, row-major over pa in the given order"""
        rng, w = self.rng, self.w
        n = [w.card(x) for x in pa]
        if rng.random() < .5:
            return self.table([v] + list(pa), [[int(out[c] == r), 1] for r in range(1, w.card(v) + 1) for c in range(len(out))], [v])
        fn = dict(zip(itertools.product(*[range(1, k + 1) for k in n]), out))
        vo = [v] + list(pa); rng.shuffle(vo)
        do = []
        for x in vo:
            d = list(range(1, w.card(x) + 1))
            if rng.random() < .25: rng.shuffle(d)
            do.append(d)
        oth = [x for x in vo if x != v]
        o2 = [fn[tuple(dict(zip(oth, st))[x] for x in pa)] for st in itertools.product(*[d for x, d in zip(vo, do) if x != v])]
        dom = {w.name(x): [w.lab(x, s) for s in d] for x, d in zip(vo, do)}
        o = call(lambda: DeterministicFactor(dom, [w.lab(v, s) for s in o2], left_vars=[w.name(v)], vtype=self.vt))
        return self.push("mkdet", [o], vo=vo, do=do, lv=v, out=o2)

    # ---- models
    def graph(self, nodes, edges):
        rng, w = self.rng, self.w
        g = nx.DiGraph()
        ns = nodes[:]; rng.shuffle(ns)
        if rng.random() < .7: g.add_nodes_from(w.name(v) for v in ns)
        g.add_edges_from((w.name(a), w.name(b)) for a, b in edges)
        g.add_nodes_from(w.name(v) for v in ns)
        return g

    def model(self, scm, nodes, edges, fs, endo=None, j=False, xx=False, cast=True, style=None, strdag=False):
        """fs: list of (variable, factor slot); endo None: not given"""
        rng, w = self.rng, self.w
        style = style or rng.choice(["list", "dict", "dict"])
        g = self.graph(nodes, edges)
        kw = {}
        if scm:
            if endo is not None: kw["endogenous"] = [w.name(v) for v in endo]
            kw["cast_multinomial"] = cast

        def make():
            factors = [self.fac(i) for _, i in fs] if style == "list" else {w.name(v): self.fac(i) for v, i in fs}
            if strdag:
                from bcause.util.graphutils import dag2str
                d = dag2str(g)
            else: d = g
            return SCM(d, factors, **kw) if scm else BayesianNetwork(d, factors)
        m, err = call(make)
        return self.mput("mkm", m, err, scm=scm, nodes=nodes, edges=edges, endo=list(endo or []), fs=[[v, i] for v, i in fs], j=j, xx=xx,
                         info=dict(scm=scm, nodes=nodes, edges=edges, cast=cast))

    def mput(self, a, m, err, info=None, **args):
        p, perr = smproj(self.w, m) if err == "" else (MEMPTY, err)
        self.rec.ev(a, r=p, err=perr, **args)
        meta = dict(info or {})
        meta.update(model=True, ok=perr == "")
        return self.put(m if perr == "" else None, meta)

    def trans(self, x, op, arg, fn, j=False, xx=False):
        m = self.fac(x)
        n, err = call(lambda: fn(m))
        return self.mput("trans", n, err, x=x, op=op, arg=arg, j=j, xx=xx, info=self.meta[x - 1])

    def fuse(self, xs, on, endo=None, j=False):
        from bcause.models.transform.combination import fusion_roots
        ms = [self.fac(x) for x in xs]
        kw = dict(endogenous=[self.w.name(v) for v in endo]) if endo is not None else {}
        n, err = call(lambda: fusion_roots(ms, on=[self.w.name(v) for v in on], **kw))
        return self.mput("fuse", n, err, xs=list(xs), on=list(on), j=j, xx=False)

    def magain(self, x):
        p, err = smproj(self.w, self.fac(x))
        self.rec.ev("magain", x=x, r=p, err=err)

    # ---- random models
    def limit_K(self, n):
        return max(2, min(self.rng.choice([2, 3, 4, 5, 6, 10, 12, 20]), int((2 ** 30) ** (1.0 / max(n, 1)))))

    def rnd_bn(self, nodes, edges=None, j=True, zero=.15, **kw):
        rng = self.rng
        edges = rnd_dag2(rng, nodes) if edges is None else edges
        K = [self.limit_K(len(nodes)) for _ in nodes]
        fs = [(v, self.cpt(v, [a for a, b in edges if b == v], K[i], zero)) for i, v in enumerate(nodes)]
        rng.shuffle(fs)
        return self.model(False, nodes, edges, fs, j=j, **kw)

    def rnd_scm(self, exo, endo, edges, j=False, xx=True, give_endo=None, zero=.1, **kw):
        """edges: list of arcs; exogenous are roots"""
        rng = self.rng
        fs = []
        Ks = self.limit_K(len(exo))
        for u in exo: fs.append((u, self.cpt(u, [], max(Ks, 3), zero)))
        for v in endo: fs.append((v, self.deteq(v, [a for a, b in edges if b == v])))
        rng.shuffle(fs)
        haspa = [v for v in endo if any(b == v for a, b in edges)]
        need = sorted(haspa) != sorted(endo)
        if give_endo is None: give_endo = need or rng.random() < .4
        e = endo[:]; rng.shuffle(e)
        return self.model(True, exo + endo, edges, fs, endo=e if (give_endo or need) else None, j=j, xx=xx, **kw)

    def rnd_assignment(self, x):
        """a complete assignment of positive probability (or None)"""
        m = self.fac(x)
        rng, w = self.rng, self.w
        asg = {}
        for v in nx.topological_sort(m.graph):
            f = m.factors[v]
            if isinstance(f, DeterministicFactor): f = f.to_multinomial()
            dom = list(f.domain[v])
            ps = [max(0., float(f.get_value(**{**asg, v: s}))) for s in dom]
            if sum(ps) <= 0: return None
            asg[v] = rng.choices(dom, ps)[0]
        return [[w.vid(v), w.sid(w.vid(v), s)] for v, s in asg.items()]

    # ---- queries
    def setf(self, x, v, f, name=None):
        """f: heap slot, 0 for an object that is no factor"""
        m, w = self.fac(x), self.w
        o = self.fac(f) if f else self.rng.choice([None, 3, "factor", [.5, .5], {"a": 1}])
        _, err = call(lambda: m.set_factor(w.name(v), o))
        p, perr = smproj(w, m)
        self.rec.ev("setf", x=x, v=v, f=f, err=err, r=p, perr=perr)
        return err == ""

    def target(self, T):
        """how the user writes the targets"""
        names = [self.w.name(v) for v in T]
        r = self.rng.random()
        if len(T) == 1 and r < .4: return names[0]
        if r < .8 or len(set(T)) != len(T): return names
        return set(names)

    def query(self, x, T, C, ev, heur=None, eng=None):
        w = self.w
        m = self.fac(x)
        tt, cc, ee = self.target(T), self.target(C) if C else None, self.w.asg(ev)
        if self.rng.random() < .5 and not ee: ee = None

        def go():
            e = eng if eng is not None else VariableElimination(m, heur)
            return e.query(tt, conditioning=cc, evidence=ee) if cc is not None else e.query(tt, evidence=ee)
        r, err = call(go)
        p, perr = sproj(w, r) if err == "" else (EMPTY, err)
        self.rec.ev("qry", x=x, T=T, C=C, ev=ev, r=p, err=perr)
        return perr

    def rnd_query(self, x, nodes, pC=.3, pE=.6, maxT=3, bad=.12):
        rng = self.rng
        asg = self.rnd_assignment(x)
        ns = nodes[:]; rng.shuffle(ns)
        nT = rng.choice([1, 1, 1, 2, 2, 3][:max(1, maxT * 2)])
        T, rest = ns[:nT], ns[nT:]
        C = rest[:rng.choice([1, 1, 2])] if rng.random() < pC else []
        rest = [v for v in rest if v not in C]
        ev = []
        if rng.random() < pE:
            k = rng.choice([1, 1, 2, 2, 3, len(rest)])
            ev = [v for v in rest[:k]]
        if asg is None or rng.random() < bad: ev = [[v, rng.randint(1, self.w.card(v))] for v in ev]
        else:
            d = dict(map(tuple, asg)); ev = [[v, d[v]] for v in ev]
        return T, C, ev

    def minimal(self, x, T, ev):
        w = self.w
        m = self.fac(x)
        tt = self.target(T)
        if isinstance(tt, str) and self.rng.random() < .5: tt = [tt]
        r, err = call(lambda: minimalize(m, tt, w.asg(ev)))
        p, perr = smproj(w, r) if err == "" else (MEMPTY, err)
        self.rec.ev("mini", x=x, T=T, ev=ev, r=p, err=perr)

    def mprob(self, x, obs):
        w = self.w
        m = self.fac(x)
        rows = [w.asg(o) for o in obs]

        def go():
            ps = m.prob(rows)
            pos = [i for i, p in enumerate(ps) if p > 0]
            lps = [0] * len(rows)
            for i, v in zip(pos, m.log_prob([rows[i] for i in pos]) if pos else []): lps[i] = math.exp(v)
            return [enc(p) for p in ps], [enc(p) for p in lps]
        r, err = call(go)
        ps, lps = r if err == "" else ([], [])
        self.rec.ev("mprob", x=x, obs=obs, ps=ps, lps=lps, err=err)


def rnd_dag2(rng, nodes, p=None, maxpa=None):
    idx = rnd_dag(rng, len(nodes), p, maxpa)
    return [[nodes[a - 1], nodes[b - 1]] for a, b in idx]


def small_world(rng, n, cells=CELLS, cards=(2, 2, 2, 2, 3, 3, 4, 1), kinds=None, names=None):
    if rng.random() < .08: cards = tuple(cards) + (10, 11, 13)     # many states
    if 2 ** n > cells // 2: cards = (2, 2, 2, 2, 2, 1)
    while True:
        w = World.random(rng, n, cards, kinds, names)
        if _m.prod(w.card(v) for v in range(1, n + 1)) <= cells: return w


def scm_shape(rng, nexo, nendo, markov=None):
    """exo ids 1..nexo, endo the following; arcs"""
    exo = list(range(1, nexo + 1)); endo = list(range(nexo + 1, nexo + nendo + 1))
    order = endo[:]; rng.shuffle(order)
    edges = []
    kind = markov or rng.choice(["markov", "quasi", "free"])
    p = rng.choice([.3, .5, .8])
    for j, v in enumerate(order):
        pa = [x for x in order[:j] if rng.random() < p]
        rng.shuffle(pa)
        rng.shuffle(pa)
        for x in pa[:rng.choice([1, 2, 2, 2, 3, 4])]: edges.append([x, v])
    if kind == "markov":
        for i, v in enumerate(order):
            if i < nexo: edges.append([exo[i], v])
    elif kind == "quasi":
        for v in order:
            if rng.random() < .95: edges.append([rng.choice(exo), v])
    else:
        for v in order:
            for u in rng.sample(exo, rng.choice([0, 1, 1, 2]) if nexo > 1 else rng.choice([0, 1, 1])): edges.append([u, v])
    rng.shuffle(edges)
    return exo, endo, edges


def scm_world(rng, nexo, nendo, cells=CELLS, kinds=None, xcards=(2, 2, 3, 4), ncards=(2, 2, 2, 3)):
    names = rng.sample(NAMES, nexo + nendo)
    if rng.random() < .12:      # names of the form used for the copies in hypothetical worlds
        i, j = rng.sample(range(nexo + nendo), 2) if rng.random() < .5 else (nexo + nendo - 1, rng.randrange(nexo + nendo - 1))
        names[j] = names[i] + rng.choice(["_1", "_1", "_2", "_0"])
        if len(set(names)) < len(names): names = rng.sample(NAMES, nexo + nendo)
    if cells >= 300:
        if rng.random() < .1: xcards = tuple(xcards) + (6, 8, 12)
        if rng.random() < .05: ncards = tuple(ncards) + (4, 5, 11)
    if 2 ** (nexo + nendo) > cells // 3: xcards, ncards = (2, 2, 2, 3), (2, 2, 2, 2, 1)
    while True:
        w = World(names, [labels_for(rng, n, rng.choice(xcards if i < nexo else ncards), rng.choice(kinds) if kinds else None) for i, n in enumerate(names)])
        if _m.prod(w.card(v) for v in range(1, nexo + nendo + 1)) <= cells: return w


def any_model(rng, rec, h, j=True, xx=False, nmax=7, vt=None, kinds=None):
    """history with one random model (slot x); returns H, x, nodes"""
    if rng.random() < .6:
        n = rng.choice([1, 2, 3, 4, 4, 5, 5, 6, 7, 8][:nmax + 2])
        if nmax > 6 and rng.random() < .04: n = 9
        w = small_world(rng, n, kinds=kinds)
        H = MHist(rng, rec, w, h, vt)
        nodes = list(range(1, n + 1))
        x = H.rnd_bn(nodes, j=j)
    else:
        ne, nn = rng.choice([(1, 1), (1, 2), (2, 2), (2, 3), (3, 3), (3, 4), (1, 4), (2, 5), (4, 4)])
        w = scm_world(rng, ne, nn, kinds=kinds)
        H = MHist(rng, rec, w, h, vt)
        exo, endo, edges = scm_shape(rng, ne, nn)
        nodes = exo + endo
        x = H.rnd_scm(exo, endo, edges, j=j, xx=xx)
    return H, x, nodes


def shaped(rng, rec, h, gen):
    """history with one Bayesian network over the graph of a generated behaviour"""
    n = gen["n"]
    w = small_world(rng, n, 200)
    H = MHist(rng, rec, w, h)
    nodes = list(range(1, n + 1))
    x = H.rnd_bn(nodes, [list(e) for e in gen["edges"]], j=True, zero=rng.choice([0, .15, .3]))
    return H, x, nodes


def fixed_order(names):
    def heur(dag, to_remove, varsizes=None, **kw):
        return [v for v in names if v in to_remove] + sorted(v for v in to_remove if v not in names)
    return heur


def point(H, x, vs):
    """states for the variables vs that occur together"""
    a = dict(map(tuple, H.rnd_assignment(x)))
    return [[v, a[v]] for v in vs]


def hist_c05(rng, rec, h, tier, gen=None):
    if gen:
        H, x, nodes = shaped(rng, rec, h, gen)
        if H.objs[x - 1] is None: return
        for q in gen["q"]:
            T, E = q["T"][:], q["E"]
            rng.shuffle(T)
            ev = point(H, x, E) if rng.random() < .95 else [[v, rng.randint(1, H.w.card(v))] for v in E]
            rest = [v for v in nodes if v not in T and v not in E]
            C = [v for v in rest if rng.random() < .3] if rng.random() < .3 else []
            H.query(x, T, C, ev, fixed_order([H.w.name(v) for v in q["ord"]]))
        return
    H, x, nodes = any_model(rng, rec, h)
    if H.objs[x - 1] is None: return
    for _ in range(rng.randint(3, 6)):
        T, C, ev = H.rnd_query(x, nodes)
        H.query(x, T, C, ev, pick_heuristic(rng))
        if rng.random() < .3: H.query(x, T, C, ev, pick_heuristic(rng))
    if rng.random() < .5:
        obs = [o for o in (H.rnd_assignment(x) for _ in range(2)) if o]
        while obs and rng.random() < .6: obs.insert(rng.randrange(len(obs)), [[v, rng.randint(1, H.w.card(v))] for v in nodes])   # any row
        m = H.fac(x)
        if obs and not any(isinstance(f, DeterministicFactor) for f in m.factors.values()): H.mprob(x, obs)


def hist_c06(rng, rec, h, tier, gen=None):
    if gen:
        H, x, nodes = shaped(rng, rec, h, gen)
        if H.objs[x - 1] is None: return
        for q in gen["q"]: H.minimal(x, q["T"][:], point(H, x, q["E"]) if rng.random() < .9 else [[v, rng.randint(1, H.w.card(v))] for v in q["E"]])
        return
    H, x, nodes = any_model(rng, rec, h)
    if H.objs[x - 1] is None: return
    for _ in range(rng.randint(4, 8)):
        T, C, ev = H.rnd_query(x, nodes, pC=0, pE=.85)
        if rng.random() < .2:       # many targets
            T = rng.sample(nodes, rng.randint(min(3, len(nodes)), len(nodes)))
            ev = [p for p in ev if p[0] not in T]
        H.minimal(x, T, ev)


# ---------------------------------------------------------------- C07: building models
class BHist(MHist):
    def bare(self, scm, nodes, edges, fs=(), endo=None, cast=True):
        return self.model(scm, nodes, edges, list(fs), endo=endo, cast=cast)

    def variant(self, v, pa, degenerate, nodes):
        """a factor for v given pa, possibly malformed; returns slot"""
        rng, w = self.rng, self.w
        pa = list(pa)
        doms = {}
        left = [v]
        k = rng.random()
        others = [x for x in nodes if x != v and x not in pa]
        if k < .1 and pa: pa.remove(rng.choice(pa))                       # parent missing
        elif k < .2 and others: pa.append(rng.choice(others))             # extra variable
        elif k < .27 and pa:                                              # left and right exchanged
            left = [pa.pop(rng.randrange(len(pa)))]; pa = pa + [v]
        elif k < .34 and pa: left = [v, pa.pop()]                         # two left variables
        elif k < .39 and pa: left = []                                    # none on the left
        elif k < .52:                                                     # other states
            y = rng.choice([v] + pa)
            c = w.card(y)
            doms[y] = rng.choice([list(range(1, c)) if c > 1 else [2], list(range(2, c + 1)) + [c + 1], list(range(1, c + 2))])
        vs = left + pa if left else [v] + pa
        n = {x: len(doms[x]) if x in doms else w.card(x) for x in vs}
        if degenerate if rng.random() < .85 else not degenerate:
            cfg = _m.prod(n[x] for x in vs if x not in left)
            lo = _m.prod(n[x] for x in left)
            cols = [rng.randrange(lo) for _ in range(cfg)]
            if len(left) == 1 and rng.random() < .4:
                return self.det(left[0], [x for x in vs if x not in left], doms=doms)
            vals = [[int(cols[c] == r), 1] for r in range(lo) for c in range(cfg)]
        else:
            K = rng.choice([2, 3, 4, 4, 1000, 100000])      # the last ones: almost deterministic
            cfg = _m.prod(n[x] for x in vs if x not in left)
            lo = _m.prod(n[x] for x in left)
            cols = [composition(rng, K, lo, .1) for _ in range(cfg)]
            if K >= 1000 and lo > 1:
                for c in cols:
                    c[:] = [0] * lo
                    i, j = rng.sample(range(lo), 2)
                    c[i], c[j] = K - 1, 1
                    if rng.random() < .5: c[i], c[j] = K, 0
            vals = [[cols[c][r], K] for r in range(lo) for c in range(cfg)]
            vals = [[a // _m.gcd(a, b), b // _m.gcd(a, b)] if a else [0, 1] for a, b in vals]
        vs = left + [x for x in vs if x not in left]
        return self.table(vs, vals, left, doms)


def build_world(rng, n):
    """world in which every variable has one more label than states it is declared with (for inconsistent domains)"""
    names = rng.sample(NAMES, n)
    cards = [rng.choice([2, 2, 3, 1]) for _ in names]
    w = World(names, [labels_for(rng, nm, c + 1, rng.choice(["str", "int", "int1", "odd"])) for nm, c in zip(names, cards)])
    w.card = lambda v: len(w.labels[v - 1]) - 1
    return w


def hist_c07(rng, rec, h, tier, gen=None):
    n = rng.choice([2, 3, 3, 4])
    w = build_world(rng, n)
    H = BHist(rng, rec, w, h)
    scm = rng.random() < .5
    nodes = list(range(1, n + 1))
    edges = rnd_dag2(rng, nodes, p=rng.choice([.4, .7]))
    if rng.random() < .25:          # cyclic graphs are refused
        a, b = (edges[0] if edges else [1, 2])
        cyc = edges + [[b, a]] + ([] if edges else [[a, b]])
        if rng.random() < .5:
            k = rng.choice(nodes); cyc = edges + [[k, k]]
        H.bare(scm, nodes, cyc)
    endo = None
    if scm and rng.random() < .4: endo = [v for v in nodes if any(b == v for a, b in edges)] + [v for v in nodes if rng.random() < .2]
    endo = sorted(set(endo)) if endo else None
    en = endo or [v for v in nodes if any(b == v for a, b in edges)] if scm else []
    pa = {v: [a for a, b in edges if b == v] for v in nodes}
    if rng.random() < .5:
        x = H.bare(scm, nodes, edges, endo=endo, cast=rng.random() < .7)
    else:                            # constructor with (possibly malformed) factors
        vs = [v for v in nodes if rng.random() < .8]
        fs = [(v, H.variant(v, pa[v], v in en, nodes) if rng.random() < .25 else H.plain(v, pa[v], v in en)) for v in vs]
        fs = [(v, f) for v, f in fs if H.objs[f - 1] is not None]
        rng.shuffle(fs)
        x = H.model(scm, nodes, edges, fs, endo=endo, cast=rng.random() < .7, style="dict")
        if H.objs[x - 1] is None: x = H.bare(scm, nodes, edges, endo=endo)
    if H.objs[x - 1] is None: return
    for _ in range(rng.randint(4, 10)):
        v = rng.choice(nodes)
        if rng.random() < .05:
            H.setf(x, v, 0); continue
        f = H.variant(v, pa[v], v in en, nodes) if rng.random() < .6 else H.plain(v, pa[v], v in en)
        if H.objs[f - 1] is None: continue
        H.setf(x, rng.choice(nodes) if rng.random() < .07 else v, f)


def _plain(self, v, pa, degenerate):
    rng, w = self.rng, self.w
    return self.deteq(v, pa) if degenerate else self.cpt(v, pa, rng.choice([2, 3, 5]), .2)


BHist.plain = _plain


def gen_c07(rng, rec, h, tier, g):
    """sequences of assignments generated from MC_Build, each on a new model over the same graph"""
    n = g["n"]
    names = rng.sample(NAMES, n)
    w = World(names, [labels_for(rng, nm, 4 if i == 1 else 3, rng.choice(["str", "int", "int1", "odd"])) for i, nm in enumerate(names)])
    H = BHist(rng, rec, w, h)
    slots = {}
    nodes = list(range(1, n + 1))
    for steps in g["seqs"]:
        x = H.bare(g["scm"], nodes, [list(e) for e in g["edges"]], cast=rng.random() < .7)
        if H.objs[x - 1] is None: return
        for st in steps:
            key = (st["v"], st["kind"])
            if key not in slots:
                f = st["f"]
                doms = {v: list(d) for v, d in zip(f["vs"], f["d"])}
                vals = [list(q) for q in f["t"]]
                oth = [v for v in f["vs"] if v not in f["l"]]
                if len(f["l"]) == 1 and all(q[0] in (0, 1) and q[1] == 1 for q in vals) and rng.random() < .5:
                    # the same equation as a deterministic factor
                    L = f["l"][0]
                    fn = {}
                    for st_, q in zip(itertools.product(*f["d"]), vals):
                        a = dict(zip(f["vs"], st_))
                        if q[0]: fn[tuple(a[v] for v in oth)] = a[L]
                    out = [fn[k] for k in itertools.product(*[doms[v] for v in oth])]
                    slots[key] = H.det(L, oth, out, doms=doms, shuffle=False)
                else: slots[key] = H.table(list(f["vs"]), vals, list(f["l"]), doms)
            H.setf(x, st["v"], slots[key])


# ---------------------------------------------------------------- C08: transformations
FRESH = ["R1", "R2", "R3", "R4", "R5", "R6", "R7", "R8"]


def fuse_step(H, y, ns, j):
    """fusion of the model y with renamed (and re-parameterised) copies of itself over some of its roots"""
    rng, w = H.rng, H.w
    m = H.fac(y)
    scm = isinstance(m, SCM)
    roots = [v for v in ns if m.graph.in_degree(w.name(v)) == 0]
    on = rng.sample(roots, rng.randint(0, len(roots)))
    if rng.random() < .25: on = rng.sample(ns, rng.randint(1, len(ns)))     # perhaps not all roots
    endo = [w.vid(v) for v in m.endogenous] if scm else None
    xs, cells = [y], _m.prod(w.card(v) for v in ns)
    for _ in range(rng.choice([1, 1, 2])):
        z = y
        mp = []
        for v in ns:
            if v in on: continue
            nm = next((n for n in rng.sample(FRESH, len(FRESH)) if n not in w.ids), None) or "N%d" % len(w.names)
            mp.append([v, w.add(nm, w.labels[v - 1])])
        if cells * _m.prod(w.card(v) for v, _ in mp) > 400: break
        cells *= _m.prod(w.card(v) for v, _ in mp)
        d = dict(mp)
        if not scm and len(mp) <= 3 and rng.random() < .5:                    # another network altogether
            new = on + list(d.values())
            ed = rnd_dag2(rng, new)
            if rng.random() < .75: ed = [[a, b] for a, b in ed if b not in on]
            if not new: break
            z = H.rnd_bn(new, ed, j=False)
            if H.objs[z - 1] is None: return None
            xs.append(z)
            continue
        if mp or rng.random() < .5:
            z = H.trans(z, "rename", mp, lambda m: m.rename_vars({w.name(a): w.name(b) for a, b in mp}))
            if H.objs[z - 1] is None: return None
        for v in on:                                                          # other marginals of the common roots
            if v in roots and z != y and rng.random() < .5 and not (scm and v in endo):
                BHist.setf(H, z, v, H.cpt(v, [], H.limit_K(len(ns)), .15))
        if scm: endo = endo + [d[v] for v in endo if v in d and v not in on]
        xs.append(z)
    if len(xs) == 1: return None
    if scm and rng.random() < .2:
        xs[-1] = H.trans(xs[-1], "bnet", [], causal_to_bnet)                  # models of different types
        if H.objs[xs[-1] - 1] is None: return None
    if rng.random() < .2: rng.shuffle(on)
    ok = all(H.fac(i).graph.in_degree(w.name(v)) == 0 for i in xs for v in on) and len({type(H.fac(i)) for i in xs}) == 1
    z = H.fuse(xs, on, endo, j)
    return z if ok else None


def hist_c08(rng, rec, h, tier):
    if rng.random() < .12:      # a variable with many parents
        n = rng.choice([5, 6, 6])
        w = small_world(rng, n, kinds=["str", "odd"])
        H = MHist(rng, rec, w, h)
        nodes = list(range(1, n + 1))
        ns = rng.sample(nodes, n)
        x = H.rnd_bn(nodes, [[p, ns[-1]] for p in ns[:-1] if rng.random() < .9] + [[a, b] for a, b in zip(ns, ns[1:-1]) if rng.random() < .4], j=True)
    else: H, x, nodes = any_model(rng, rec, h, nmax=5, kinds=["str", "odd"] if rng.random() < .4 else None)
    if H.objs[x - 1] is None: return
    w = H.w
    models = [(x, nodes)]
    for _ in range(rng.randint(3, 6)):
        y, ns = rng.choice(models)
        m = H.fac(y)
        scm = isinstance(m, SCM)
        # conversions forget the endogenous variables, hence a causal model converted back may differ: specified by "causal"
        ops = ["copy", "rename", "rename", "sub"] + (["bnet", "bnet2", "multi"] if scm else ["causal", "pgmpy", "pgmpy"])
        op = rng.choice(ops)
        if op == "copy": z = H.trans(y, "copy", [], lambda m: m.copy(), j=True)
        elif op == "multi": z = H.trans(y, "copy", [], lambda m: m.to_multinomial(), j=True)
        elif op == "bnet": z = H.trans(y, "bnet", [], lambda m: m.to_bnet(), j=True)
        elif op == "bnet2": z = H.trans(y, "bnet", [], causal_to_bnet, j=True)
        elif op == "causal":
            z = H.trans(y, "causal", [], rng.choice([bnet_to_causal, SCM.from_model]), j=True)
        elif op == "pgmpy":
            if len({type(l) for v in ns for l in w.labels[v - 1]} - {str}) > 0: continue
            from bcause.conversion.pgmpy import toPgmpyBNet, toBCauseBNet
            vt = H.vt
            z = H.trans(y, "copy", [], lambda m: toBCauseBNet(toPgmpyBNet(m), vt), j=True)
        elif op == "sub":
            keep = {v for v in ns if rng.random() < .5} or {rng.choice(ns)}
            g = m.graph
            cl = set()
            for v in keep: cl |= {w.vid(a) for a in nx.ancestors(g, w.name(v))} | {v}
            if len(cl) == 0: continue
            arg = sorted(cl); names = [w.name(v) for v in arg]; rng.shuffle(names)
            z = H.trans(y, "sub", arg, lambda m: m.submodel(names), j=True)
            if H.objs[z - 1] is not None: models.append((z, arg))
            continue
        else:
            k = rng.choice([1, 2, len(ns)])
            vs = rng.sample(ns, min(k, len(ns)))
            mp = []
            if rng.random() < .3 and len(ns) >= 2:        # permutation of names
                vs = rng.sample(ns, rng.randint(2, len(ns)))
                sh = vs[1:] + vs[:1]
                if [w.labels[v - 1] for v in vs] and len({json.dumps([repr(l) for l in w.labels[v - 1]]) for v in vs}) == 1:
                    mp = [[a, b] for a, b in zip(vs, sh)]
            if not mp:
                for v in vs:
                    nm = next((n for n in rng.sample(FRESH, len(FRESH)) if n not in w.ids), None)
                    if nm is None: nm = "N%d" % len(w.names)
                    mp.append([v, w.add(nm, w.labels[v - 1])])
            d = dict(map(tuple, mp))
            z = H.trans(y, "rename", mp, lambda m: m.rename_vars({w.name(a): w.name(b) for a, b in mp}), j=True)
            if H.objs[z - 1] is not None: models.append((z, [d.get(v, v) for v in ns]))
            continue
        if H.objs[z - 1] is not None: models.append((z, ns))
    if rng.random() < .5:       # another distribution for a variable of one of the models: the others stay as they are
        y, ns = rng.choice(models[-3:])
        m, v = H.fac(y), rng.choice(ns)
        pa = [w.vid(p) for p in m.get_parents(w.name(v))]
        if not (isinstance(m, SCM) and m.is_endogenous(w.name(v))):
            H.setf(y, v, H.cpt(v, pa, rng.choice([3, 4, 5]), .2))
            for z, _ in models: H.magain(z)
    if rng.random() < .45:
        y, ns = rng.choice(models)
        z = fuse_step(H, y, ns, True)
        if z is not None and H.objs[z - 1] is not None: models.append((z, sorted(w.vid(v) for v in H.fac(z).variables)))
    for y, ns in rng.sample(models[-3:] if rng.random() < .5 else models, min(3, len(models))):
        T, C, ev = H.rnd_query(y, ns)
        m = H.fac(y)
        if not any(isinstance(f, DeterministicFactor) for f in m.factors.values()): H.query(y, T, C, ev, pick_heuristic(rng))
    H.magain(x)


def gen_c08(rng, rec, h, tier, g):
    """transformation sequences generated from MC_Trans, on a network or (always with interventions) on a Markovian causal model"""
    n = g["n"]
    edges = [list(e) for e in g["edges"]]
    nodes = list(range(1, n + 1))
    scm = any(op == "do" for op, _ in g["steps"]) or rng.random() < .3
    labs = {c: labels_for(rng, rng.choice(NAMES), c) for c in (2, 3)}
    names = rng.sample(NAMES, 2 * n)
    w = World(names, [labs[g["card"][v % n]] if v < n else labels_for(rng, names[v], rng.choice([2, 3])) for v in range(2 * n)])
    H = MHist(rng, rec, w, h)
    if scm:
        exo = [v + n for v in nodes]
        edges = edges + [[v + n, v] for v in nodes]
        x = H.rnd_scm(exo, nodes, edges, j=True, xx=False, cast=rng.random() < .6)
    else:
        exo = []
        x = H.rnd_bn(nodes, edges, j=True, zero=rng.choice([0, .15, .3]))
    if H.objs[x - 1] is None: return
    ids = {i: i for i in nodes}       # names of the specification -> names of this world
    y = x
    for op, arg in g["steps"]:
        m = H.fac(y)
        if op == "copy": y = H.trans(y, "copy", [], lambda m: m.copy(), j=True)
        elif op == "do":
            do = [[ids[v], s] for v, s in arg]
            y = H.trans(y, "do", do, lambda m: m.intervention(**w.asg(do)), j=True)
        elif op == "sub":
            S = {ids[v] for v in arg}
            S |= {w.vid(a) for v in S for a in m.graph.predecessors(w.name(v))}
            if rng.random() < .3: S |= set(exo) & {w.vid(v) for v in m.graph.nodes}
            S = sorted(S)
            names = [w.name(v) for v in S]; rng.shuffle(names)
            y = H.trans(y, "sub", S, lambda m: m.submodel(names), j=True)
        else:
            mp, new = [], {}
            for a, b in arg:
                new[b] = ids.get(b)
                if new[b] is None or w.labels[new[b] - 1] != w.labels[ids[a] - 1]:     # a name belongs to one set of labels
                    nm = next((n for n in rng.sample(FRESH, len(FRESH)) if n not in w.ids), None) or "N%d" % len(w.names)
                    new[b] = w.add(nm, w.labels[ids[a] - 1])
                mp.append([ids[a], new[b]])
            ids.update(new)
            y = H.trans(y, "rename", mp, lambda m: m.rename_vars({w.name(a): w.name(b) for a, b in mp}), j=True)
        if H.objs[y - 1] is None: return
    m = H.fac(y)
    ns = sorted(w.vid(v) for v in m.graph.nodes)
    if not any(isinstance(f, DeterministicFactor) for f in m.factors.values()):
        T, C, ev = H.rnd_query(y, ns)
        H.query(y, T, C, ev, pick_heuristic(rng))
    H.magain(x)
