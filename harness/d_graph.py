"""Drivers for graph queries and elimination orderings (C19, C22)."""
from core import *
from d_model import *
import bcause.util.graphutils as gu
from bcause.util.datadeps import DataDepAnalysis
from bcause.inference.ordering import min_fill_heuristic, min_size_heuristic, min_weight_heuristic, heuristic_functions, Heuristic


def ids(w, xs): return [w.vid(str(x)) for x in xs]
def eids(w, es): return [[w.vid(str(a)), w.vid(str(b))] for a, b in es]


class GHist(MHist):
    def __init__(self, rng, rec, w, h):
        super().__init__(rng, rec, w, h, "numpy")

    def run_graph(self, nodes, edges, scm, endo, every=False, large=False):
        """random queries on one graph, or (every) all the queries there are"""
        rng, w = self.rng, self.w
        g = self.graph(nodes, edges)
        qs = []
        nm = w.name

        def form(S):
            """the forms in which users hand over sets of variables"""
            l = [nm(v) for v in S]
            r = rng.random()
            if len(l) == 1 and r < .3: return l[0]
            return l if r < .8 else set(l)

        def lform(S):
            l = [nm(v) for v in S]
            return l if rng.random() < .7 else set(l)

        def q(op, fn, v=0, S=(), Z=(), kind="n"):
            def go():
                r = fn()
                if kind == "b": return [], [], bool(r)
                if kind == "g": return ids(w, r.nodes), eids(w, r.edges), False
                return ids(w, list(r)), [], False
            r, err = call(go)
            n, e, b = r if err == "" else ([], [], False)
            qs.append(dict(op=op, v=v, S=list(S), Z=list(Z), n=n, e=e, b=b, err=err))

        def subset(pool, p=.4): return [v for v in pool if rng.random() < p]
        mk = (lambda d: SCM(d, endogenous=[nm(v) for v in endo])) if scm and rng.random() < .9 else None
        m = None
        if mk:
            m, err = call(lambda: mk(g))
            en = endo
        elif scm:
            m, err = call(lambda: SCM(g))
            en = sorted({b for a, b in edges})
        else:
            m, err = call(lambda: BayesianNetwork(g))
            en = []
        ms = [m]
        m2, err2 = call(lambda: BayesianNetwork(gu.dag2str(g)))   # the same model from the textual form
        def subs(pool): return [[x for i, x in enumerate(pool) if k >> i & 1] for k in range(2 ** len(pool))]

        def picks():
            """(kind, v, S, Z, set without v)"""
            if not every:
                for _ in range(rng.randint(8, 14)):
                    v = rng.choice(nodes)
                    S = subset(nodes, rng.choice([.4, .1])) or [v]
                    if large:     # only what needs no paths
                        yield rng.choice([0, 1, 2, 10, 11, 12, 13, 14, 14, 14, 15]), v, S, subset(nodes, rng.choice([.4, .05])), []
                        continue
                    dens = .4 if len(nodes) < 10 else rng.choice([.2, .5, .8, .9])
                    if len(nodes) >= 10 and rng.random() < .5: S = rng.sample(nodes, rng.choice([1, 1, 2]))
                    yield rng.choice([*range(16), 6, 7, 7, 3] if len(nodes) >= 10 else range(16)), v, S, subset([x for x in nodes if x not in S], dens), subset([x for x in nodes if x != v], dens)
                return
            for S in subs(nodes):
                for k in (0, 1, 8):
                    if S: yield k, S[0], S, [], []
                for k in (4, 5, 11, 12, 13): yield k, nodes[0], [nodes[0]], S, []
                if S:
                    for v in nodes: yield 9, v, S, [], []
                    for Z in subs([x for x in nodes if x not in S]): yield 6, S[0], S, Z, []
            for v in nodes:
                for k in (2, 10, 15): yield k, v, [v], [], []
                for H in subs([x for x in nodes if x != v]):
                    yield 3, v, [v], [], H
                    yield 7, v, [v], [], H
        for k, v, S, Z, zv in picks():
            H = zv
            mm = rng.choice([m, m2])
            if k == 0: q("pa", lambda: mm.get_parents(*[nm(x) for x in S]), S=S)
            elif k == 1: q("ch", lambda: mm.get_children(*[nm(x) for x in S]), S=S)
            elif k == 2: q("mb", lambda: mm.markov_blanket(nm(v)), v=v)
            elif k == 3:
                hid = rng.choice([lform(H), lform(H)])
                q("hmb", lambda: gu.markov_blanket(g, nm(v), hid) if H or rng.random() < .5 else gu.markov_blanket(g, nm(v)), v=v, S=H)
            elif k == 4:
                a = lform(Z); q("barren", lambda: gu.barren_nodes(g, a), S=Z)
            elif k == 5:
                a = lform(Z); q("unbarren", lambda: gu.barren_removal(g, a), S=Z, kind="g")
            elif k == 6:
                a, b = form(S), form(Z); q("dsep", lambda: gu.dsep_nodes(g, a, b), S=S, Z=Z)
            elif k == 7:
                b = form(zv); q("dcon", lambda: gu.dcon_nodes(g, nm(v), b), v=v, Z=zv)
            elif k == 8:
                a = form(S); q("disc", lambda: gu.disconnected_nodes(g, a), S=S)
            elif k == 9:
                a = form(S); q("conn", lambda: gu.connected(g, a, nm(v)), v=v, S=S, kind="b")
            elif k == 10: q("rel", lambda: gu.relevat_vars(g, nm(v)), v=v)
            elif k == 11:
                a = lform(Z); q("rmout", lambda: gu.remove_outgoing_edges(g, a), S=Z, kind="g")
            elif k == 12:
                a = lform(Z); q("rmin", lambda: gu.remove_ingoing_edges(g, a), S=Z, kind="g")
            elif k == 13:
                a = lform(Z); q("rmn", lambda: gu.remove_nodes(g, a), S=Z, kind="g")
            elif k == 14:
                j = rng.randrange(6)
                if j == 0: q("str", lambda: gu.str2dag(gu.dag2str(g)), kind="g")
                elif j == 1: q("str", lambda: gu.str2dag(mm.get_dag_str()), kind="g")
                elif j == 2: q("str", lambda: BayesianNetwork(mm.get_dag_str()).graph, kind="g")
                elif j == 3: q("str", lambda: SCM(gu.dag2str(g)).graph, kind="g")
                elif j == 4: q("str", lambda: mm.graph, kind="g")
                else: q("str", lambda: gu.str2dag(gu.dag2str(gu.str2dag(gu.dag2str(g)))), kind="g")
            elif k == 15 and scm:
                for op, fn in [("epa", "get_edogenous_parents"), ("ech", "get_edogenous_children"), ("xpa", "get_exogenous_parents"), ("xch", "get_exogenous_children")]:
                    q(op, lambda: getattr(m, fn)(nm(v)), v=v)
                q("endo", lambda: m.endogenous); q("exo", lambda: m.exogenous)
                q("isendo", lambda: m.is_endogenous(nm(v)) and not m.is_exogenous(nm(v)), v=v, kind="b")
                q("egraph", lambda: m.endo_graph, kind="g"); q("xgraph", lambda: m.exo_graph, kind="g")
            if not large and rng.random() < .15:
                dd = lambda: DataDepAnalysis(g, pd.DataFrame({nm(x): [0] for x in nodes}))
                q("rel", lambda: dd().expectation_relevant_vars(nm(v)), v=v)
                q("dcon", lambda: dd().posterior_relevant_vars(nm(v), [nm(x) for x in zv]), v=v, Z=zv)
        self.rec.ev("gra", nodes=nodes, edges=edges, endo=en, qs=qs, an=ids(w, g.nodes), ae=eids(w, g.edges), err=err or err2)

    def order(self, nodes, edges, S, heur, sizes):
        rng, w = self.rng, self.w
        g = self.graph(nodes, edges)
        arg = [w.name(v) for v in S]; rng.shuffle(arg)
        keep = list(arg)
        sz = {w.name(v): s for v, s in sizes}
        fn = {"fill": min_fill_heuristic, "size": min_size_heuristic, "weight": min_weight_heuristic}[heur]
        if rng.random() < .3: fn = heuristic_functions[{"fill": Heuristic.MIN_FILL, "size": Heuristic.MIN_SIZE, "weight": Heuristic.MIN_WEIGHT}[heur].name]
        if heur == "weight" or rng.random() < .5:
            r, err = call(lambda: list(fn(g, to_remove=arg, varsizes=sz)))
        else:
            r, err = call(lambda: list(fn(g, arg)))
        self.rec.ev("ord", nodes=nodes, edges=edges, S=S, heur=heur, sz=sizes, r=ids(w, r) if err == "" else [], err=err,
                    same=arg == keep and sz == {w.name(v): s for v, s in sizes}, an=ids(w, g.nodes), ae=eids(w, g.edges))


def graph_world(rng, n):
    names = rng.sample(NAMES + ["node%d" % i for i in range(10)], n)
    return World(names, [[0, 1]] * n)


def hist_c22(rng, rec, h, tier, gen=None):
    n = gen["n"] if gen else rng.choice([1, 2, 3, 4, 5, 5, 6, 6, 7, 8])
    large = not gen and rng.random() < .02
    if not gen and not large and rng.random() < .07: n = rng.choice([10, 11, 12, 14])
    if large:
        n = rng.choice([20, 70, 110])
        w = World([f"N{i}" for i in range(n)], [["s0", "s1"]] * n)
    else: w = graph_world(rng, n)
    H = GHist(rng, rec, w, h)
    nodes = list(range(1, n + 1))
    for _ in range(1 if gen else rng.randint(1, 3)):
        edges = [list(e) for e in gen["edges"]] if gen else rnd_dag2(rng, nodes, p=rng.choice([.05, .2]) if large else rng.choice([.1, .2, .3]) if n > 9 else None, maxpa=rng.choice([2, 3, 5] + [9] * (n > 9)))
        scm = rng.random() < .6
        endo = sorted({b for a, b in edges} | {v for v in nodes if rng.random() < .2}) or [1]
        H.run_graph(nodes, edges, scm, endo, every=gen is not None, large=large)


def hist_c19(rng, rec, h, tier, gen=None):
    n = gen["n"] if gen else rng.choice([1, 2, 3, 4, 5, 6, 6, 7, 7, 8])
    if not gen and rng.random() < .08: n = rng.choice([9, 10, 12])
    w = graph_world(rng, n)
    H = GHist(rng, rec, w, h)
    nodes = list(range(1, n + 1))
    edges = [list(e) for e in gen["edges"]] if gen else rnd_dag2(rng, nodes, p=rng.choice([.25, .4, .6]) if n < 9 else .2, maxpa=rng.choice([2, 3, 5]))
    if gen:      # every set to remove
        for S in [[x for i, x in enumerate(nodes) if k >> i & 1] for k in range(2 ** n)]:
            for heur in ("fill", "size", "weight"): H.order(nodes, edges, S, heur, [[v, rng.choice([1, 2, 2, 3, 4, 5])] for v in nodes])
        return
    for heur in ("fill", "size", "weight"):
        for _ in range(2):
            S = [v for v in nodes if rng.random() < rng.choice([.4, .8, 1])]
            sizes = [[v, rng.choice([1, 2, 2, 3, 4, 5])] for v in nodes]
            if n <= 8 and rng.random() < .2:      # large ones (their product below 2^30)
                big = rng.choice([(1000, 3), (36, 5), (13, 8)])
                for i in rng.sample(range(n), min(n, big[1])): sizes[i][1] = rng.choice([big[0], big[0] - 1, big[0] // 2])
                while math.prod(s for _, s in sizes) >= 2 ** 30: sizes[rng.randrange(n)][1] = 2
            H.order(nodes, edges, S, heur, sizes)


def dep_world(rng, n):
    names = rng.sample(NAMES, n)
    return World(names, [labels_for(rng, nm, rng.choice([2, 2, 3])) for nm in names])


def missing_frame(rng, w, cols, rows):
    """DataFrame with missing cells (state 0), in random order of columns"""
    cs = list(range(len(cols))); rng.shuffle(cs)
    hole = rng.choice([None, float("nan")])
    df = pd.DataFrame({w.name(cols[i]): [w.lab(cols[i], r[i]) if r[i] else hole for r in rows] for i in cs})
    if rng.random() < .3: df.index = rng.sample(range(5000), len(rows))
    return df


def deps(H, nodes, edges, cols, rows, targets):
    rng, w, rec = H.rng, H.w, H.rec
    g = H.graph(nodes, edges)
    df = missing_frame(rng, w, cols, rows)
    keep = df.copy(deep=True)
    D, err0 = call(lambda: DataDepAnalysis(g, df))
    qs = []
    for v in targets:
        Z = [x for x in nodes if x != v and rng.random() < .5]

        def go():
            b = D.get_minimal_obs_blanket(w.name(v))
            return [[[w.vid(k), w.sid(w.vid(k), s)] for k, s in o.items()] for o in b], \
                ids(w, D.expectation_relevant_vars(w.name(v))), ids(w, D.posterior_relevant_vars(w.name(v), [w.name(x) for x in Z]))
        r, err = call(go)
        b, rel, post = r if err == "" else ([], [], [])
        qs.append(dict(v=v, b=b, rel=rel, Z=Z, post=post, err=err0 or err))
    same, _ = call(lambda: df.equals(keep) and list(df.columns) == list(keep.columns) and set(g.nodes) == {w.name(v) for v in nodes})
    rec.ev("deps", nodes=nodes, edges=edges, cols=cols, rows=rows, qs=qs, same=bool(same) and sorted(eids(w, g.edges)) == sorted(map(list, edges)), err="")


def hist_c24(rng, rec, h, tier):
    n = rng.choice([2, 3, 4, 4, 5, 6])
    w = dep_world(rng, n)
    H = GHist(rng, rec, w, h)
    nodes = list(range(1, n + 1))
    for _ in range(rng.randint(1, 2)):
        edges = rnd_dag2(rng, nodes, p=rng.choice([.3, .5]), maxpa=3)
        # columns that are absent, columns that miss some cells
        cols = [v for v in nodes if rng.random() < rng.choice([.7, 1])] or [1]
        hole = {v: rng.choice([0, 0, .2, .6, 1]) for v in cols}
        rows = [[0 if rng.random() < hole[v] else rng.randint(1, w.card(v)) for v in cols] for _ in range(rng.choice([1, 2, 5, 12]))]
        if rng.random() < .5: rows += [rng.choice(rows) for _ in range(rng.randint(1, 4))]      # repeated rows
        ts = rng.sample(nodes, min(n, 3))
        deps(H, nodes, edges, cols, rows, ts + ([rng.choice(ts)] if rng.random() < .4 else []))


def gen_c24(rng, rec, h, tier, gen):
    """graphs and pairs of rows of MC_Miss: every target"""
    n = gen["n"]
    w = dep_world(rng, n)
    H = GHist(rng, rec, w, h)
    nodes = list(range(1, n + 1))
    for g in gen["data"]:
        rows = [r["r"] for r in g for _ in range(r["c"])]
        deps(H, nodes, [list(e) for e in gen["edges"]], nodes, rows, nodes)
