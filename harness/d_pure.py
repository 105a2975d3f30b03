"""Driver for the absence of side effects (C03): every object that exists is digested before and after every call."""
import hashlib, shutil, tempfile
import math as _m
from core import *
from d_model import *
from d_causal import CHist, rnd_scm_hist, sample_rows
from d_data import digest as _digest
from bcause.inference.causal.elimination import CausalVariableElimination
from bcause.inference.causal.multi import CausalMultiInference
from bcause.inference.probabilistic.datainference import LaplaceInference
from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
from bcause.learning.parameter.gradient import GradientLikelihood
from bcause.learning.aggregator.aggregator import SimpleModelAggregatorEM, SimpleModelAggregatorGD
from bcause.models.transform.combination import fusion_roots
from bcause.factors.imprecise import IntervalProbFactor
from bcause.factors.mulitnomial import random_multinomial, uniform_multinomial, random_deterministic
from bcause.factors.deterministic import canonical_deterministic
from bcause.util.datautils import to_counts, filter_data
import bcause.util.graphutils as gu
from bcause.conversion.pgmpy import toPgmpyBNet, toBCauseBNet


def digest(o):
    try:
        if isinstance(o, IntervalProbFactor):
            return repr([list(o.domain.items()), list(o.left_vars), np.array(o.values, dtype=float).ravel().tolist()])
        return _digest(o)
    except Exception as e:
        return "no digest: " + type(e).__name__


def sha(o): return hashlib.sha1(digest(o).encode()).hexdigest()[:16]


class Pure(CHist):
    """registry of live objects: name -> object"""
    def start(self):
        self.reg = {}
        self.k = 0

    def add(self, kind, o):
        if o is None: return
        self.k += 1
        self.reg[f"{kind} {self.k}"] = o
        if len(self.reg) > 40: self.reg.pop(next(iter(self.reg)))

    def step(self, op, fn, args=(), skip=(), keep=None):
        """fn() with the objects in args (kind, object) handed over; skip: objects the call is meant to change"""
        objs = list(self.reg.items()) + [(f"argument {k}", o) for k, o in args]
        objs = [(k, o) for k, o in objs if not any(o is s for s in skip)]
        before = [sha(o) for _, o in objs]
        r, err = call(fn, 120)
        after = [sha(o) for _, o in objs]
        ds = [[k.split()[0] if not k.startswith("argument") else k, b, a] for (k, _), b, a in zip(objs, before, after)]
        changed = [d for d in ds if d[1] != d[2]]
        # unchanged objects need not be listed one by one: the digests of all of them, before and after
        glob = [["object", hashlib.sha1("".join(before).encode()).hexdigest()[:16], hashlib.sha1("".join(after).encode()).hexdigest()[:16]]]
        self.rec.ev("pure", op=op, ds=glob + changed, n=len(objs), err=err)
        if err == "" and keep: self.add(keep, r)
        return r if err == "" else None


def hist_c03_model(rng, rec, h, tier):
    ne, nn = rng.choice([(1, 1), (1, 2), (2, 2), (2, 3), (3, 3)])
    gd = rng.random() < .5
    w = scm_world(rng, ne, nn, 150, kinds=["str", "str", "int", "bool", "odd"])
    H = Pure(rng, rec, w, h, vt=rng.choice(["numpy", "numpy", "list", "treedict", "numpy1d"]))
    H.start()
    exo, endo, edges = scm_shape(rng, ne, nn, "quasi" if gd else None)
    cast = rng.random() < .75
    pa = {v: [a for a, b in edges if b == v] for v in exo + endo}
    fs = {}
    for v in exo: fs[w.name(v)] = H.cpt(v, [], rng.choice([3, 4, 5]), .1)
    for v in endo: fs[w.name(v)] = H.deteq(v, pa[v])
    if any(H.objs[i - 1] is None for i in fs.values()): return
    factors = {k: H.fac(i) for k, i in fs.items()}
    g = H.graph(exo + endo, edges)
    endl = [w.name(v) for v in endo]
    H.add("graph", g); H.add("dict", factors); H.add("list", endl)
    for f in factors.values(): H.add("factor", f)
    mk = (lambda: SCM(g, factors, endogenous=endl, cast_multinomial=cast)) if rng.random() < .5 else \
         (lambda: SCM(g, list(factors.values()), endl, cast))
    m = H.step("SCM", mk, keep="model")
    if m is None: return
    b = H.step("to_bnet", lambda: m.to_bnet(), keep="model")
    mm = H.step("to_multinomial", lambda: m.to_multinomial(), keep="model")
    if b is None or mm is None: return
    x = H.put(mm, dict(model=True))
    asg = [r for r in (H.rnd_assignment(x) for _ in range(rng.choice([4, 12]))) if r]
    rows = [dict((w.name(v), w.lab(v, s)) for v, s in a) for a in asg]
    df = pd.DataFrame([{w.name(v): r[w.name(v)] for v in rng.sample(endo, len(endo))} for r in rows])
    if df.empty: return
    if rng.random() < .4: df.index = rng.sample(range(1000), len(df))
    full = pd.DataFrame(rows)
    H.add("data", df); H.add("data", full); H.add("list", rows)
    doms = {k: list(v) for k, v in mm.domains.items()}
    H.add("dict", doms)
    names = lambda vs: [w.name(v) for v in vs]
    tmp = tempfile.mkdtemp(prefix="verif_pure_")
    pool = [m, mm]
    try:
        for _ in range(rng.randint(5, 9)): pure_call(H, rng, w, m, mm, b, pool, exo, endo, edges, df, full, rows, doms, g, names, gd, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def pure_call(H, rng, w, m, mm, b, pool, exo, endo, edges, df, full, rows, doms, g, names, gd, tmp):
    row = rng.choice(rows)
    ns = exo + endo
    z = rng.choice(pool)          # some causal model
    cm = rng.choice([mm, b])
    vs = ns[:]; rng.shuffle(vs)
    T = names(vs[:rng.choice([1, 2])])
    rest = vs[len(T):]
    evv = rest[:rng.choice([0, 1, 2])]
    ev = {w.name(v): row[w.name(v)] for v in evv}
    cond = names([v for v in rest if v not in evv][:1])
    tset = rng.choice([list, set])(T)
    dov = [v for v in endo if w.name(v) not in T and v not in evv][:rng.choice([1, 2])]
    do = {w.name(v): w.lab(v, rng.randint(1, w.card(v))) for v in dov}
    endoT = names(rng.sample(endo, 1))
    k = rng.randrange(30)
    if k == 0: 
        c = H.step("copy", lambda: z.copy(), keep="model")
        if c is not None and isinstance(c, SCM): pool.append(c)
    elif k == 1:
        mp = {w.name(v): f"N{i}x" for i, v in enumerate(rng.sample(ns, rng.randint(1, len(ns))))}
        H.step("rename", lambda: z.rename_vars(mp), [("mapping", mp)], keep="model")
    elif k == 2:
        keep = set()
        for v in rng.sample(ns, rng.randint(1, len(ns))): keep |= {w.name(v)} | nx.ancestors(g, w.name(v))
        l = list(keep)
        H.step("submodel", lambda: z.submodel(l), [("nodes", l)], keep="model")
    elif k == 3 and do:
        r = H.step("intervention", lambda: z.intervention(**do), [("do", do)], keep="model")
    elif k == 4: H.step("to_bnet", lambda: z.to_bnet(), keep="model")
    elif k == 5: H.step("conversion", rng.choice([lambda: causal_to_bnet(mm), lambda: bnet_to_causal(b), lambda: SCM.from_model(b)]), keep="model")
    elif k == 6: H.step("pgmpy", lambda: toBCauseBNet(toPgmpyBNet(b)), keep="model")
    elif k == 7: H.step("minimalize", lambda: minimalize(cm, tset, ev), [("target", tset), ("evidence", ev)], keep="model")
    elif k in (8, 9):
        def q():
            return VariableElimination(cm, pick_heuristic(rng)).query(tset, conditioning=cond or None, evidence=ev)
        H.step("query", q, [("target", tset), ("evidence", ev), ("conditioning", cond)], keep="factor")
    elif k in (10, 11) and do:
        tg = [t for t in endoT if t not in do]
        e2 = {a: s for a, s in ev.items() if a not in do and a not in tg}
        if tg: H.step("causal query", lambda: CausalVariableElimination(mm).causal_query(tg, do, e2), [("target", tg), ("do", do), ("evidence", e2)], keep="factor")
    elif k in (12, 13) and do:
        tg = endoT * 2; sub = [1, 2]
        dos = [do, {a: w.lab(w.vid(a), 1) for a in do}]
        e2 = {w.name(v): row[w.name(v)] for v in rng.sample(endo, 1)}
        H.step("counterfactual query", lambda: CausalVariableElimination(mm).counterfactual_query(tg, dos, e2, sub),
               [("target", tg), ("do", dos), ("evidence", e2), ("subgraphs", sub)], keep="factor")
    elif k == 14:
        l1, l2 = [mm, mm.copy()], [mm.copy()]
        tg = [t for t in endoT if t not in do]

        def q():
            s = CausalMultiInference(l1); s.add_models(l2)
            if tg and do: return s.causal_query(tg, do)
        H.step("multi query", q, [("models", l1), ("more models", l2), ("target", tg), ("do", do)], keep="interval")
    elif k == 15:
        H.step("laplace", lambda: LaplaceInference(full, doms).query(tset, conditioning=cond or None, evidence=ev),
               [("target", tset), ("evidence", ev), ("conditioning", cond)], keep="factor")
    elif k == 16:
        d = {v: doms[v] for v in T}
        holes = full.copy()          # missing cells have their own state, which the given domains do not get
        if rng.random() < .7:
            for v in T:
                if all(isinstance(s, str) for s in d[v]): holes[v] = [None if rng.random() < .4 else s for s in full[v]]
        H.add("data", holes)
        H.step("to_counts", lambda: to_counts(d, holes, normalize=rng.random() < .5), [("domains", d)], keep="factor")
    elif k == 17: H.step("filter_data", lambda: filter_data(full, ev), [("evidence", ev)], keep="data")
    elif k == 18:
        st = mm.randomize_factors(mm.exogenous, allow_zero=False)
        H.add("model", st)
        tv = names(exo) if rng.random() < .5 else None

        def learn():
            e = ExpectationMaximization(st, trainable_vars=tv)
            e.run(df, max_iter=rng.choice([1, 2, 3]))
            if rng.random() < .3: e.run(df, max_iter=1)
            return e.model
        H.step("EM", learn, [("trainable", tv)], keep="model")
    elif k == 19 and gd and mm.factors[w.name(exo[0])].vtype in ("numpy", "list"):
        st = mm.randomize_factors(mm.exogenous, allow_zero=False)
        H.add("model", st)
        tv = names(exo)

        def learn():
            e = GradientLikelihood(st, trainable_vars=tv)
            e.run(df, max_iter=3)
            return e.model
        H.step("gradient", learn, [("trainable", tv)], keep="model")
    elif k == 20:
        tv = names(exo)
        par = rng.random() < .3

        def agg():
            a = SimpleModelAggregatorEM(mm, df, trainable_vars=tv, max_iter=1, parallel=par)
            a.run(2)
            return a.models[0]
        H.step("aggregator", agg, [("trainable", tv)], keep="model")
    elif k == 21:
        H.step("sample", rng.choice([lambda: mm.sample(4), lambda: mm.sampleEndogenous(3), lambda: mm.sample(3, as_pandas=False), lambda: b.sample(3)]), keep="data")
    elif k == 22:
        v = rng.choice(endo)
        obs = [{w.name(p): r[w.name(p)] for p in ns if p != v} for r in rows[:3]]
        H.step("sample_conditional", lambda: mm.factors[w.name(v)].sample_conditional(obs), [("observations", obs)], keep="list")
    elif k == 23:
        fmt = rng.choice(["uai", "uai", "bif", "xmlbif"]) if rng.random() < .7 else "uai"
        o = names(vs)
        kw = dict(var_order=o) if fmt == "uai" and rng.random() < .5 else {}
        H.step("save " + fmt, lambda: rng.choice([m, mm, b]).save(os.path.join(tmp, "m." + fmt), **kw), [("order", o)])
    elif k == 24:
        H.step("q", rng.choice([lambda: mm.get_qbnet(), lambda: mm.get_qbnet(df), lambda: mm.log_likelihood(df), lambda: mm.max_log_likelihood(df),
                                lambda: [mm.ccomponents, mm.endo_ccomponents, mm.exo_ccomponents, mm.get_ccomponent(w.name(vs[0])), mm.qgraph]]))
    elif k == 25:
        l = names(vs[:2])
        H.step("graph", rng.choice([lambda: gu.remove_outgoing_edges(g, l), lambda: gu.remove_ingoing_edges(g, l), lambda: gu.remove_nodes(g, l),
                                    lambda: gu.barren_removal(g, l), lambda: gu.dsep_nodes(g, T, [a for a in l if a not in T]), lambda: gu.markov_blanket(g, l[0], l[1:]),
                                    lambda: gu.disconnected_nodes(g, l), lambda: gu.dag2str(g), lambda: mm.markov_blanket(l[0]),
                                    lambda: min_fill_heuristic(g, l), lambda: min_weight_heuristic(g, l, varsizes=mm.varsizes), lambda: min_size_heuristic(g, l)]),
               [("nodes", l)], keep="graph")
    elif k == 26:
        c = rng.choice([m, mm]).copy()          # a copy is then changed: nothing else may change
        H.add("model", c)
        u = [w.name(rng.choice(exo))]
        kk = rng.random()
        if kk < .4: H.step("randomize in place", lambda: c.randomize_factors(u, in_place=True), [("variables", u)], skip=[c])
        elif kk < .7:
            f = random_multinomial({u[0]: list(doms[u[0]])})
            H.step("set_factor", lambda: c.set_factor(u[0], f), [("factor", f)], skip=[c])
        else: H.step("randomize", lambda: c.randomize_factors(u), [("variables", u)], keep="model")
    elif k == 27:
        d = {v: list(doms[v]) for v in T}
        r = [T[0]] if len(T) > 1 else []
        H.step("generators", rng.choice([lambda: random_multinomial(d, r), lambda: uniform_multinomial(d, r), lambda: random_deterministic(d, T[1:])]), [("domain", d), ("right", r)], keep="factor")
    elif k == 28:
        v = rng.choice(endo)
        ps = [a for a, c in edges if c == v]
        f = mm.factors[w.name(v)]
        cols = names(ps) + [w.name(v)]
        tab = []
        for st in itertools.product(*[doms[c] for c in cols[:-1]]):
            o = dict(zip(cols, st))
            tab.append(list(st) + [next(s for s in doms[cols[-1]] if f.get_value(**{**o, cols[-1]: s}) > .5)])
        rng.shuffle(tab)
        t = pd.DataFrame(tab, columns=cols)
        H.step("from_data_frame", lambda: DeterministicFactor.from_data_frame(t, doms, w.name(v)), [("table", t)], keep="factor")
        fd = call(lambda: f.to_deterministic())[0]
        if fd is not None:
            H.add("factor", fd)
            H.step("equations", rng.choice([lambda: fd.to_multinomial(), lambda: f.to_deterministic(), lambda: fd.constant(doms[w.name(v)][0]), lambda: fd.values_array(), lambda: f.constant(doms[w.name(v)][0])]), keep="factor")
    elif k == 29:
        v = rng.choice(ns)
        l = [mm.factors[w.name(v)], mm.randomize_factors([w.name(v)]).factors[w.name(v)] if v in exo else mm.factors[w.name(v)]]
        H.step("interval", lambda: IntervalProbFactor.from_precise(l), [("factors", l)], keep="interval")
        mods = [mm, mm.rename_vars({w.name(a): w.name(a) + "_c" for a in endo})]
        on = names(exo)
        H.step("fusion_roots", lambda: fusion_roots(mods, on=on, endogenous=mods[0].endogenous + mods[1].endogenous), [("models", mods), ("on", on)], keep="model")
