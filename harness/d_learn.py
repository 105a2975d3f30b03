"""Drivers for parameter learning (C12, C20) and aggregators (C14)."""
import time, threading
from core import *
from d_model import *
from d_causal import CHist, rnd_scm_hist, sample_rows, gen_scm
from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
from bcause.learning.parameter.gradient import GradientLikelihood
from bcause.learning.aggregator.aggregator import SimpleModelAggregatorEM, SimpleModelAggregatorGD


class LHist(CHist):
    def table_of(self, obsv, rows, extra=0):
        """DataFrame over the observed variables, random order of columns and rows"""
        w, rng = self.w, self.rng
        rs = rows[:]
        rng.shuffle(rs)
        hole = rng.choice([None, float("nan")])      # state 0: missing cell
        df = pd.DataFrame({w.name(v): [w.lab(v, r[i]) if r[i] else hole for r in rs] for i, v in enumerate(obsv)})
        names = list(df.columns); rng.shuffle(names)
        df = df[names]
        if rng.random() < .3: df.index = rng.sample(range(5000), len(rs))
        return df

    @staticmethod
    def distinct(rows):
        out = {}
        for r in rows: out[tuple(r)] = out.get(tuple(r), 0) + 1
        return [[list(r), c] for r, c in sorted(out.items())]

    def em(self, x, train, obsv, rows, maxit, learner=None, manual=False, give=True, dump=None):
        """one run of EM; returns the learner"""
        w = self.w
        m = self.fac(x)
        df = self.table_of(obsv, rows)
        L = learner

        def go():
            nonlocal L
            if L is None: L = ExpectationMaximization(m, trainable_vars=[w.name(v) for v in train] if give else None)
            if manual:
                L.initialize(df)
                for _ in range(maxit): L.step()
            elif maxit < 0: L.run(df)
            else: L.run(df, max_iter=maxit)
            return [mproj(w, k) for k in L.model_evolution], mproj(w, L.model)
        r, err = call(go, 120)
        evo, fin = r if err == "" else ([], MEMPTY)
        if len(evo) > 60: evo = evo[:60]; fin = evo[-1]
        self.rec.ev("em", x=x, train=sorted(train), obsv=obsv, rows=self.distinct(rows), maxit=-1 if manual else maxit, evo=evo, fin=fin, err=err, own=True)
        return L if err == "" else None

    def grad(self, x, train, obsv, rows, ok=True, give=True, extra=None, maxit=None, learner=None):
        w = self.w
        m = self.fac(x)
        df = self.table_of(obsv, rows)
        if extra is not None: df[w.name(extra)] = [w.lab(extra, 1)] * len(df)
        L = learner

        def go():
            nonlocal L
            if L is None: L = GradientLikelihood(m, trainable_vars=[w.name(v) for v in train] if give else None, tol=1e-8)
            if maxit is None: L.run(df)
            else: L.run(df, max_iter=maxit)
            return mproj(w, L.model)
        fin, err = call(go, 120)
        self.rec.ev("grad", x=x, train=sorted(train), obsv=obsv, rows=self.distinct(rows), ok=ok, full=maxit is None, fin=fin if err == "" else MEMPTY, err=err)
        return L


def latent_bn(rng, rec, h):
    """Bayesian network with latent roots, the other variables are observed"""
    n = rng.choice([2, 3, 4, 4])
    w = small_world(rng, n, 100, cards=(2, 2, 3))
    H = LHist(rng, rec, w, h)
    nodes = list(range(1, n + 1))
    while True:
        edges = rnd_dag2(rng, nodes, p=.6)
        roots = [v for v in nodes if not any(b == v for a, b in edges)]
        lat = [v for v in roots if rng.random() < .7] or roots[:1]
        obs = [v for v in nodes if v not in lat]
        if obs and all(any(a == v for a, b in edges) for v in lat): break
    x = H.rnd_bn(nodes, edges, j=False, zero=0)
    return H, x, lat, obs


def hist_c12(rng, rec, h, tier):
    if rng.random() < .7:
        ne, nn = rng.choice([(1, 1), (1, 2), (2, 2), (2, 3), (1, 3), (3, 3)])
        w = scm_world(rng, ne, nn, 200)
        H = LHist(rng, rec, w, h)
        exo, endo, edges = scm_shape(rng, ne, nn)
        x = H.rnd_scm(exo, endo, edges, cast=True, zero=rng.choice([0, 0, .15]), xx=False)
        lat, obs = exo, endo
    else:
        H, x, lat, obs = latent_bn(rng, rec, h)
    if H.objs[x - 1] is None: return
    train = lat[:]
    # all hidden variables are trainable by default; a subset may be chosen
    give = rng.random() < .5
    if give and len(lat) > 1 and rng.random() < .4: train = rng.sample(lat, rng.randint(1, len(lat) - 1))
    obs = sorted(obs)
    L = None
    for k in range(rng.choice([1, 1, 2, 3])):
        seen, tr = obs, train
        if not give and len(lat) > 1 and rng.random() < .35:       # some of the parentless variables are recorded this time
            tr = rng.sample(lat, rng.randint(1, len(lat) - 1))
            seen = sorted(obs + [v for v in lat if v not in tr])
        rows = sample_rows(H, x, seen, rng.choice([1, 3, 8, 20, 40]))
        if not rows: return
        manual = rng.random() < .2
        maxit = rng.choice([0, 1, 1, 2, 3, 4]) if rng.random() < .9 else 8
        if maxit == 0 and manual: maxit = 1
        L2 = H.em(x, tr, seen, rows, maxit, learner=L if rng.random() < .7 else None, manual=manual, give=give)
        if L2 is None: return
        L = L2
    H.magain(x)


def gen_c12(rng, rec, h, tier, gen):
    """models of MC_EM with the datasets they can produce"""
    H, x, exo, endo, edges = gen_scm(rng, rec, h, gen, cast=True, cls=LHist, xx=False)
    if H.objs[x - 1] is None: return
    L = None
    for g in gen["data"]:
        rows = [r["r"] for r in g for _ in range(r["c"])]
        L = H.em(x, exo, gen["obs"], rows, rng.choice([1, 2, 2, 3]), learner=L if rng.random() < .5 else None, manual=rng.random() < .2, give=rng.random() < .5)
        if L is None: return
    H.magain(x)


def hist_c12_miss(rng, rec, h, tier):
    """any cell may be missing, any variable may be trainable"""
    if rng.random() < .4:
        ne, nn = rng.choice([(1, 1), (1, 2), (2, 2), (1, 3), (2, 1)])
        w = scm_world(rng, ne, nn, 200)
        H = LHist(rng, rec, w, h)
        exo, endo, edges = scm_shape(rng, ne, nn)
        x = H.rnd_scm(exo, endo, edges, cast=True, zero=rng.choice([0, 0, .15]), xx=False)
        nodes, lat = exo + endo, exo
    else:
        n = rng.choice([1, 2, 3, 3, 4])
        w = small_world(rng, n, 60, cards=(2, 2, 3))
        H = LHist(rng, rec, w, h)
        nodes, lat = list(range(1, n + 1)), []
        edges = rnd_dag2(rng, nodes, p=.6)
        x = H.rnd_bn(nodes, edges, j=False, zero=rng.choice([0, 0, .2]))
    if H.objs[x - 1] is None: return
    L, give = None, rng.random() < .5
    fixed = rng.sample(nodes, rng.randint(1, len(nodes))) if rng.random() < .6 else (lat or nodes[:1])
    for k in range(rng.choice([1, 1, 2])):
        cols = sorted(v for v in nodes if rng.random() < (.3 if v in lat else .85))
        if not cols: cols = [rng.choice(nodes)]
        rows = sample_rows(H, x, cols, rng.choice([1, 2, 4, 8, 15]))
        if not rows: return
        hole = [rng.choice([0, .2, .5]) for v in cols]
        rows = [[0 if rng.random() < hole[i] else s for i, s in enumerate(r)] for r in rows]
        if rng.random() < .3: rows += [rng.choice(rows) for _ in range(3)]
        miss = [v for v in nodes if v not in cols or any(r[cols.index(v)] == 0 for r in rows)]
        train = fixed if give else miss
        if not train: give, train, L = True, fixed, None
        manual = rng.random() < .2
        L = H.em(x, train, cols, rows, rng.choice([1, 1, 2, 3]), learner=L if rng.random() < .5 else None, manual=manual, give=give)
        if L is None: return
    H.magain(x)


def gen_c12_miss(rng, rec, h, tier, gen):
    """graphs and pairs of rows of MC_Miss"""
    n = gen["n"]
    w = World(rng.sample(NAMES, n), [labels_for(rng, "v", 2) for _ in range(n)])
    H = LHist(rng, rec, w, h)
    nodes = list(range(1, n + 1))
    x = H.rnd_bn(nodes, [list(e) for e in gen["edges"]], j=False, zero=0)
    if H.objs[x - 1] is None: return
    for g in gen["data"]:
        rows = [r["r"] for r in g for _ in range(r["c"])]
        train = [v for v in nodes if any(r[v - 1] == 0 for r in rows)]
        if H.em(x, train, nodes, rows, 1, give=rng.random() < .5) is None: return
    H.magain(x)


def gen_c20(rng, rec, h, tier, gen):
    H, x, exo, endo, edges = gen_scm(rng, rec, h, gen, cast=True, cls=LHist, xx=False)
    if H.objs[x - 1] is None: return
    for g in gen["data"]:
        rows = [r["r"] for r in g for _ in range(r["c"])]
        H.grad(x, exo, gen["obs"], rows, give=rng.random() < .5, maxit=rng.choice([None, None, 20]))
    H.magain(x)


def quasi_wide(rng, rec, h):
    """one exogenous variable whose children have many other endogenous parents"""
    nn = rng.choice([4, 5, 5, 6])
    k = rng.choice([1, 1, 2])
    order = list(range(2, nn + 2)); rng.shuffle(order)
    top, kids = order[:nn - k], order[nn - k:]
    edges = [[1, v] for v in kids]
    exo = [1]
    for v in kids:
        pa = rng.sample(top, rng.randint(2, len(top)))
        edges += [[p, v] for p in pa]
    if k == 2 and rng.random() < .5: edges.append(kids)
    # the others: one more exogenous variable for all of them, none for some
    exo.append(nn + 2)
    ch = [v for v in top if rng.random() < .7] or top[:1]
    edges += [[nn + 2, v] for v in ch]
    for i, v in enumerate(top): edges += [[p, v] for p in top[:i] if rng.random() < .2]
    names = rng.sample(NAMES, nn + 2)
    w = World(names, [labels_for(rng, nm, rng.choice([3, 4]) if i + 1 in exo else 2) for i, nm in enumerate(names)])
    H = LHist(rng, rec, w, h, vt="numpy")
    rng.shuffle(edges)
    endo = sorted(order)
    return H, H.rnd_scm(exo, endo, edges, cast=True, zero=0, xx=False), exo, endo, edges


def hist_c20(rng, rec, h, tier):
    if rng.random() < .15: H, x, exo, endo, edges = quasi_wide(rng, rec, h)
    else:
        ne, nn = rng.choice([(1, 1), (1, 2), (2, 2), (2, 3), (3, 3), (2, 2)])
        w = scm_world(rng, ne, nn, 200, xcards=(2, 3, 4, 4))
        H = LHist(rng, rec, w, h, vt=rng.choice(["numpy", "numpy", "list"]))
        exo, endo, edges = scm_shape(rng, ne, nn, "quasi")
        x = H.rnd_scm(exo, endo, edges, cast=True, zero=rng.choice([0, 0, .1]), xx=False)
    if H.objs[x - 1] is None: return
    obs = sorted(endo)
    L = None
    for _ in range(rng.choice([1, 1, 2])):
        rows = sample_rows(H, x, obs, rng.choice([4, 10, 30, 50]))
        if not rows: return
        give = rng.random() < .5
        train = exo[:]
        if give and len(exo) > 1 and rng.random() < .4: train = rng.sample(exo, rng.randint(1, len(exo) - 1))
        seen = obs
        if not give and len(exo) > 1 and rng.random() < .25:       # data that record an exogenous variable: it is not trained
            u = rng.choice(exo)
            train = [v for v in exo if v != u]
            seen = sorted(obs + [u])
            rows = sample_rows(H, x, seen, len(rows)) or rows
        L2 = H.grad(x, train, seen, rows, give=give, maxit=rng.choice([None, None, None, 3, 20]), learner=L if not give and rng.random() < .5 else None)
        if not give: L = L2
    if rng.random() < .3:
        rows = sample_rows(H, x, obs, 4)
        if rng.random() < .5: H.grad(x, [rng.choice(endo)], obs, rows, ok=False)
        else: H.grad(x, [exo[0]], obs, rows, ok=False, extra=exo[0])
    H.magain(x)


class Sched(SCM):
    """structural causal model whose randomisation takes a prescribed time: forces completion orders of parallel runs"""
    delays, lock, count = [], threading.Lock(), 0

    def randomize_factors(self, variables, in_place=False, allow_zero=True):
        with Sched.lock:
            k = Sched.count; Sched.count += 1
        r = super().randomize_factors(variables, in_place=in_place, allow_zero=allow_zero)
        if Sched.delays: time.sleep(Sched.delays[k % len(Sched.delays)])
        return r


def hist_c14(rng, rec, h, tier, gen=None):
    kind = "em" if rng.random() < .7 else "gd"
    ne, nn = rng.choice([(1, 1), (1, 2), (2, 2), (2, 3)])
    w = scm_world(rng, ne, nn, 120)
    H = LHist(rng, rec, w, h, vt="numpy")
    exo, endo, edges = scm_shape(rng, ne, nn, "quasi" if kind == "gd" else None)
    x = H.rnd_scm(exo, endo, edges, cast=True, zero=0, xx=False)
    if H.objs[x - 1] is None: return
    obs = sorted(endo)
    rows = sample_rows(H, x, obs, rng.choice([5, 15, 30]))
    if kind == "em" and rng.random() < .25:      # missing cells
        p = rng.choice([.1, .3])
        rows = [[0 if rng.random() < p else s for s in r] for r in rows]
    m0 = H.fac(x)
    m = Sched(m0.graph, m0.factors, endogenous=list(m0.endogenous))
    df = H.table_of(obs, rows)
    train = exo[:]
    tv = None
    if len(exo) > 1 and rng.random() < .3:
        train = rng.sample(exo, 1); tv = [w.name(v) for v in train]
    # without explicit trainable variables all exogenous ones are trained
    par = gen["par"] if gen is not None else rng.random() < .6
    maxit = rng.choice([1, 2, 3])
    mk = (lambda: SimpleModelAggregatorEM(m, df, trainable_vars=tv, max_iter=maxit, parallel=par)) if kind == "em" else \
         (lambda: SimpleModelAggregatorGD(m, df, 1e-3, 5, trainable_vars=tv, parallel=par))
    ag, err = call(mk)
    rec.ev("mkagg", x=x, err=err)
    a = H.put(ag, dict(agg=True))
    if err: return
    reqs = gen["reqs"] if gen is not None else [dict(n=rng.choice([1, 1, 2, 3, 4]), order=None) for _ in range(rng.choice([1, 2, 3]))]
    if gen is None and rng.random() < .15: reqs.insert(rng.randrange(len(reqs) + 1), dict(n=0, order=None))
    done = 0
    for rq in reqs:
        n = rq["n"]
        if done and (rq.get("reset") if gen is not None else rng.random() < .2):
            _, err = call(lambda: ag.reset())
            rec.ev("aggreset", x=a, err=err, nm=len(ag.models), nl=len(ag.learn_objects))
            done = 0
            if gen is not None: continue
        elif gen is not None and rq["reset"]: continue
        order = [rq["order"].index(i + 1) for i in range(n)] if rq["order"] else [rng.randrange(4) for _ in range(max(1, n))]
        Sched.delays = [.012 * o for o in order] if par else []
        Sched.count = 0
        _, err = call(lambda: ag.run(n), 120)

        def look():
            ms, ls = list(ag.models), list(ag.learn_objects)
            return ([mproj(w, k) for k in ms], [mproj(w, l.model) for l in ls], [id(k) for k in ms],
                    [[mproj(w, k) for k in l.model_evolution] for l in ls[done:]])
        r, perr = call(look)
        ms, ls, ids, evos = r if perr == "" else ([], [], [], [])
        rec.ev("aggrun", x=a, n=n, train=sorted(train), obsv=obs, rows=H.distinct(rows), maxit=maxit, models=ms, learned=ls,
               ids=[sorted(set(ids)).index(i) for i in ids], evos=evos, em=kind == "em", err=err, own=False, evo=[], fin=MEMPTY)
        done = len(ms)
    H.magain(x)
