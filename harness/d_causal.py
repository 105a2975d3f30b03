"""Drivers for causal inference (C09, C10, C11) and for inference engines with their state (C21)."""
from core import *
from d_model import *
from bcause.inference.causal.elimination import CausalVariableElimination
from bcause.inference.probabilistic.elimination import VariableElimination


class CfWorld:
    """names of the hypothetical copies: X_k has id x + 100 k"""
    def __init__(self, w, n):
        self.w = w
        self.map = dict(w.ids)
        for k in range(1, n + 1):
            for v, i in w.ids.items(): self.map[f"{v}_{k}"] = i + 100 * k

    def vid(self, name): return self.map.get(name, 0)
    def sid(self, v, label): return self.w.sid(v % 100, label)


def code_of(w, v, s):
    """how a label reads as truth value: 1 true, 0 false, 2 second, -1 unknown"""
    lab, name = w.lab(v, s), w.name(v)
    types = {type(x) for x in w.labels[v - 1]}
    if len(types) != 1: return -1
    if isinstance(lab, (bool, int, float)): return 1 if lab == 1 else 0 if lab == 0 else -1
    return {name.lower() + "1": 1, name.lower() + "0": 0, name.lower() + "2": 2}.get(str(lab).lower(), -1)


def Q(kind, T=(), C=(), ev=(), do=(), dos=(), tg=()):
    return dict(kind=kind, T=list(T), C=list(C), ev=list(ev), do=list(do), dos=list(dos), tg=list(tg))


class CHist(MHist):
    def engine(self, x, heur=None, kind="c"):
        m = self.fac(x)
        return CausalVariableElimination(m, heur) if kind == "c" else VariableElimination(m, heur)

    def world_of(self, q):
        return CfWorld(self.w, len(q["dos"])) if q["kind"] == "cf" else self.w

    def args(self, q):
        """how a user writes the query"""
        w, rng = self.w, self.rng
        asg = lambda ps: {w.name(v): w.lab(v, s) for v, s in ps}
        ev = asg(q["ev"])
        if not ev and rng.random() < .5: ev = None
        if q["kind"] == "prob":
            return dict(target=self.target(q["T"]), conditioning=self.target(q["C"]) if q["C"] else None, evidence=ev)
        if q["kind"] == "causal":
            return dict(target=self.target(q["T"]), do=asg(q["do"]), evidence=ev)
        dos = [asg(d) for d in q["dos"]]
        tg = [w.name(v) for v, _ in q["tg"]]
        sub = [k for _, k in q["tg"]]
        if len(dos) == 1 and rng.random() < .6: dos = dos[0]
        if all(k == 1 for k in sub) and rng.random() < .6: sub = None
        if len(tg) == 1 and rng.random() < .5: tg = tg[0]
        return dict(target=tg, do=dos, evidence=ev, targets_subgraphs=sub)

    def ask(self, eng, q):
        a = self.args(q)
        if q["kind"] == "prob": return lambda: eng.query(**a)
        if q["kind"] == "causal":
            return (lambda: eng.causal_query(**a)) if self.rng.random() < .6 else (lambda: eng.query(**a))
        return (lambda: eng.counterfactual_query(**a)) if self.rng.random() < .6 else (lambda: eng.query(counterfactual=True, **a))

    def cquery(self, x, q, heur=None, eng=None):
        r, err = call(lambda: self.ask(eng if eng is not None else self.engine(x, heur), q)())
        p, perr = sproj(self.world_of(q), r) if err == "" else (EMPTY, err)
        self.rec.ev("cqry", x=x, q=q, r=p, err=perr)
        return perr

    # ---- random causal queries
    def rnd_causal(self, x, exo, endo):
        rng, w = self.rng, self.w
        pool = endo + (exo if rng.random() < .2 else [])
        ns = pool[:]; rng.shuffle(ns)
        T, rest = ns[:rng.choice([1, 1, 1, 2])], None
        rest = [v for v in ns if v not in T]
        do = [[v, rng.randint(1, w.card(v))] for v in rest[:rng.choice([0, 1, 1, 1, 2])]]
        rest = [v for v in rest if v not in [a for a, _ in do]]
        ev = [[v, rng.randint(1, w.card(v))] for v in rest[:rng.choice([0, 0, 1, 1, 2])]]
        return Q("causal", T=T, do=do, ev=ev)

    def rnd_cf(self, x, exo, endo, nw=None):
        rng, w = self.rng, self.w
        n = nw or rng.choice([1, 1, 1, 2, 2, 3])
        dos = []
        for _ in range(n):
            ns = endo[:]; rng.shuffle(ns)
            dos.append([[v, rng.randint(1, w.card(v))] for v in ns[:rng.choice([0, 1, 1, 1, 2])]])
        tg = []
        for k in range(1, n + 1):
            free = [v for v in endo if v not in [a for a, _ in dos[k - 1]]]
            rng.shuffle(free)
            tg += [[v, k] for v in free[:rng.choice([0, 1, 1, 2])]]
        rng.shuffle(tg)
        tg = tg[:3]
        if not tg:
            tg = [[rng.choice(endo), 1]]
            dos[0] = [p for p in dos[0] if p[0] != tg[0][0]]
        ev = []
        if rng.random() < .7:
            asg = self.rnd_assignment(x)
            if asg:
                pool = [p for p in asg if p[0] in endo or rng.random() < .15]
                rng.shuffle(pool)
                ev = pool[:rng.choice([1, 1, 2, 3])]
        return Q("cf", ev=ev, dos=dos, tg=tg)

    def nec(self, x, kind, c, y, tc=None, ty=None, heur=None):
        w = self.w
        eng_fn = lambda: self.engine(x, heur)
        kw = {}
        if tc: kw["true_false_cause"] = tuple(w.lab(c, s) for s in tc)
        if ty: kw["true_false_effect"] = tuple(w.lab(y, s) for s in ty)
        v, err = call(lambda: getattr(eng_fn(), {"pn": "prob_necessity", "ps": "prob_sufficiency", "pns": "prob_necessity_sufficiency"}[kind])(w.name(c), w.name(y), **kw))
        self.rec.ev("nec", x=x, kind=kind, c=c, y=y, tc=list(tc or []), ty=list(ty or []), err=err, v=enc(v) if err == "" else [1, 0, 0],
                    codc=[code_of(w, c, s) for s in range(1, w.card(c) + 1)], cody=[code_of(w, y, s) for s in range(1, w.card(y) + 1)])

    # ---- structure
    def ccomp(self, x):
        w, m = self.w, self.fac(x)
        ids = lambda s: sorted(w.vid(v) for v in s)

        def go():
            return ([ids(c) for c in m.ccomponents], [ids(c) for c in m.exo_ccomponents], [ids(c) for c in m.endo_ccomponents],
                    [dict(v=w.vid(v), c=ids(m.get_ccomponent(v)), x=ids(m.get_exo_ccomponent(v)), n=ids(m.get_endo_ccomponent(v))) for v in m.variables])
        r, err = call(go)
        cc, ex, en, of = r if err == "" else ([], [], [], [])
        self.rec.ev("ccomp", x=x, cc=cc, ex=ex, en=en, of=of, err=err)

    def frame(self, endo, rows, extra=True):
        """rows over sorted endo -> DataFrame, columns in random order"""
        w, rng = self.w, self.rng
        cols = sorted(endo)
        df = pd.DataFrame({w.name(v): [w.lab(v, r[i]) for r in rows] for i, v in enumerate(cols)})
        names = list(df.columns); rng.shuffle(names)
        df = df[names]
        if rng.random() < .4: df.index = rng.sample(range(1000), len(rows)) if rng.random() < .6 else [rng.randint(0, 3) for _ in rows]
        return df

    def qfac(self, x, endo, rows=None, via="bnet"):
        w, m = self.w, self.fac(x)
        data = self.frame(endo, rows) if rows else None

        def go():
            if via == "bnet":
                b = m.get_qbnet(data)
                g, fs = b.graph, b.factors
            elif via == "fact":
                g, fs = m.qgraph, m.get_qfactorisation(data)
            else:
                g = m.qgraph
                fs = {}
                for v in m.endogenous: fs.update(m.get_qfactors(v, data))
            return ([w.vid(v) for v in g.nodes], [[w.vid(a), w.vid(b)] for a, b in g.edges], [dict(v=w.vid(v), p=proj(w, f)) for v, f in fs.items()])
        r, err = call(go)
        nodes, edges, fac = r if err == "" else ([], [], [])
        self.rec.ev("qfac", x=x, nodes=nodes, edges=edges, fac=fac, rows=rows or [], err=err)

    def lik(self, x, endo, rows, sel=()):
        """log-likelihood of growing data; sel: only the factors of these variables"""
        w, m = self.w, self.fac(x)
        df = self.frame(endo, rows)
        kw = dict(variables=[w.name(v) for v in sel]) if sel else {}

        def go():
            ls = [float(m.log_likelihood(df.iloc[:k], **kw)) for k in range(1, len(rows) + 1)]
            return [enc(math.exp(b - a)) for a, b in zip([0.] + ls, ls)], [[w.vid(a), w.vid(b)] for a, b in m.qgraph.edges]
        r, err = call(go)
        self.rec.ev("lik", x=x, rows=rows, vars=list(sel), inc=r[0] if err == "" else [], edges=r[1] if err == "" else [], err=err)

    def maxlik(self, x, endo, rows, sel=()):
        w, m = self.w, self.fac(x)
        df = self.frame(endo, rows)
        kw = dict(variables=[w.name(v) for v in sel]) if sel else {}
        r, err = call(lambda: (enc(math.exp(float(m.max_log_likelihood(df, **kw)))), [[w.vid(a), w.vid(b)] for a, b in m.qgraph.edges]))
        self.rec.ev("maxlik", x=x, rows=rows, vars=list(sel), v=r[0] if err == "" else [1, 0, 0], edges=r[1] if err == "" else [], err=err)

    # ---- engines
    def mkeng(self, x, kind, heur=None):
        e, err = call(lambda: self.engine(x, heur, kind))
        self.rec.ev("mkeng", x=x, err=err)
        return self.put(e, dict(eng=kind, m=x))

    def eqry(self, e, q):
        eng = self.fac(e)
        r, err = call(lambda: self.ask(eng, q)())
        p, perr = sproj(self.world_of(q), r) if err == "" else (EMPTY, err)
        self.rec.ev("eqry", x=e, q=q, r=p, err=perr)
        return r

    def ecomp(self, e, q):
        eng = self.fac(e)
        a = self.args(q)
        if q["kind"] == "prob": fn = lambda: eng.compile(a["target"], a["evidence"])
        elif q["kind"] == "causal": fn = lambda: eng.compile(a["target"], a["do"], a["evidence"])
        else:
            tg = [f"{self.w.name(v)}_{k}" for v, k in q["tg"]]
            fn = lambda: eng.compile(tg, a["do"], a["evidence"], counterfactual=True)
        _, err = call(fn)
        if self.rng.random() < .4:
            # the caller goes on using its own lists and dictionaries
            dos = a["do"] if isinstance(a.get("do"), list) else []
            for v in dos + list(a.values()) + ([tg] if q["kind"] == "cf" else []):
                if isinstance(v, (list, dict, set)): v.clear()
        self.rec.ev("ecomp", x=e, q=q, err=err)

    def erun(self, e, q):
        """q: the query whose names are used to read the result (the last one compiled)"""
        eng = self.fac(e)
        r, err = call(lambda: eng.run())
        p, perr = sproj(self.world_of(q) if q else self.w, r) if err == "" else (EMPTY, err)
        self.rec.ev("erun", x=e, r=p, err=perr)


def rnd_scm_hist(rng, rec, h, kinds=None, cells=400, sizes=((1, 1), (1, 2), (2, 2), (2, 2), (2, 3), (2, 3), (3, 3), (3, 3), (3, 4), (1, 3), (1, 4), (2, 5), (4, 4)), markov=None, cast=None, zero=.1, vt=None, **kw):
    ne, nn = rng.choice(sizes)
    if cells >= 300 and rng.random() < .08: cells *= 3
    w = scm_world(rng, ne, nn, cells, kinds)
    H = CHist(rng, rec, w, h, vt)
    exo, endo, edges = scm_shape(rng, ne, nn, markov)
    x = H.rnd_scm(exo, endo, edges, cast=(rng.random() < .6) if cast is None else cast, zero=zero, **kw)
    return H, x, exo, endo, edges


def gen_scm(rng, rec, h, gen, cast=None, j=False, cls=CHist, xx=True):
    """the structural causal model of a generated behaviour, with random weights, names, labels and layout"""
    exo, endo = gen["exo"], gen["endo"]
    names = rng.sample(NAMES, len(exo) + len(endo))
    kinds = rng.choice([None, ["str"], ["bool", "int", "str"]])
    w = World(names, [labels_for(rng, nm, gen["cu"] if i + 1 in exo else 2, rng.choice(kinds) if kinds else None) for i, nm in enumerate(names)])
    H = cls(rng, rec, w, h)
    edges = [list(e) for e in gen["edges"]]; rng.shuffle(edges)
    fs = [(u, H.cpt(u, [], rng.choice([3, 4, 5, 10, 12]), 0)) for u in exo]
    for v, out in zip(endo, gen["eqs"]): fs.append((v, H.function(v, sorted(a for a, b in edges if b == v), out)))
    rng.shuffle(fs)
    e = endo[:]; rng.shuffle(e)
    x = H.model(True, exo + endo, edges, fs, endo=e if rng.random() < .5 else None, j=j, xx=xx, cast=(rng.random() < .6) if cast is None else cast)
    return H, x, exo, endo, edges


def some(rng, xs, n):
    return xs if len(xs) <= n else rng.sample(xs, n)


def all_causal(exo, endo):
    """every causal query with at most one intervened variable, one target and one piece of evidence (two states each)"""
    out = []
    for d in [[]] + [[[v, s]] for v in endo for s in (1, 2)]:
        dv = [v for v, _ in d]
        for t in endo + exo:
            if t in dv: continue
            out.append(Q("causal", T=[t], do=d))
            for e in endo:
                if e != t and e not in dv: out += [Q("causal", T=[t], do=d, ev=[[e, s]]) for s in (1, 2)]
    for a, b in itertools.combinations(endo, 2):
        out += [Q("causal", T=[t], do=[[a, s], [b, r]]) for t in endo if t not in (a, b) for s in (1, 2) for r in (1, 2)]
    return out


def all_cf(endo):
    """every counterfactual with one intervened variable, one target and at most two pieces of evidence; and two worlds"""
    evs = [[]] + [[[v, s]] for v in endo for s in (1, 2)] + [[[a, s], [b, r]] for a, b in itertools.combinations(endo, 2) for s in (1, 2) for r in (1, 2)]
    out = []
    for v in endo:
        for s in (1, 2):
            for t in endo:
                if t != v: out += [Q("cf", tg=[[t, 1]], dos=[[[v, s]]], ev=e) for e in evs]
    for v in endo:
        for t in endo:
            if t != v: out += [Q("cf", tg=[[t, 1], [t, 2]], dos=[[[v, 1]], [[v, 2]]], ev=e) for e in evs[:1 + 2 * len(endo)]]
    return out


def gen_c09(rng, rec, h, tier, gen):
    H, x, exo, endo, edges = gen_scm(rng, rec, h, gen)
    if H.objs[x - 1] is None: return
    w = H.w
    for v in endo:
        do = [[v, rng.choice([1, 2])]]
        H.trans(x, "do", do, lambda m: m.intervention(**w.asg(do)), xx=False)
    eng = H.engine(x)
    for q in some(rng, all_causal(exo, endo), 24 if tier == "quick" else 80): H.cquery(x, q, eng=eng if rng.random() < .5 else None)


def gen_c10(rng, rec, h, tier, gen):
    H, x, exo, endo, edges = gen_scm(rng, rec, h, gen)
    if H.objs[x - 1] is None: return
    eng = H.engine(x)
    for q in some(rng, all_cf(endo), 14 if tier == "quick" else 60): H.cquery(x, q, eng=eng if rng.random() < .5 else None)
    for c, y in some(rng, list(itertools.permutations(endo, 2)), 2 if tier == "quick" else 6):
        for kind in ("pn", "ps", "pns"): H.nec(x, kind, c, y, *rng.choice([([1, 2], [1, 2]), ([2, 1], [2, 1]), ([1, 2], [2, 1])]))


def gen_c11(rng, rec, h, tier, gen):
    H, x, exo, endo, edges = gen_scm(rng, rec, h, gen, cast=True)
    if H.objs[x - 1] is None: return
    H.ccomp(x)
    H.qfac(x, endo, None, rng.choice(["bnet", "fact", "each"]))
    rows = sample_rows(H, x, endo, rng.choice([2, 5, 10]))
    if rows:
        H.lik(x, endo, rows[:5])
        H.qfac(x, endo, rows, rng.choice(["bnet", "fact", "each"]))
        H.maxlik(x, endo, rows[:4])


def hist_c09(rng, rec, h, tier):
    H, x, exo, endo, edges = rnd_scm_hist(rng, rec, h)
    if H.objs[x - 1] is None: return
    w = H.w
    cur = x
    for _ in range(rng.randint(1, 3)):
        vs = endo + (exo if rng.random() < .15 else [])
        rng.shuffle(vs)
        do = [[v, rng.randint(1, w.card(v))] for v in vs[:rng.choice([1, 1, 2, 3])]]
        n = H.trans(cur, "do", do, lambda m: m.intervention(**w.asg(do)), xx=True)
        if H.objs[n - 1] is None: break
        if rng.random() < .5: cur = n
    for _ in range(rng.randint(2, 4)):
        y = rng.choice([i + 1 for i, o in enumerate(H.objs) if o is not None and H.meta[i] and H.meta[i].get("model")])
        q = H.rnd_causal(y, exo, endo)
        H.cquery(y, q, pick_heuristic(rng))
    H.magain(x)


def hist_c10(rng, rec, h, tier):
    kinds = rng.choice([None, ["str"], ["bool", "int", "str"]])
    H, x, exo, endo, edges = rnd_scm_hist(rng, rec, h, kinds=kinds, cells=300)
    if H.objs[x - 1] is None: return
    w = H.w
    for _ in range(rng.randint(2, 4)):
        H.cquery(x, H.rnd_cf(x, exo, endo), pick_heuristic(rng))
    for _ in range(rng.randint(1, 3)):
        if len(endo) < 2: break
        c, y = rng.sample(endo, 2)
        tc = ty = None
        auto = all(code_of(w, v, s) in (0, 1, 2) for v in (c, y) for s in range(1, w.card(v) + 1)) and w.card(c) == 2 and w.card(y) == 2
        if not auto and rng.random() < .3:
            # nobody says which states are true and false, and the labels do not tell: refused
            if w.card(c) > 1 and rng.random() < .3: tc = rng.sample(range(1, w.card(c) + 1), 2)
            elif w.card(y) > 1 and rng.random() < .4: ty = rng.sample(range(1, w.card(y) + 1), 2)
        elif not auto or rng.random() < .4:
            if w.card(c) < 2 or w.card(y) < 2: continue
            tc, ty = rng.sample(range(1, w.card(c) + 1), 2), rng.sample(range(1, w.card(y) + 1), 2)
        H.nec(x, rng.choice(["pn", "ps", "pns"]), c, y, tc, ty, pick_heuristic(rng))
    if rng.random() < .2: H.magain(x)


def sample_rows(H, x, endo, n):
    rows = []
    for _ in range(n):
        a = H.rnd_assignment(x)
        if a is None: return []
        d = dict(map(tuple, a))
        rows.append([d[v] for v in sorted(endo)])
    return rows


def wide_scm(rng, rec, h, cast=True):
    """one exogenous variable confounds several endogenous variables, the others feed into them"""
    nn = rng.choice([4, 4, 5, 5, 6])
    k = rng.choice([x for x in (2, 3, 3, 4, 4, 5) if x < nn])
    few = rng.random() < .4     # every variable outside the component feeds one of its members
    if few: nn = rng.choice([5, 5, 6]); k = nn - rng.choice([1, 1, 2])
    order = list(range(2, nn + 2)); rng.shuffle(order)
    comp = set(rng.sample(order, k))
    if few: order.sort(key=lambda v: v in comp and rng.random() < .8)
    exo = [1]; edges = []
    # the other endogenous variables: each with an exogenous parent of its own, or without
    other = [v for v in order if v not in comp]
    extra = rng.randint(0, min(2, len(other)))
    n = 1 + nn + extra
    names = rng.sample(NAMES, n)
    w = World(names, [labels_for(rng, nm, 2 if i else rng.choice([5, 6] if few else [2, 3, 4, 6])) for i, nm in enumerate(names)])
    H = CHist(rng, rec, w, h)
    for i in range(extra):
        exo.append(nn + 2 + i); edges.append([nn + 2 + i, other[i]])
    for v in comp: edges.append([1, v])
    into = {x: rng.choice([v for v in order[i + 1:] if v in comp] or [0]) for i, x in enumerate(order) if x not in comp}
    for j, v in enumerate(order):
        if few: pa = [x for x in order[:j] if into.get(x, v) == v and rng.random() < .8]
        else: pa = [x for x in order[:j] if rng.random() < .6]
        rng.shuffle(pa)
        edges += [[x, v] for x in pa[:rng.choice([1, 1, 2, 2, 3])]]
    rng.shuffle(edges)
    endo = sorted(order)
    x = H.rnd_scm(exo, endo, edges, cast=cast, zero=rng.choice([0, .1]))
    return H, x, exo, endo, edges


def hist_c11(rng, rec, h, tier):
    if rng.random() < .35: H, x, exo, endo, edges = wide_scm(rng, rec, h)
    else: H, x, exo, endo, edges = rnd_scm_hist(rng, rec, h, cells=500, sizes=((1, 2), (2, 2), (2, 3), (2, 4), (3, 4), (1, 3), (2, 5)), zero=rng.choice([0, .1]), cast=True)
    if H.objs[x - 1] is None: return
    H.ccomp(x)
    H.qfac(x, endo, None, rng.choice(["bnet", "fact", "each"]))
    rows = sample_rows(H, x, endo, rng.choice([3, 6, 12, 25]))
    if rows:
        few = lambda n: rows[:n] + [rng.choice(rows[:n]) for _ in range(rng.choice([0, 0, 1, 2]))]
        sel = lambda: rng.sample(endo, rng.randint(1, len(endo))) if rng.random() < .5 else []
        H.lik(x, endo, few(5), sel())
        if rng.random() < .6: H.qfac(x, endo, rows, rng.choice(["bnet", "fact", "each"]))
        H.maxlik(x, endo, few(3), sel())


def vary(rng, w, q):
    """the same request, or one about the same variables in other states"""
    if rng.random() < .4: return q
    pairs = lambda ps: [[v, rng.randint(1, w.card(v)) if rng.random() < .6 else s] for v, s in ps]
    return dict(q, ev=pairs(q["ev"]), do=pairs(q["do"]), dos=[pairs(d) for d in q["dos"]])


def bad_query(H, rng, nodes, exo, endo, kind):
    """an ill-formed query"""
    w = H.w
    v = rng.choice(endo or nodes)
    u = rng.choice([x for x in nodes if x != v])
    s = lambda z: [z, rng.randint(1, w.card(z))]
    if kind == "v":
        return rng.choice([Q("prob", T=[v, v]), Q("prob", T=[v], ev=[s(v)]), Q("prob", T=[v, u], ev=[s(u)]), Q("prob", T=[v], C=[v]),
                           Q("prob", T=[v], C=[u], ev=[s(u)]), Q("prob", T=["?"]), Q("prob", T=[v], ev=["?"]), Q("prob", T=[v], C=["?"])])
    if rng.random() < .5:
        return rng.choice([Q("causal", T=[v, v], do=[s(u)]), Q("causal", T=[v], do=[s(v)]), Q("causal", T=[v], do=[s(u)], ev=[s(v)]),
                           Q("causal", T=["?"], do=[s(u)]), Q("causal", T=[v], do=["?"])])
    e = rng.choice(endo)
    return rng.choice([Q("cf", tg=[[e, 1], [e, 1]], dos=[[]]), Q("cf", tg=[[e, 1]], dos=[[s(e)]]), Q("cf", tg=[["?", 1]], dos=[[]]), Q("cf", tg=[[e, 1]], dos=[["?"]])])


def hist_c21(rng, rec, h, tier, gen=None):
    H, x, exo, endo, edges = rnd_scm_hist(rng, rec, h, j=True)
    if H.objs[x - 1] is None: return
    w = H.w
    nodes = exo + endo
    # an unknown variable, for ill-formed queries
    unk = w.add("unknown_variable", ["s0", "s1"])

    def fix(q):
        r = json.loads(json.dumps(q).replace('"?"', "[%d, 1]" % unk))
        r["T"] = [unk if isinstance(t, list) else t for t in r["T"]]
        r["C"] = [unk if isinstance(t, list) else t for t in r["C"]]
        r["tg"] = [[unk if isinstance(t[0], list) else t[0], t[1]] for t in r["tg"]]
        return r
    multinomial = not any(isinstance(f, DeterministicFactor) for f in H.fac(x).factors.values())
    engs, last = [], {}
    ops = gen or [rng.choice(["mk", "q", "q", "q", "c", "c", "r", "r", "b", "b", "p"]) for _ in range(rng.randint(6, 14))]

    def good(kind):
        if kind == "v":
            T, C, ev = H.rnd_query(x, nodes)
            return Q("prob", T=T, C=C, ev=ev)
        return H.rnd_causal(x, exo, endo) if rng.random() < .6 else H.rnd_cf(x, exo, endo)
    hist_q = []
    for i, op in enumerate(ops):
        if op == "mk" or not engs:
            kind = rng.choice(["v", "c"]) if multinomial else "c"
            e = H.mkeng(x, kind, pick_heuristic(rng))
            if H.objs[e - 1] is None: return
            engs.append((e, kind))
            if op == "mk": continue
        e, kind = rng.choice(engs)
        if op == "q":
            prev = [q for k, q in hist_q if k == kind]
            q = vary(rng, w, rng.choice(prev)) if prev and rng.random() < .5 else good(kind)
            hist_q.append((kind, q))
            H.eqry(e, q); last[e] = None
        elif op == "p" and hist_q:
            cand = [q for k, q in hist_q if k == kind]
            if cand: H.eqry(e, rng.choice(cand)); last[e] = None
        elif op == "c":
            q = good(kind)
            if q["C"]: q["C"] = []
            H.ecomp(e, q); last[e] = q
        elif op == "r":
            if last.get(e, 0) is None: continue     # after a query, running is not specified
            H.erun(e, last.get(e))
        elif op == "b":
            q = fix(bad_query(H, rng, nodes, exo, endo, kind))
            if rng.random() < .6:
                H.eqry(e, q); last[e] = None
            else:
                if not q["C"]: H.ecomp(e, q)
    H.magain(x)


def gen_c21(rng, rec, h, tier, gen):
    """two engines on one model, requests in the order of a behaviour of MC_Engine"""
    H, x, exo, endo, edges = gen_scm(rng, rec, h, gen, cast=True if "v" in gen["kd"] else None, j=True)
    if H.objs[x - 1] is None: return
    unk = H.w.add("unknown_variable", ["s0", "s1"])
    ren = lambda v: unk if v == 9 else v
    engs, last = [H.mkeng(x, k, pick_heuristic(rng)) for k in gen["kd"]], [0, 0]
    if any(H.objs[e - 1] is None for e in engs): return
    for st in gen["steps"]:
        i = st["e"] - 1
        if st["op"] == "r":
            if last[i] is not None: H.erun(engs[i], last[i] or None)
            continue
        g = st["q"][0]
        pairs = lambda ps: [[ren(v), s] for v, s in ps]
        q = Q(g["kind"], T=[ren(v) for v in g["T"]], C=[ren(v) for v in g["C"]], ev=pairs(g["ev"]), do=pairs(g["do"]), dos=[pairs(d) for d in g["dos"]], tg=[[ren(v), k] for v, k in g["tg"]])
        if st["op"] == "q": H.eqry(engs[i], q); last[i] = None
        else:
            good = unk not in q["T"] + [v for v, _ in q["ev"] + q["do"] + q["tg"]] and len(set(q["T"])) == len(q["T"]) and not set(q["T"]) & {v for v, _ in q["ev"] + q["do"]}
            H.ecomp(engs[i], q)
            if good: last[i] = q
    H.magain(x)
