"""Drivers for counts and data inference (C17), equations (C18), generators (C23), sampling (C16), files (C15)."""
import math as _m
import hashlib, shutil, subprocess, sys, tempfile
from core import *
from d_model import *
from bcause.util.datautils import to_counts, filter_data
from bcause.inference.probabilistic.datainference import LaplaceInference
from bcause.factors.mulitnomial import random_multinomial, uniform_multinomial, random_deterministic, canonical_multinomial
from bcause.factors.deterministic import canonical_deterministic
from bcause.util import randomUtil
import bcause.readwrite.bnread as bnread
import bcause.readwrite.scmread as scmread

MISSING = 99


# ---------------------------------------------------------------- C17
class DHist(MHist):
    def dataset(self, cols, nrows, pmiss, index=True):
        """rows of state ids; 0 where missing; clustered so that some assignments never occur and others repeat"""
        rng, w = self.rng, self.w
        proto = [[rng.randint(1, w.card(v)) for v in cols] for _ in range(rng.choice([1, 2, 4, 8]))]
        rows = []
        for _ in range(nrows):
            r = rng.choice(proto)[:] if rng.random() < .7 else [rng.randint(1, w.card(v)) for v in cols]
            rows.append([0 if rng.random() < pmiss.get(v, 0) else s for v, s in zip(cols, r)])
        data = {}
        for j, v in enumerate(cols):
            col = [None if r[j] == 0 else w.lab(v, r[j]) for r in rows]
            if any(x is None for x in col) and self.rng.random() < .5: col = [np.nan if x is None else x for x in col]
            data[w.name(v)] = col
        df = pd.DataFrame(data, columns=[w.name(v) for v in cols])
        if rng.random() < .4 and len(rows):
            ix = list(range(len(rows))); rng.shuffle(ix); df.index = [3 * i for i in ix] if rng.random() < .6 else [i // 2 for i in ix]
        return df, rows

    def isstr(self, v): return all(type(l) == str for l in self.w.labels[v - 1])

    def domain(self, vs):
        rng, w = self.rng, self.w
        vs = vs[:]; rng.shuffle(vs)
        dom = {}
        for v in vs:
            ls = list(w.labels[v - 1])
            if rng.random() < .3: rng.shuffle(ls)
            dom[w.name(v)] = ls
        return dom, [[v, list(range(1, w.card(v) + 1))] for v in sorted(vs)]

    def strs(self, vs): return [v for v in vs if self.isstr(v)]


def hist_c17(rng, rec, h, tier):
    n = rng.choice([1, 2, 3, 4, 5])
    kinds = rng.choice([["str"], ["str", "odd", "strx"], ["str", "int", "bool", "float", "odd"]])
    w = small_world(rng, n, cells=150, kinds=kinds)
    for v in range(1, n + 1): w.lab2id[v - 1]["nan"] = MISSING
    H = DHist(rng, rec, w, h, "numpy")
    nodes = list(range(1, n + 1))
    for _ in range(rng.randint(1, 2)):
        cols = nodes[:]; rng.shuffle(cols)
        pm = {}
        if rng.random() < .35: pm = {v: .25 for v in cols if (H.isstr(v) or rng.random() < .2) and rng.random() < .6}
        df, rows = H.dataset(cols, rng.choice([1, 2, 5, 10, 20, 40]), pm)
        for _ in range(rng.randint(2, 4)):
            k = rng.choice([1, 1, 2, 2, 3, n])
            vs = rng.sample(nodes, min(k, n))
            dom, dd = H.domain(vs)
            norm = rng.random() < .5
            if rng.random() < .05:
                r, err = call(lambda: to_counts(dom))
                p, perr = sproj(w, r) if err == "" else (EMPTY, err)
                H.rec.ev("cnt", dom=dd, cols=cols, rows=[], strs=[], norm=False, r=p, err=perr)
            else:
                for _ in range(rng.choice([1, 1, 2])):      # the same domains serve again
                    r, err = call(lambda: to_counts(dom, df, normalize=norm))
                    p, perr = sproj(w, r) if err == "" else (EMPTY, err)
                    H.rec.ev("cnt", dom=dd, cols=cols, rows=rows, strs=H.strs(nodes), norm=norm, r=p, err=perr)
                if rng.random() < .3: data_query(H, df, cols, rows, dom, dd, nodes)
        for _ in range(rng.randint(2, 5)):
            dom, dd = H.domain(nodes if rng.random() < .7 else rng.sample(nodes, rng.randint(1, n)))
            data_query(H, df, cols, rows, dom, dd, nodes)
        ev = [[v, rng.randint(1, w.card(v))] for v in rng.sample(nodes, rng.randint(0, n))]

        def fil():
            out = filter_data(df, w.asg(ev))
            return [[0 if pd.isna(x) else w.sid(v, x) for v, x in zip(cols, t)] for t in out[[w.name(v) for v in cols]].itertuples(index=False)]
        r, err = call(fil)
        H.rec.ev("fil", cols=cols, rows=rows, ev=ev, r=r if err == "" else [], err=err)


def gen_c17(rng, rec, h, tier, gen):
    """a dataset of MC_Data: the counts of every set of variables, every selection and every conditional"""
    n = len(gen["card"])
    names = rng.sample(NAMES, n)
    miss = any(0 in r for r in gen["rows"])
    kinds = ["str", "odd", "strx"] if miss and rng.random() < .9 else ["str", "int", "bool", "float", "odd"]
    w = World(names, [labels_for(rng, nm, c, rng.choice(kinds)) for nm, c in zip(names, gen["card"])])
    for v in range(1, n + 1): w.lab2id[v - 1]["nan"] = MISSING
    H = DHist(rng, rec, w, h, "numpy")
    nodes, cols, rows = list(range(1, n + 1)), gen["cols"], gen["rows"]
    df = pd.DataFrame({w.name(v): [None if r[j] == 0 else w.lab(v, r[j]) for r in rows] for j, v in enumerate(cols)}, columns=[w.name(v) for v in cols])
    if rng.random() < .4: df.index = rng.sample(range(100), len(rows))
    sub = [list(s) for k in range(1, n + 1) for s in itertools.combinations(nodes, k)]
    for vs in sub:
        for norm in (False, True):
            dom, dd = H.domain(vs)
            r, err = call(lambda: to_counts(dom, df, normalize=norm))
            p, perr = sproj(w, r) if err == "" else (EMPTY, err)
            H.rec.ev("cnt", dom=dd, cols=cols, rows=rows, strs=H.strs(nodes), norm=norm, r=p, err=perr)
    qs = []
    for T in sub:
        rest = [v for v in nodes if v not in T]
        for k in range(len(rest) + 1):
            for C in itertools.combinations(rest, k):
                left = [v for v in rest if v not in C]
                qs.append((T, list(C), []))
                qs += [(T, list(C), [[v, s]]) for v in left for s in range(1, w.card(v) + 1)]
    if len(qs) > 24: qs = rng.sample(qs, 24)
    for T, C, ev in qs:
        dom, dd = H.domain(nodes)
        flag = rng.random() < .8
        r, err = call(lambda: LaplaceInference(df, dom, preprocess_flag=flag).query(H.target(T), conditioning=H.target(C) if C else None, evidence=w.asg(ev)))
        p, perr = sproj(w, r) if err == "" else (EMPTY, err)
        H.rec.ev("dqry", dom=dd, cols=cols, rows=rows, strs=H.strs(nodes), T=T, C=C, ev=ev, r=p, err=perr)
    evs = [[[v, s]] for v in nodes for s in range(1, w.card(v) + 1)] + [[[a, rng.randint(1, w.card(a))], [b, rng.randint(1, w.card(b))]] for a, b in itertools.combinations(nodes, 2)]
    for ev in evs:
        def fil():
            out = filter_data(df, w.asg(ev))
            return [[0 if pd.isna(x) else w.sid(v, x) for v, x in zip(cols, t)] for t in out[[w.name(v) for v in cols]].itertuples(index=False)]
        r, err = call(fil)
        H.rec.ev("fil", cols=cols, rows=rows, ev=ev, r=r if err == "" else [], err=err)


def data_query(H, df, cols, rows, dom, dd, nodes):
    rng, w = H.rng, H.w
    n = len(nodes)
    known = [p[0] for p in dd]
    vs = known[:] if rng.random() < .92 else nodes[:]
    rng.shuffle(vs)
    T = vs[:rng.choice([1, 1, 2, 2, 3])]
    rest = [v for v in vs if v not in T]
    C = rest[:rng.choice([1, 2])] if rng.random() < .4 else []
    others = [v for v in nodes if v not in T and v not in C]
    row = rng.choice(rows) if rows else None
    ev = []
    for v in others:
        if rng.random() < .4:
            s = row[cols.index(v)] if row is not None and rng.random() < .85 else rng.randint(1, w.card(v))
            if s: ev.append([v, s])
    if rng.random() < .05: ev = ev + [[T[0], 1]]
    if rng.random() < .03: T = T + [T[0]]
    tt, cc, ee = H.target(T), H.target(C) if C else None, w.asg(ev)
    flag = rng.random() < .8

    def go():
        e = LaplaceInference(df, dom, preprocess_flag=flag) if rng.random() < .5 else LaplaceInference(df, dom)
        return e.query(tt, conditioning=cc, evidence=ee) if cc is not None else e.query(tt, evidence=ee)
    r, err = call(go)
    p, perr = sproj(w, r) if err == "" else (EMPTY, err)
    H.rec.ev("dqry", dom=dd, cols=cols, rows=rows, strs=H.strs(nodes), T=T, C=C, ev=ev, r=p, err=perr)


# ---------------------------------------------------------------- engines that answer from data (C21)
class LHist(DHist):
    def again(self, x, df, dom, cols, order):
        w = self.w

        def go():
            rows = [[0 if pd.isna(t) else w.sid(v, t) for v, t in zip(cols, r)] for r in df.itertuples(index=False)]
            return [w.vid(c) for c in df.columns], rows, [[v, list(range(1, w.card(v) + 1))] for v in sorted(w.vid(n) for n in dom)] if dom == order else []
        r, err = call(go)
        c, rows, dd = r if err == "" else ([], [], [])
        self.rec.ev("dagain", x=x, cols=c, rows=rows, dom=dd, err=err)

    def dask(self, e, q, how):
        w, eng = self.w, self.fac(e)
        tt, ee = self.target(q["T"]), w.asg(q["ev"]) or ({} if self.rng.random() < .5 else None)
        cc = self.target(q["C"]) if q["C"] else None
        r, err = call((lambda: eng.query(tt, conditioning=cc, evidence=ee)) if how == "eqry" else (lambda: eng.compile(tt, ee)) if how == "ecomp" else eng.run)
        if how == "ecomp" and self.rng.random() < .4:
            # the caller goes on using its own containers
            if isinstance(tt, (list, set)): tt.clear()
            if ee: ee.clear()
        if how == "ecomp": return self.rec.ev("ecomp", x=e, q=q, err=err)
        p, perr = sproj(w, r) if err == "" else (EMPTY, err)
        if how == "eqry": self.rec.ev("eqry", x=e, q=q, r=p, err=perr)
        else: self.rec.ev("erun", x=e, r=p, err=perr)


def hist_c21_data(rng, rec, h, tier):
    """requests in any order to engines over one dataset"""
    from d_causal import Q, vary
    n = rng.choice([1, 2, 3, 3, 4, 4])
    w = small_world(rng, n, cells=120, kinds=rng.choice([["str"], ["str", "odd"], ["str", "int", "bool", "float", "odd"]]))
    for v in range(1, n + 1): w.lab2id[v - 1]["nan"] = MISSING
    H = LHist(rng, rec, w, h, "numpy")
    nodes = list(range(1, n + 1))
    cols = nodes[:]; rng.shuffle(cols)
    pm = {v: .2 for v in cols if H.isstr(v) and rng.random() < .5} if rng.random() < .3 else {}
    df, rows = H.dataset(cols, rng.choice([2, 5, 10, 20]), pm)
    dom, dd = H.domain(nodes if rng.random() < .8 else rng.sample(nodes, rng.randint(1, n)))
    order = {k: list(v) for k, v in dom.items()}
    H.rec.ev("mkdata", cols=cols, rows=rows, dom=dd, strs=H.strs(nodes))
    x = H.put(df, dict(data=1))
    unk = w.add("unknown_variable", ["s0", "s1"])
    known = [p[0] for p in dd]
    engs, last, asked = [], {}, []

    def good():
        vs = known[:]; rng.shuffle(vs)
        T = vs[:rng.choice([1, 1, 2])]
        C = [v for v in vs if v not in T][:rng.choice([0, 0, 1])]
        row = rng.choice(rows)
        ev = [[v, row[cols.index(v)] or 1] for v in nodes if v not in T + C and rng.random() < rng.choice([.3, .6, .9])]
        return Q("prob", T=T, C=C, ev=ev)

    def bad():
        v = rng.choice(known)
        return rng.choice([Q("prob", T=[v, v]), Q("prob", T=[v], ev=[[v, 1]]), Q("prob", T=[unk]), Q("prob", T=[v], ev=[[unk, 1]]), Q("prob", T=[v], C=[v]), Q("prob", T=[v], C=[unk])])
    for _ in range(rng.randint(6, 14)):
        op = rng.choice(["mk", "q", "q", "q", "c", "c", "r", "r", "b", "b", "p", "p", "p"])
        if op == "mk" or not engs:
            kw = rng.choice([{}, dict(preprocess_flag=True), dict(preprocess_flag=False)])
            e, err = call(lambda: LaplaceInference(df, dom, **kw))
            H.rec.ev("mkeng", x=x, err=err)
            engs.append(H.put(e, dict(eng="d", m=x)))
            if err: return
            if op == "mk": continue
        e = rng.choice(engs)
        if op == "q" or (op == "p" and asked):
            q = good() if op == "q" else rng.choice(asked)
            if op == "p" and rng.random() < .7:      # the same variables, in the states of another row
                row = rng.choice(rows)
                q = dict(q, ev=[[v, row[cols.index(v)] or 1] for v, _ in q["ev"]])
            asked.append(q); H.dask(e, q, "eqry"); last[e] = None
        elif op == "c":
            q = dict(good(), C=[]); H.dask(e, q, "ecomp"); last[e] = q
        elif op == "r":
            if last.get(e, 0) is not None: H.dask(e, last.get(e) or Q("prob", T=known[:1]), "erun")
        elif op == "b":
            q = bad()
            if rng.random() < .6: H.dask(e, q, "eqry"); last[e] = None
            elif not q["C"]: H.dask(e, q, "ecomp")
    H.again(x, df, dom, cols, order)


def unwrap(x):
    """a label that numpy wrapped in a scalar (or array without dimensions)"""
    return x.item() if isinstance(x, np.generic) or (isinstance(x, np.ndarray) and x.ndim == 0) else x


# ---------------------------------------------------------------- C18
class EHist(MHist):
    def dview(self, x, v, pa):
        rng, w = self.rng, self.w
        f = self.fac(x)

        def go():
            evs, gets, arr = [], [], []
            dom = f.domain
            for st in itertools.product(*[dom[a] for a in dom]):
                asg = dict(zip(dom, st))
                o = dict(asg)
                if rng.random() < .3: o["irrelevant"] = 5
                items = list(o.items()); rng.shuffle(items)
                evs.append([[[w.vid(a), w.sid(w.vid(a), s)] for a, s in asg.items()], bool(f.eval(**dict(items)))])
            for st in itertools.product(*[dom[w.name(p)] for p in pa]):
                asg = dict(zip([w.name(p) for p in pa], st))
                gets.append([[[w.vid(a), w.sid(w.vid(a), s)] for a, s in asg.items()], w.sid(v, unwrap(f.get_value(**asg)))])
            va = f.values_array()
            rv = list(f.right_vars)
            for idx in itertools.product(*[range(len(dom[a])) for a in rv]):
                lab = va[idx] if rv else np.array(va).reshape(-1)[0]
                lab = unwrap(lab)
                arr.append([[[w.vid(a), w.sid(w.vid(a), dom[a][i])] for a, i in zip(rv, idx)], w.sid(v, lab)])
            return evs, gets, arr, proj(w, f.to_multinomial()), proj(w, f.to_multinomial(as_int=True))
        r, err = call(go)
        evs, gets, arr, tm, ti = r if err == "" else ([], [], [], EMPTY, EMPTY)
        self.rec.ev("dview", x=x, evs=evs, gets=gets, arr=arr, tm=tm, ti=ti, vt=self.vt, err=err)

    def todet(self, x):
        o = call(lambda: self.fac(x).to_deterministic())
        return self.push("todet", [o], x=x)

    def const(self, x, v, s, label):
        o = call(lambda: self.fac(x).constant(label))
        return self.push("const", [o], x=x, s=s)

    def fromdf(self, v, pa, cols=None, table=None):
        rng, w = self.rng, self.w
        given = cols is not None
        if not given:
            cols = [v] + list(pa); rng.shuffle(cols)
        doms = []
        for x in cols:
            d = list(range(1, w.card(x) + 1))
            if rng.random() < .3: rng.shuffle(d)
            doms.append(d)
        last = cols[-1] == v if given else rng.random() < .4
        if last and not given:
            i = cols.index(v); cols.append(cols.pop(i)); doms.append(doms.pop(i))
        i = cols.index(v)
        rows = []
        for st in itertools.product(*[doms[j] for j in range(len(cols)) if j != i]):
            st = list(st); st.insert(i, rng.choice(doms[i])); rows.append(st)
        rng.shuffle(rows)
        if given: rows = table
        df = pd.DataFrame([[w.lab(x, s) for x, s in zip(cols, r)] for r in rows], columns=[w.name(x) for x in cols])
        dm = {w.name(x): [w.lab(x, s) for s in d] for x, d in zip(cols, doms)}
        items = list(dm.items()); rng.shuffle(items); dm = dict(items)
        if rng.random() < .3: dm["Other"] = ["u", "v"]
        kw = {} if last and rng.random() < .7 else dict(left_var=w.name(v))
        o = call(lambda: DeterministicFactor.from_data_frame(df, dm, **kw))
        return self.push("fromdf", [o], cols=cols, doms=doms, lv=v, rows=rows)


def gen_c18(rng, rec, h, tier, gen):
    """equations written as tables of rows, by MC_Eq"""
    H = None
    for g in gen:
        card = g["card"]
        if H is None or [len(l) for l in H.w.labels] != card:
            names = rng.sample(NAMES, len(card))
            w = World(names, [labels_for(rng, nm, c) for nm, c in zip(names, card)])
            if H is None:
                H = EHist(rng, rec, w, h); H.vt = "numpy"
                H.rec.events[-1]["vts"] = ["numpy"]
            else: H.w = w
        pa = list(range(2, len(card) + 1))
        x = H.fromdf(1, pa, list(g["cols"]), [list(r) for r in g["rows"]])
        if H.objs[x - 1] is not None: H.dview(x, 1, pa)
        y = H.function(1, pa, list(g["out"]))
        if H.objs[y - 1] is None: continue
        if isinstance(H.fac(y), DeterministicFactor): H.dview(y, 1, pa)
        else:
            z = H.todet(y)
            if H.objs[z - 1] is not None: H.dview(z, 1, pa)


def hist_c18(rng, rec, h, tier):
    n = rng.choice([1, 2, 3, 3, 4])
    w = small_world(rng, n, cells=80)
    H = EHist(rng, rec, w, h)
    H.rec.events[-1]["vts"] = [H.vt]
    for _ in range(rng.randint(2, 4)):
        vs = list(range(1, n + 1)); rng.shuffle(vs)
        v, pa = vs[0], vs[1:rng.randint(1, n)]
        k = rng.random()
        if k < .35: x = H.det(v, pa)
        elif k < .6 and H.vt == "numpy": x = H.fromdf(v, pa)
        else: x = H.deteq(v, pa)
        if H.objs[x - 1] is None: continue
        f = H.fac(x)
        if isinstance(f, DeterministicFactor): H.dview(x, v, pa)
        else:
            y = H.todet(x)
            if H.objs[y - 1] is not None: H.dview(y, v, pa)
        if rng.random() < .6:
            s = rng.randint(1, w.card(v))
            z = H.const(x, v, s, w.lab(v, s))
            if H.objs[z - 1] is not None and isinstance(H.fac(z), DeterministicFactor): H.dview(z, v, [])
        if rng.random() < .15: H.const(x, v, 77, "no such state")
        H.audit()
    if rng.random() < .3 and n >= 2:     # two left variables cannot become an equation
        x = H.table([1, 2], [[1, 1]] + [[0, 1]] * (w.card(1) * w.card(2) - 1), [1, 2])
        if H.objs[x - 1] is not None: H.todet(x)
    if rng.random() < .6: canonical(H, rng)


def canonical(H, rng):
    """canonical specification: world of its own"""
    big = rng.random() < .03
    while True:
        cl = rng.choice([1, 2, 2, 2, 3]); pas = [rng.choice([1, 2, 2, 3]) for _ in range(rng.choice([2, 3, 3]) if big else rng.choice([0, 1, 1, 2, 2, 3]))]
        nf = cl ** _m.prod(pas)
        if (32 < nf <= 256) if big else nf <= 32: break
    names = rng.sample(NAMES, 2 + len(pas))
    cards = [cl, nf] + pas
    w = World(names, [labels_for(rng, nm, c, rng.choice(["str", "int", "odd", "int1"])) for nm, c in zip(names, cards)])
    order = list(range(1, 3 + len(pas))); rng.shuffle(order)
    dom = {w.name(v): list(w.labels[v - 1]) for v in order}
    ev = [w.name(v) for v in range(3, 3 + len(pas))]; rng.shuffle(ev)
    fn = rng.choice([canonical_deterministic, canonical_multinomial])
    kw = dict(vtype=rng.choice(VTYPES)) if rng.random() < .4 else {}
    r, err = call(lambda: fn(dom, w.name(2), ev, **kw) if ev or rng.random() < .5 else fn(dom, w.name(2), **kw))
    p, perr = sproj(w, r) if err == "" else (EMPTY, err)
    H.rec.ev("canon", lv=1, xv=2, pa=list(range(3, 3 + len(pas))), order=list(range(1, 3 + len(pas))), card=cards, r=p, err=perr)


# ---------------------------------------------------------------- C23
def digest(o):
    """full observable content as text"""
    if isinstance(o, (MultinomialFactor,)):
        return repr([o.name, list(o.domain.items()), list(o.left_vars), list(o.right_vars), [float(x) for x in np.array(o.values).ravel()], o.vtype])
    if isinstance(o, DeterministicFactor):
        return repr([o.name, list(o.domain.items()), list(o.left_vars), list(o.right_vars), [str(x) for x in np.array(o.values, dtype=object).ravel()], o.vtype])
    if isinstance(o, (SCM, BayesianNetwork)):
        return repr([list(o.graph.nodes), list(o.graph.edges), [(v, None if f is None else digest(f)) for v, f in o.factors.items()],
                     [(v, None if d is None else list(d)) for v, d in o.domains.items()],
                     list(o.endogenous) if isinstance(o, SCM) else None])
    if isinstance(o, pd.DataFrame):
        return repr([list(o.columns), [str(t) for t in o.dtypes], list(o.index), [[repr(x) for x in r] for r in o.values.tolist()]])
    if isinstance(o, nx.Graph):
        return repr([list(o.nodes(data=True)), list(o.edges(data=True))])
    if isinstance(o, dict): return repr([(k, digest(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)): return repr([digest(x) for x in o])
    if isinstance(o, np.ndarray): return repr([o.shape, str(o.dtype), o.ravel().tolist()])
    return repr(o)


class RHist(MHist):
    def gen(self, vs):
        rng, w = self.rng, self.w
        vo = vs[:]; rng.shuffle(vo)
        do = []
        for v in vo:
            d = list(range(1, w.card(v) + 1))
            if rng.random() < .3: rng.shuffle(d)
            do.append(d)
        kind = rng.choice(["random", "positive", "uniform", "det"])
        right = [v for v in vo if rng.random() < .5]
        if len(right) == len(vo): right = right[1:]
        if kind == "det":
            left = rng.choice(vo); right = [v for v in vo if v != left]
        dom = {w.name(v): [w.lab(v, s) for s in d] for v, d in zip(vo, do)}
        rv = [w.name(v) for v in right]; rng.shuffle(rv)
        vt = rng.choice(VTYPES)
        kw = {}
        if vt != "numpy" or rng.random() < .5: kw["vtype"] = vt
        if rv or rng.random() < .5: kw["right_vars"] = rv

        def go():
            if kind == "random": return random_multinomial(dom, **kw)
            if kind == "positive": return random_multinomial(dom, allow_zero=False, **kw)
            if kind == "uniform": return uniform_multinomial(dom, **kw)
            return random_deterministic(dom, **kw)
        r, err = call(go)
        p, perr = sproj(w, r) if err == "" else (EMPTY, err)
        pos = True
        if perr == "" and kind == "positive": pos = bool((np.array(r.values_list, dtype=float) > 0).all())
        self.rec.ev("gen", kind=kind, vo=vo, do=do, right=right, vt=vt, r=p, pos=pos, err=perr)

    def draw(self, x, V, fn, inplace, dom=(), pos=False, ret=True):
        """fn(model) -> model drawn"""
        w = self.w
        m = self.fac(x)
        r, err = call(lambda: fn(m))
        if not ret: r = m
        p, perr = smproj(w, r) if err == "" else (MEMPTY, err)
        o, oerr = smproj(w, m) if err == "" else (MEMPTY, err)
        ok = True
        if pos and perr == "": ok = all((np.array(r.factors[w.name(v)].values_list, dtype=float) > 0).all() for v in V)
        self.rec.ev("draw", x=x, V=V, inplace=inplace, dom=[list(d) for d in dom], r=p, o=o, pos=bool(ok), err=perr or oerr)
        return r if perr == "" else None

    def seeded(self, fn):
        """fn(): text, twice from the same seed"""
        s = self.rng.randrange(10 ** 6)

        def go():
            randomUtil.seed(s); a = fn()
            np.random.random(3); random.random()
            randomUtil.seed(s); b = fn()
            return a, b
        r, err = call(go)
        self.rec.ev("seed", r1=r[0] if err == "" else "", r2=r[1] if err == "" else "", err=err)


def hist_c23(rng, rec, h, tier):
    n = rng.choice([1, 2, 3, 3, 4])
    w = small_world(rng, n, cells=120)
    H = RHist(rng, rec, w, h)
    nodes = list(range(1, n + 1))
    for _ in range(rng.randint(2, 4)): H.gen(rng.sample(nodes, rng.randint(1, n)))
    # a Bayesian network filled in place
    edges = rnd_dag2(rng, nodes)
    x = H.model(False, nodes, edges, [])
    sd = [[v, list(range(1, w.card(v) + 1))] for v in nodes]

    def domains(vs):
        vs = vs[:]; rng.shuffle(vs)
        return {w.name(v): list(w.labels[v - 1]) for v in vs}
    if H.objs[x - 1] is not None:
        dm = domains(nodes)
        H.draw(x, nodes, lambda m: m.randomize_factors(dm), True, sd, ret=False)
    # causal models
    ne, nn = rng.choice([(1, 1), (1, 2), (2, 2), (2, 3), (3, 3)])
    w2 = scm_world(rng, ne, nn, cells=200)
    H2 = RHist(rng, rec, w2, h)
    exo, endo, edges = scm_shape(rng, ne, nn)
    ns = exo + endo
    dm2 = {w2.name(v): list(w2.labels[v - 1]) for v in rng.sample(ns, len(ns))}
    sd2 = [[v, list(range(1, w2.card(v) + 1))] for v in ns]
    k = rng.random()
    if k < .5:
        x = H2.model(True, ns, edges, [], endo=endo)
        if H2.objs[x - 1] is not None:
            which = rng.choice(["fill_random_equations", "fill_random_marginals", "fill_random_factors"])
            V = {"fill_random_equations": endo, "fill_random_marginals": exo, "fill_random_factors": ns}[which]
            H2.draw(x, V, lambda m: getattr(m, which)(dm2), True, sd2, ret=False)
    x = H2.rnd_scm(exo, endo, edges, j=False)
    if H2.objs[x - 1] is not None:
        V = [u for u in exo if rng.random() < .6] or [exo[0]]
        if rng.random() < .35: V = exo[:]
        names = [w2.name(v) for v in V]
        inp = rng.random() < .4
        az = rng.random() < .5
        kw = {}
        if inp: kw["in_place"] = True
        if not az: kw["allow_zero"] = False
        H2.draw(x, V, lambda m: m.randomize_factors(names, **kw), inp, pos=not az)
        m = H2.fac(x)
        det = any(isinstance(f, DeterministicFactor) for f in m.factors.values())
        jobs = [lambda: digest(m.randomize_factors(names)), lambda: digest(random_multinomial(dm2)),
                lambda: digest(random_deterministic({k: v for k, v in list(dm2.items())[:2]}, right_vars=[list(dm2)[0]]))]

        def fill():
            z = SCM(m.graph, endogenous=list(m.endogenous)); z.fill_random_factors(dm2); return digest(z)
        jobs.append(fill)
        if not det:
            jobs.append(lambda: digest(m.sample(15))); jobs.append(lambda: digest(m.sampleEndogenous(10)))
            from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
            from bcause.learning.parameter.gradient import GradientLikelihood

            def learn():
                data = m.sampleEndogenous(12)
                e = ExpectationMaximization(m.randomize_factors(m.exogenous, allow_zero=False), trainable_vars=m.exogenous)
                e.run(data, max_iter=2)
                return digest(e.model)
            jobs.append(learn)
            if all(len([u for u, c in edges if c == v and u in exo]) == 1 for v in endo) and all(any(a == u for a, b in edges) for u in exo):
                def grad():
                    data = m.sampleEndogenous(12)
                    e = GradientLikelihood(m.randomize_factors(m.exogenous, allow_zero=False), trainable_vars=m.exogenous)
                    e.run(data, max_iter=3)
                    return digest(e.model)
                if rng.random() < .3: jobs.append(grad)
        for fn in rng.sample(jobs, 2): H2.seeded(fn)


def cdigest(o):
    """content as text, in an order of its own and to nine digits"""
    num = lambda x: "%.9g" % (float(x) + 0.0)
    if isinstance(o, (MultinomialFactor, DeterministicFactor)):
        vs = sorted(o.domain)
        if isinstance(o, DeterministicFactor): o = o.to_multinomial()
        return repr([vs, sorted(o.left_vars), [[str(s) for s in o.domain[v]] for v in vs], [num(o.get_value(**dict(zip(vs, st)))) for st in itertools.product(*[o.domain[v] for v in vs])]])
    if isinstance(o, (SCM, BayesianNetwork)):
        return repr([sorted(o.graph.nodes), sorted(o.graph.edges), [(v, cdigest(o.factors[v])) for v in sorted(o.graph.nodes)]])
    if isinstance(o, pd.DataFrame):
        cs = sorted(o.columns)
        return repr([cs, [[str(unwrap(x)) for x in r] for r in o[cs].values.tolist()]])
    if isinstance(o, (list, tuple)): return repr([cdigest(x) for x in o])
    return repr(o)


def random_actions(m, dm):
    """things that draw random numbers, given a causal model with multinomial factors and its domains"""
    from bcause.learning.parameter.expectation_maximization import ExpectationMaximization
    from bcause.learning.parameter.gradient import GradientLikelihood
    from bcause.learning.aggregator.aggregator import SimpleModelAggregatorEM
    exo, endo = list(m.exogenous), list(m.endogenous)

    def bn():
        b = BayesianNetwork(m.graph); b.randomize_factors(dm); return b

    def scm(which):
        def go():
            z = SCM(m.graph, endogenous=endo); getattr(z, which)(dm)
            return [z.factors[v] for v in sorted(z.graph.nodes) if z.factors[v] is not None]
        return go

    def em():
        data = m.sampleEndogenous(8)
        e = ExpectationMaximization(m.randomize_factors(exo, allow_zero=False), trainable_vars=exo)
        e.run(data, max_iter=2)
        return e.model

    def gl():
        data = m.sampleEndogenous(8)
        e = GradientLikelihood(m.randomize_factors(exo, allow_zero=False), trainable_vars=exo)
        e.run(data, max_iter=2)
        return e.model

    def agg():
        data = m.sampleEndogenous(6)
        a = SimpleModelAggregatorEM(m, data, trainable_vars=exo, max_iter=1)
        a.run(2)
        return a.models
    acts = dict(rm=lambda: random_multinomial(dm, right_vars=endo[:1]), rd=lambda: random_deterministic({v: dm[v] for v in (exo + endo)[:2]}, right_vars=exo[:1]),
                bn=bn, fe=scm("fill_random_equations"), fm=scm("fill_random_marginals"), ff=scm("fill_random_factors"),
                rz=lambda: m.randomize_factors(exo), rzp=lambda: m.randomize_factors(exo, allow_zero=False), smp=lambda: m.sample(6), se=lambda: m.sampleEndogenous(6, as_pandas=False),
                fs=lambda: m.factors[exo[0]].sample(4), em=em, agg=agg)
    pa = lambda v: list(m.graph.predecessors(v))
    if all(len([u for u in pa(v) if u in exo]) == 1 for v in endo) and all(list(m.graph.successors(u)) for u in exo): acts["gl"] = gl
    return acts


def action_model(rng):
    """a causal model over textual names, the same in every process"""
    ne, nn = rng.choice([(1, 1), (1, 2), (2, 2), (2, 3), (3, 3)])
    exo, endo, edges = scm_shape(rng, ne, nn)
    nm = dict(zip(exo + endo, rng.sample(NAMES, ne + nn)))
    card = {v: rng.choice([2, 3, 4]) if v in exo else 2 for v in nm}
    dm = {nm[v]: [f"{nm[v].lower()}{i}" for i in range(card[v])] for v in rng.sample(exo + endo, ne + nn)}
    g = nx.DiGraph(); g.add_nodes_from([nm[v] for v in exo + endo]); g.add_edges_from([(nm[a], nm[b]) for a, b in edges])
    fs = {}
    for v in exo + endo:
        ps = [nm[a] for a, b in edges if b == v]
        dom = {x: dm[x] for x in ps + [nm[v]]}
        n = _m.prod(len(dm[x]) for x in ps)
        if v in exo: fs[nm[v]] = MultinomialFactor(dom, [(k + 1) / (card[v] * (card[v] + 1) / 2) for k in range(card[v])])
        else:
            vals = []
            for _ in range(n):
                k = rng.randrange(card[v]); vals += [float(j == k) for j in range(card[v])]
            fs[nm[v]] = MultinomialFactor(dom, vals, left_vars=[nm[v]])
    return SCM(g, fs, endogenous=[nm[v] for v in endo]), dm


def run_actions(key, plan):
    """plan: steps ["seed", n] or ["act", name]; results as text"""
    m, dm = action_model(random.Random(key))
    acts = random_actions(m, dm)
    out = []
    for k, n in plan:
        if k == "seed": randomUtil.seed(n); out.append("")
        else: out.append(hashlib.md5(cdigest(acts[n]()).encode()).hexdigest() if n in acts else "")
    return out


def gen_c23(rng, rec, h, tier, gen):
    """seedings and actions as generated by MC_Rand"""
    rec.begin(h, vts=[])
    for g in gen:
        key = f"actions/{rng.randrange(10 ** 9)}"
        r, err = call(lambda: random_actions(*action_model(random.Random(key))))
        if err: rec.ev("stream", steps=[], err=err); continue
        names = rng.sample(sorted(r), 3)
        ren = {"seed": lambda n: 100 + n, "act": lambda n: n}
        seeds = [rng.randrange(10 ** 6) for _ in range(3)]
        plan = [[k, seeds[n] if k == "seed" else names[n - 1]] for k, n in g]
        r, err = call(lambda: run_actions(key, plan))
        rec.ev("stream", key=key, names=names, steps=[dict(k=k, n=ren[k](n), r=x) for (k, n), x in zip(g, r)] if err == "" else [], err=err)


def proc_c23(rng, rec, h, tier, gen):
    """the same seeds in other processes, with other hash seeds"""
    rec.begin(h, vts=[])
    jobs = []
    for i in range(gen["n"]):
        key = f"process/{rng.randrange(10 ** 9)}"
        r, err = call(lambda: random_actions(*action_model(random.Random(key))))
        if err: rec.ev("stream", steps=[], err=err); return
        plan = [["seed", rng.randrange(10 ** 6)]] + [["act", a] for a in rng.sample(sorted(r), 3)]
        jobs.append([key, plan])
    outs = []
    here = os.path.dirname(os.path.abspath(__file__))
    for hs in [str(rng.randrange(1, 10 ** 6)) for _ in range(gen["procs"])]:
        env = dict(os.environ, PYTHONHASHSEED=hs)
        p = subprocess.run([sys.executable, os.path.join(here, "reseed.py")], input=json.dumps(jobs), capture_output=True, text=True, env=env, timeout=600)
        line = [l for l in p.stdout.splitlines() if l.startswith("OUT ")]
        if not line: raise RuntimeError("process failed: " + p.stderr[-500:])
        outs.append(json.loads(line[-1][4:]))
    for i, (key, plan) in enumerate(jobs):
        err = next((o[i]["err"] for o in outs if o[i]["err"]), "")
        steps = [] if err else [dict(k=k, n=100 if k == "seed" else j, r=o[i]["r"][j]) for o in outs for j, (k, _) in enumerate(plan)]
        rec.ev("stream", key=key, names=[a for _, a in plan[1:]], steps=steps, err=err)


# ---------------------------------------------------------------- C16
class PHist(MHist):
    def rows_of(self, recs, cols):
        w = self.w
        out = []
        for r in recs:
            out.append([w.sid(v, r[w.name(v)]) for v in cols])
        return out

    def smp(self, x, n, mode):
        rng, w = self.rng, self.w
        m = self.fac(x)
        asp = rng.random() < .6

        def go():
            f = m.sample if mode == "all" else m.sampleEndogenous
            d = (f(n) if rng.random() < .5 else f(n, as_pandas=True)) if asp else f(n, as_pandas=False)
            form = isinstance(d, pd.DataFrame) if asp else (isinstance(d, list) and all(isinstance(r, dict) for r in d))
            names = list(d.columns) if asp else (list(d[0].keys()) if d else [])
            recs = d.to_dict("records") if asp else d
            if not asp: form = form and all(set(r) == set(names) for r in d)
            cols = [w.vid(c) for c in names]
            sc = sorted(cols)
            return cols, self.rows_of(recs, sc), form
        r, err = call(go)
        cols, rows, form = r if err == "" else ([], [], True)
        self.rec.ev("smp", x=x, n=n, mode=mode, cols=cols, rows=rows, form=bool(form), err=err)

    def fsmp(self, x, n, left):
        rng, w = self.rng, self.w
        f = self.fac(x)
        vn = rng.random() < .6
        left = sorted(left)

        def go():
            d = (f.sample(n) if rng.random() < .5 else f.sample(n, varnames=True)) if vn else f.sample(n, varnames=False)
            return self.unpack(f, d, vn, left)
        r, err = call(go)
        rows, form = r if err == "" else ([], True)
        self.rec.ev("fsmp", x=x, n=n, rows=rows, form=bool(form), err=err)

    def unpack(self, f, d, vn, left):
        w = self.w
        if vn:
            form = all(isinstance(r, dict) and set(r) == {w.name(v) for v in left} for r in d)
            return [[w.sid(v, r[w.name(v)]) for v in left] for r in d], form
        lo = list(f.left_domain)
        form = all(isinstance(r, tuple) and len(r) == len(lo) for r in d)
        return [[w.sid(v, dict(zip(lo, r))[w.name(v)]) for v in left] for r in d], form

    def csmp(self, x, obs, left, shuffle):
        rng, w = self.rng, self.w
        f = self.fac(x)
        vn = rng.random() < .6
        left = sorted(left)
        recs = []
        for o in obs:
            it = [(w.name(v), w.lab(v, s)) for v, s in o]
            if shuffle: rng.shuffle(it)
            recs.append(dict(it))

        def go():
            d = f.sample_conditional(recs) if vn else f.sample_conditional(recs, varnames=False)
            return self.unpack(f, d, vn, left)
        r, err = call(go)
        rows, form = r if err == "" else ([], True)
        self.rec.ev("csmp", x=x, obs=obs, rows=rows, form=bool(form), err=err)


def gen_c16(rng, rec, h, tier, gen):
    """rows drawn by MC_Sample: models over the same graph in which that row is the only one"""
    H = None
    for g in gen:
        n = g["n"]
        card = [2, 3, 2, 2][:n]
        if H is None:
            names = rng.sample(NAMES, n)
            H = PHist(rng, rec, World(names, [labels_for(rng, nm, c) for nm, c in zip(names, card)]), h)
        nodes = list(range(1, n + 1))
        row = {v: s for v, s in g["row"]}
        pa = {v: [a for a, b in g["edges"] if b == v] for v in nodes}
        scm = rng.random() < .5
        fs = []
        for v in nodes:
            ps = rng.sample(pa[v], len(pa[v]))
            hit = tuple(row[p] for p in ps)
            cfg = list(itertools.product(*[range(1, card[p - 1] + 1) for p in ps]))
            c = card[v - 1]
            if scm and ps: fs.append((v, H.function(v, ps, [row[v] if k == hit else rng.randint(1, c) for k in cfg])))
            else:
                cols = [[int(s + 1 == row[v]) * 4 for s in range(c)] if k == hit else composition(rng, 4, c, .2) for k in cfg]
                vals = [[cols[j][r], 4] for r in range(c) for j in range(len(cols))]
                fs.append((v, H.table([v] + ps, [[a // _m.gcd(a, b), b // _m.gcd(a, b)] if a else [0, 1] for a, b in vals], [v])))
        if any(H.objs[f - 1] is None for _, f in fs): return
        rng.shuffle(fs)
        endo = [v for v in nodes if pa[v]]
        x = H.model(True, nodes, g["edges"], fs, endo=endo, j=True, cast=True) if scm and endo else H.model(False, nodes, g["edges"], fs, j=True)
        if H.objs[x - 1] is None or any(isinstance(f, DeterministicFactor) for f in H.fac(x).factors.values()): continue
        H.smp(x, rng.choice([1, 2, 5]), rng.choice(["all", "endo"]) if scm and endo else "all")


def hist_c16(rng, rec, h, tier):
    if rng.random() < .6:
        if rng.random() < .5:
            n = rng.choice([1, 2, 3, 4, 5, 6])
            w = small_world(rng, n, cells=100)
            H = PHist(rng, rec, w, h)
            x = H.rnd_bn(list(range(1, n + 1)), j=True)
            modes = ["all"]
        else:
            ne, nn = rng.choice([(1, 1), (1, 2), (2, 2), (2, 3)])
            w = scm_world(rng, ne, nn, cells=150)
            H = PHist(rng, rec, w, h)
            exo, endo, edges = scm_shape(rng, ne, nn)
            fs = []
            pa = {v: [a for a, b in edges if b == v] for v in endo}
            for u in exo: fs.append((u, H.cpt(u, [], rng.choice([4, 5, 10, 20]), .2)))
            for v in endo: fs.append((v, H.deteq(v, pa[v])))
            if any(H.objs[f - 1] is None for _, f in fs): return
            rng.shuffle(fs)
            x = H.model(True, exo + endo, edges, fs, endo=endo, j=True, cast=True)
            modes = ["all", "endo"]
        if H.objs[x - 1] is None: return
        H.smp(x, rng.choice([300, 600, 1000]), rng.choice(modes))
        H.smp(x, rng.choice([1, 2, 7, 30]), rng.choice(modes))
        if rng.random() < .1: H.smp(x, rng.choice([0, -1]), modes[0])
        return
    n = rng.choice([1, 2, 3, 4])
    w = small_world(rng, n, cells=60)
    H = PHist(rng, rec, w, h)
    vs = list(range(1, n + 1)); rng.shuffle(vs)
    k = rng.randint(1, n)
    left, right = vs[:k], vs[k:]
    K = rng.choice([1, 2, 4, 10, 20])
    nl = _m.prod(w.card(v) for v in left); nr = _m.prod(w.card(v) for v in right)
    cols = [composition(rng, K, nl, rng.choice([.2, .6])) for _ in range(nr)]
    vals = [[cols[c][r], K] for r in range(nl) for c in range(nr)]
    x = H.table(left + right, vals, left)
    if H.objs[x - 1] is None: return
    if not right:
        H.fsmp(x, rng.choice([200, 600]), left); H.fsmp(x, rng.choice([1, 3, 0]), left)
        return
    H.fsmp(x, 5, left)
    extra = rng.random() < .3
    obs = []
    if extra: xv = w.add("Extra", ["p", "q"])
    for _ in range(rng.choice([1, 5, 200, 400])):
        o = [[v, rng.randint(1, w.card(v))] for v in right]
        if extra: o.append([xv, rng.randint(1, 2)])
        obs.append(o)
    H.csmp(x, obs, left, rng.random() < .4)


# ---------------------------------------------------------------- C15
def pos_world(w, m, ord_ids, sord, prefix, init_id, init_state):
    """names of a uai file read back: variable number i, state number j"""
    return World([f"{prefix}{i + init_id}" for i in range(len(ord_ids))],
                 [[j + init_state for j in range(len(s))] for s in sord])


def hist_c15(rng, rec, h, tier):
    tmp = tempfile.mkdtemp(prefix="verif_io_")
    try:
        fmt = rng.choice(["uai", "uai", "bif", "xmlbif"])
        big = rng.random() < .15
        scm = rng.random() < .45
        kinds = None if fmt == "uai" else ["str", "odd_", "strx_"]
        lab = lambda nm, c: labels_for(rng, nm, c) if fmt == "uai" else [
            [f"{nm.lower()}{i}", ["no", "yes", "maybe", "low", "high", "x_y"][i % 6], f"s{10 * i}"][kk] for i in range(c)]
        if scm:
            ne, nn = rng.choice([(1, 1), (1, 2), (2, 2), (2, 3), (3, 3)]) if not big else (5, 6)
            names = rng.sample(NAMES, ne + nn)
            while True:
                kk = rng.randrange(3)
                cards = [rng.choice([2, 2, 3, 4] if i < ne else [2, 2, 3]) for i in range(ne + nn)]
                if big or _m.prod(cards) <= 400: break
            w = World(names, [lab(nm, c) for nm, c in zip(names, cards)])
            H = MHist(rng, rec, w, h, "numpy")
            exo, endo, edges = scm_shape(rng, ne, nn)
            # an equation without parents is not representable
            isolated = [v for v in endo if all(b != v for a, b in edges)]
            edges = edges + [[rng.choice(exo), v] for v in isolated]
            nodes = exo + endo
            x = H.rnd_scm(exo, endo, edges)
        else:
            n = rng.choice([1, 2, 3, 4, 5, 6]) if not big else rng.choice([11, 12])
            names = rng.sample(NAMES, n)
            kk = rng.randrange(3)
            w = World(names, [lab(nm, rng.choice([1, 2, 2, 2, 3, 3, 4])) for nm in names])
            H = MHist(rng, rec, w, h, rng.choice(["numpy", "numpy", "list", "treedict", "numpy1d"]))
            nodes = list(range(1, n + 1))
            edges = rnd_dag2(rng, nodes, p=.25 if big else None)
            x = H.rnd_bn(nodes, edges)
        if H.objs[x - 1] is None: return
        m = H.fac(x)
        save_read(H, x, m, nodes, fmt, scm, tmp)
        if rng.random() < .5: H.magain(x)
        if rng.random() < .3: tiny(H, fmt, tmp, rng)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def tiny(H, fmt, tmp, rng):
    """very small probabilities survive (to six significant digits)"""
    dom = {"A": ["a0", "a1", "a2"], "B": ["b0", "b1"]}
    e = rng.randint(5, 14)
    p = 1.234567 * 10 ** -e
    q = 3.3333333 * 10 ** -rng.randint(3, 9)
    vals = [[p, q], [.25, .5], [.75 - p, .5 - q]]

    def go():
        fa = MultinomialFactor(dom, np.array(vals), right_vars=["B"])
        fb = MultinomialFactor(dict(B=dom["B"]), [1 - p, p])
        m = BayesianNetwork(nx.DiGraph([("B", "A")]), [fa, fb])
        path = os.path.join(tmp, "tiny." + fmt)
        m.save(path)
        r = BayesianNetwork.read(path)
        if fmt == "uai":
            order = m.variables; mp = {f"V{i}": v for i, v in enumerate(order)}
            g = {mp[k]: f for k, f in r.factors.items()}
            at = lambda v, **o: g[v].get_value(**{f"V{order.index(k)}": m.domains[k].index(s) for k, s in o.items()})
        else: at = lambda v, **o: r.factors[v].get_value(**o)
        l1, l2 = [], []
        for a in dom["A"]:
            for b in dom["B"]:
                l1.append(fa.get_value(A=a, B=b)); l2.append(at("A", A=a, B=b))
        for b in dom["B"]:
            l1.append(fb.get_value(B=b)); l2.append(at("B", B=b))
        f = lambda v: enc(round(math.log10(v), 6)) if v > 0 else [2, 0, 0]
        return [f(v) for v in l1], [f(v) for v in l2]
    r, err = call(go)
    l1, l2 = r if err == "" else ([], [])
    H.rec.ev("iot", fmt=fmt, l1=l1, l2=l2, err=err)


def save_read(H, x, m, nodes, fmt, scm, tmp):
    rng, w = H.rng, H.w
    names = list(m.variables)
    ordn = (list(m.endogenous) + list(m.exogenous)) if scm else names
    kw = {}
    if fmt == "uai" and rng.random() < .4:
        ordn = names[:]; rng.shuffle(ordn); kw["var_order"] = list(ordn)
    ord_ids = [w.vid(v) for v in ordn]
    sord = [[w.sid(w.vid(v), s) for s in m.domains[v]] for v in ordn]
    path = os.path.join(tmp, f"model{rng.randrange(100)}.{fmt}")
    prefix, iid, ist = "V", 0, 0
    vt = ""
    opt = rng.random() < .35
    if opt and fmt == "uai": prefix, iid, ist = rng.choice(["V", "X", "Var_"]), rng.choice([0, 1, 3]), rng.choice([0, 1])
    if opt and fmt != "uai": vt = rng.choice(VTYPES)
    asbn = scm and fmt != "uai" and rng.random() < .3    # a causal model in bif read as a Bayesian network
    cls = BayesianNetwork if (not scm or asbn) else SCM

    def go():
        p = m.save(path, **kw)
        if not os.path.exists(p): raise RuntimeError("no file")
        if not opt: return cls.read(p if rng.random() < .5 else str(path))
        mod = scmread if cls is SCM else bnread
        if fmt == "uai":
            k2 = dict(var_prefix=prefix, init_var_id=iid, init_var_state=ist)
            if cls is SCM and rng.random() < .5: k2["cast_multinomial"] = False
            return mod.from_uai(path, **k2)
        return getattr(mod, "from_" + fmt)(path, vtype=vt)
    r, err = call(go)
    rw = pos_world(w, m, ord_ids, sord, prefix, iid, ist) if fmt == "uai" else w
    p, perr = smproj(rw, r) if err == "" else (MEMPTY, err)
    H.rec.ev("io", x=x, fmt=fmt, scm=cls is SCM, ord=ord_ids, sord=sord, r=p, vt=vt, l1=[], l2=[], err=perr)
    if fmt == "uai" and err == "":
        # the file itself
        with open(path) as f: label, *rest = f.read().split()
        H.rec.ev("uaiw", x=x, ord=ord_ids, sord=sord, label=label, tok=[enc(t) for t in rest], err="")


def uai_text(rng, causal, tok):
    """a file with these numbers, in one of the layouts found in practice"""
    def num(q):
        if q[1] == 1: return str(q[0])
        v = q[0] / q[1]
        return rng.choice([repr(v), "%.17e" % v, ("%.17f" % v), ("%.17f" % v).lstrip("0") or "0"])
    out = "CAUSAL" if causal else "BAYES"
    out += rng.choice(["\n", "\n\n", " \n"])
    for q in tok: out += num(q) + rng.choice([" ", " ", "\n", "\t", "  ", " \n\n"])
    return out


def uai_read(rng, rec, causal, tok, tmp):
    n, card = tok[0][0], [q[0] for q in tok[1:1 + tok[0][0]]]
    prefix, iid, ist = ("V", 0, 0) if rng.random() < .6 else (rng.choice(["V", "X_"]), rng.choice([0, 1, 2]), rng.choice([0, 1]))
    w = World([f"{prefix}{i + iid}" for i in range(n)], [[j + ist for j in range(c)] for c in card])
    path = os.path.join(tmp, f"file{rng.randrange(100)}.uai")
    cut = rng.random() < .08
    if cut: tok = tok[:rng.randrange(n + 2, len(tok))]
    with open(path, "w") as f: f.write(uai_text(rng, causal, tok))
    cls, mod = (SCM, scmread) if causal else (BayesianNetwork, bnread)

    def go():
        if (prefix, iid, ist) == ("V", 0, 0) and rng.random() < .5: return cls.read(path)
        return mod.from_uai(path, var_prefix=prefix, init_var_id=iid, init_var_state=ist)
    r, err = call(go)
    p, perr = smproj(w, r) if err == "" else (MEMPTY, err)
    rec.ev("uair", causal=causal, tok=tok, r=p, err=perr)


def gen_c15(rng, rec, h, tier, gen):
    """files emitted by MC_Io"""
    rec.begin(h, vts=[])
    tmp = tempfile.mkdtemp(prefix="verif_io_")
    try:
        for g in gen: uai_read(rng, rec, g["causal"], g["tok"], tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def hist_c15_uai(rng, rec, h, tier):
    """files written by other programs: any numbering of the variables, any order of the parents"""
    rec.begin(h, vts=[])
    tmp = tempfile.mkdtemp(prefix="verif_io_")
    try:
        n = rng.choice([1, 2, 3, 4, 5, 6, 12])
        causal = rng.random() < .5
        card = [rng.choice([1, 2, 2, 3, 3, 4]) for _ in range(n)]
        topo = rng.sample(range(n), n)
        sc = []
        for i in range(n):
            before = topo[:topo.index(i)]
            k = min(len(before), rng.choice([0, 1, 1, 2, 2, 3]))
            sc.append(rng.sample(before, k) + [i])
        N = lambda k: [k, 1]
        tok = [N(n)] + [N(c) for c in card] + [N(n)]
        for s in sc: tok += [N(len(s))] + [N(v) for v in s]
        for s in sc:
            rows = _m.prod(card[v] for v in s[:-1]); c = card[s[-1]]
            if causal and len(s) > 1: vals = [N(rng.randrange(c)) for _ in range(rows)]
            else:
                K = rng.choice([8, 10, 20, 7])
                vals = []
                for _ in range(rows): vals += [[a // _m.gcd(a, K), K // _m.gcd(a, K)] for a in composition(rng, K, c, .2)]
            tok += [N(len(vals))] + vals
        uai_read(rng, rec, causal, tok, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
