"""Drivers for the factor algebra (C01, C02, C04 and the factor part of C03)."""
from core import *
import math as _m
import copy

SIZE_LIMIT = 250


class FHist:
    """one history of factor calls, executed on one or several backends at once"""
    def __init__(self, rng, rec, w, vtypes, h):
        self.rng, self.rec, self.w, self.vts = rng, rec, w, vtypes
        self.objs = []      # per heap slot: list of factors (one per backend) or None
        self.meta = []      # per heap slot: None or dict(vs, d) (as observed on backend 0) for choosing arguments
        rec.begin(h, cards=[w.card(v + 1) for v in range(len(w.names))], vts=vtypes,
                  names=w.names, labels=[[repr(x) for x in l] for l in w.labels])

    def push(self, a, outs, **args):
        rs, errs, facs = [], [], []
        for (f, err) in outs:
            if err == "":
                p, perr = sproj(self.w, f)
                rs.append(p); errs.append(perr); facs.append(f if perr == "" else None)
            else:
                rs.append(EMPTY); errs.append(err); facs.append(None)
        self.rec.ev(a, rs=rs, errs=errs, **args)
        self.objs.append(facs if all(x is not None for x in facs) else None)
        # "pos": built from non-negative numbers without subtraction, so that its zeros are exact also in floating point
        pos = True
        if a == "mk": pos = all(q[0] >= 0 for q in args["vals"])
        if a in ("bin", "scal"):
            pos = args["op"] != "sub" and self.meta[args["x"] - 1]["pos"]
            pos = pos and (self.meta[args["y"] - 1]["pos"] if a == "bin" else args["q"][0] >= 0)
        if a == "comb": pos = all(self.meta[i - 1]["pos"] for i in args["xs"])
        if a in ("restr", "fold", "ren"): pos = self.meta[args["x"] - 1]["pos"]
        self.meta.append(dict(vs=rs[0]["vs"], d=rs[0]["d"], l=rs[0]["l"], t=rs[0]["t"], pos=pos,
                              ex=a == "mk" or (a in ("restr", "ren") and self.meta[args["x"] - 1]["ex"])) if self.objs[-1] else None)
        return len(self.objs)

    def live(self): return [i + 1 for i, o in enumerate(self.objs) if o is not None]

    def size(self, *ids):
        s = {}
        for i in ids:
            m = self.meta[i - 1]
            for v, d in zip(m["vs"], m["d"]): s[v] = len(d)
        return _m.prod(s.values())

    # ---- creation
    def mk(self, vs, mode=None, ls=None, rs=None, vals=None, doms=None, intlike=False, canon=None):
        rng, w = self.rng, self.w
        vo = list(vs)
        if rng.random() < .7: rng.shuffle(vo)
        do = []
        for v in vo:
            d = list(doms[v]) if doms and v in doms else list(range(1, w.card(v) + 1))
            if rng.random() < .35: rng.shuffle(d)
            do.append(d)
        n = _m.prod(len(d) for d in do)
        tree = None
        if canon is not None:       # values given for ascending variables and states
            base = sorted(vs)
            ix = {st: x for st, x in zip(itertools.product(*[range(1, w.card(v) + 1) for v in base]), canon)}
            vals = [ix[tuple(dict(zip(vo, st))[v] for v in base)] for st in itertools.product(*do)]
        if vals is None and "treedict" in self.vts and vo and rng.random() < .35:
            tree, vals = self.rnd_tree(vo, do)
        const = vals is None and rng.random() < .06
        if const: vals = [rnd_rat(rng)] * n
        if vals is None:
            z = rng.choice([0, .1, .3, .6]); g = rng.choice([0, 0, .2])
            vals = [rnd_rat(rng, z, g) for _ in range(n)]
            if intlike: vals = [[x[0], 1] for x in vals]
        mode = rng.randrange(4) if mode is None else mode
        if ls is None:
            ls = [v for v in vo if rng.random() < .5]
        if rs is None:
            rs = [v for v in vo if v not in ls]
        rng.shuffle(ls); rng.shuffle(rs)
        kw = {}
        def side(vs):       # a list of names, or the single name
            names = [w.name(v) for v in vs]
            return names[0] if len(names) == 1 and rng.random() < .3 else names
        if mode in (1, 3): kw["left_vars"] = side(ls)
        if mode in (2, 3): kw["right_vars"] = side(rs)
        shape = rng.choice(["flat", "nested", "array"])
        dom = {w.name(v): [w.lab(v, s) for s in d] for v, d in zip(vo, do)}
        fv = [fl(x) for x in vals]
        if all(x[1] == 1 for x in vals) and rng.random() < .5: fv = [int(x[0]) for x in vals]
        outs = []
        for vt in self.vts:
            data = fv if shape == "flat" else np.reshape(fv, [len(d) for d in do])
            if shape == "nested" and len(vo) > 0: data = data.tolist()
            if vt == "treedict" and tree is not None: data = copy.deepcopy(tree)
            if const and shape == "flat": data = fv[0]
            dflt = rng.random() < .25
            def make(vt=vt, data=data, dflt=dflt):
                if dflt:
                    old = DataStore.DEFAULT_STORE
                    try:
                        DataStore.set_default(vt)
                        return MultinomialFactor({k: list(x) for k, x in dom.items()}, data, **{k: x if isinstance(x, str) else list(x) for k, x in kw.items()})
                    finally:
                        DataStore.set_default(old)
                return MultinomialFactor({k: list(x) for k, x in dom.items()}, data, vtype=vt, **{k: x if isinstance(x, str) else list(x) for k, x in kw.items()})
            outs.append(call(make))
        return self.push("mk", outs, vo=vo, do=do, vals=vals, mode=mode, ls=ls, rsv=rs)

    def rnd_tree(self, vo, do):
        """a tree whose branches need not mention all variables, in any order, and the table it stands for"""
        rng, w = self.rng, self.w
        pos = {v: i for i, v in enumerate(vo)}
        z = rng.choice([0, .2]); g = rng.choice([0, 0, .2])

        def grow(left, depth):
            if not left or (depth > 0 and rng.random() < .4):
                q = rnd_rat(rng, z, g)
                return fl(q), q
            v = rng.choice(left)
            sub = {s: grow([x for x in left if x != v], depth + 1) for s in rng.sample(do[pos[v]], len(do[pos[v]]))}
            return dict(var=w.name(v), children={w.lab(v, s): t[0] for s, t in sub.items()}), (v, {s: t[1] for s, t in sub.items()})
        tree, sym = grow(list(vo), 0)

        def at(t, asg):
            while isinstance(t, tuple): t = t[1][asg[t[0]]]
            return t
        return tree, [list(at(sym, dict(zip(vo, st)))) for st in itertools.product(*do)]

    # ---- operations
    def binop(self, op, i, j):
        meth = self.rng.random() < .5
        outs = []
        for k in range(len(self.vts)):
            f, g = self.objs[i - 1][k], self.objs[j - 1][k]
            fn = {"mul": (lambda: f.multiply(g)) if meth else (lambda: f * g),
                  "add": (lambda: f.addition(g)) if meth else (lambda: f + g),
                  "sub": (lambda: f.subtract(g)) if meth else (lambda: f - g),
                  "div": (lambda: f.divide(g)) if meth else (lambda: f / g)}[op]
            outs.append(call(fn))
        return self.push("bin", outs, op=op, x=i, y=j)

    def scalar(self, op, i, q, rev):
        c = fl(q)
        kind = self.rng.choice(["py", "py", "np"])
        if q[1] == 1: c = int(c)
        if kind == "np" and not rev: c = np.float64(c) if isinstance(c, float) else np.int64(c)
        outs = []
        for k in range(len(self.vts)):
            f = self.objs[i - 1][k]
            fn = {("mul", 0): lambda: f * c, ("mul", 1): lambda: c * f, ("add", 0): lambda: f + c, ("add", 1): lambda: c + f,
                  ("sub", 0): lambda: f - c, ("sub", 1): lambda: c - f, ("div", 0): lambda: f / c, ("div", 1): lambda: c / f}[(op, int(rev))]
            outs.append(call(fn))
        return self.push("scal", outs, op=op, x=i, q=q, rev=bool(rev))

    def combine_all(self, ids):
        outs = []
        for k in range(len(self.vts)):
            fs = [self.objs[i - 1][k] for i in ids]
            outs.append(call(lambda: MultinomialFactor.combine_all(*fs)))
        return self.push("comb", outs, xs=ids)

    def restrict(self, i, obs, listy):
        """obs: list of [v, [states]]; listy: allow list observations"""
        w, rng = self.w, self.rng
        kw = {}
        for v, ss in obs:
            labs = [w.lab(v, s) for s in ss]
            kw[w.name(v)] = labs if (len(ss) > 1 or (listy and rng.random() < .3 and self.vts == ["numpy"])) else labs[0]
        outs = []
        meth = rng.random() < .5
        before = json.dumps([[k, list(map(repr, x)) if isinstance(x, list) else repr(x)] for k, x in kw.items()])
        for k in range(len(self.vts)):
            f = self.objs[i - 1][k]
            outs.append(call((lambda: f.restrict(**kw)) if meth else (lambda: f.R(**kw))))
        same = before == json.dumps([[k, list(map(repr, x)) if isinstance(x, list) else repr(x)] for k, x in kw.items()])
        return self.push("restr", outs, x=i, obs=obs, same=bool(same))

    def fold(self, op, i, rem):
        w = self.w
        names = [w.name(v) for v in rem]
        style = self.rng.choice(["meth", "op"])
        outs = []
        for k in range(len(self.vts)):
            f = self.objs[i - 1][k]
            if op == "marg":
                fn = (lambda: f.marginalize(*names)) if style == "meth" else (lambda: f ** (names[0] if len(names) == 1 else names))
            else:
                fn = (lambda: f.maxmarginalize(*names)) if style == "meth" else (lambda: f ^ (names[0] if len(names) == 1 else names))
            outs.append(call(fn))
        return self.push("fold", outs, op=op, x=i, rem=rem)

    def rename(self, i, mp):
        m = {self.w.name(a): self.w.name(b) for a, b in mp}
        outs = []
        for k in range(len(self.vts)):
            f = self.objs[i - 1][k]
            outs.append(call(lambda: f.rename_vars(dict(m))))
        return self.push("ren", outs, x=i, mp=mp)

    # ---- observers
    def audit(self):
        """every factor of the history, observed again"""
        for i in self.live():
            rs, errs = [], []
            for f in self.objs[i - 1]:
                p, e = sproj(self.w, f)
                rs.append(p); errs.append(e)
            self.rec.ev("again", x=i, rs=rs, errs=errs)

    def views(self, i):
        w, rng = self.w, self.rng
        m = self.meta[i - 1]
        allv = []
        for f in self.objs[i - 1]:
            def obs():
                dom = f.domain
                names = list(dom.keys())
                ids = [w.vid(n) for n in names]
                out = dict(vo=ids, do=[[w.sid(w.vid(n), s) for s in dom[n]] for n in names])
                out["g"] = proj(w, f)["t"]
                out["vals"] = [enc(x) for x in f.values]
                out["vlist"] = [enc(x) for x in f.values_list]
                vd = f.values_dict
                out["vdict"] = [[[[w.vid(a), w.sid(w.vid(a), b)] for a, b in key], enc(val)] for key, val in vd.items()]
                arr = f.values_array()
                out["arr0"] = [enc(x) for x in np.ravel(arr)]
                out["sh0"] = list(np.shape(arr))
                perm = names[:]; rng.shuffle(perm)
                if len(perm) > 0:
                    arr = f.values_array(perm)
                    out["perm"] = [w.vid(x) for x in perm]
                    out["arr1"] = [enc(x) for x in np.ravel(arr)]
                    out["sh1"] = list(np.shape(arr))
                else:
                    out["perm"], out["arr1"], out["sh1"] = [], [enc(x) for x in np.ravel(arr)], []
                # get_value / prob with an irrelevant extra observation
                extra = [v for v in range(1, len(w.names) + 1) if v not in ids]
                probes = []
                for _ in range(min(3, len(m["t"]))):
                    asg = [[v, rng.choice(d)] for v, d in zip(m["vs"], m["d"])]
                    kw = w.asg(asg)
                    if extra and rng.random() < .6:
                        x = rng.choice(extra); kw[w.name(x)] = w.lab(x, 1)
                    items = list(kw.items()); rng.shuffle(items); kw = dict(items)
                    gv = enc(f.get_value(**kw))
                    pr = f.prob([kw, kw])
                    lp = [0, 0, 0]
                    if float(f.get_value(**kw)) > 0: lp = enc(math.exp(f.log_prob([kw])[0]))
                    probes.append(dict(asg=asg, g=gv, p=[enc(x) for x in pr], lp=lp))
                out["probes"] = probes
                out["deg"] = bool(f.is_degenerate())
                out["num"] = isinstance(f, MultinomialFactor)
                out["sa"], out["ae"] = (enc(f.store.sum_all()), bool(f.store.all_equal())) if out["num"] else ([0, 0, 0], False)
                out["ca"] = [int(c) for c in f.store.cardinality]
                out["cd"] = [int(f.store.cardinality_dict[n]) for n in names]
                st = f.store.copy()
                out["copy"] = [enc(x) for x in st.values_list]
                # a write to the copy: where, what the copy holds afterwards, and the original
                out["wr"] = [[v, rng.choice(d)] for v, d in zip(m["vs"], m["d"])]
                st.set_value(7, w.asg(out["wr"]))
                out["cw"] = [enc(x) for x in st.values_list]
                out["ow"] = proj(w, f)["t"]
                return out
            o, err = call(obs)
            allv.append(dict(err=err, **(o or dict(vo=[], do=[], g=[], vals=[], vlist=[], vdict=[], arr0=[], sh0=[], perm=[], arr1=[], sh1=[],
                                                   probes=[], deg=False, num=False, sa=[0, 0, 0], ae=False, ca=[], cd=[], copy=[], wr=[], cw=[], ow=[]))))
        self.rec.ev("views", x=i, vs=allv, ex=bool(m["ex"]))

    def roles(self, i):
        w = self.w
        rr = []
        for f in self.objs[i - 1]:
            def obs():
                nm = f.name
                assert nm.startswith("P(") and nm.endswith(")")
                parts = nm[2:-1].split("|")
                sp = lambda s: [w.vid(x) for x in s.split(",") if x != ""]
                return dict(nl=sorted(sp(parts[0])), nr=sorted(sp(parts[1])) if len(parts) > 1 else [],
                            ld=sorted([w.vid(v), sorted(w.sid(w.vid(v), s) for s in d)] for v, d in f.left_domain.items()),
                            rd=sorted([w.vid(v), sorted(w.sid(w.vid(v), s) for s in d)] for v, d in f.right_domain.items()),
                            vars=sorted(w.vid(v) for v in f.variables), ll=len(f.left_vars), lr=len(list(f.right_vars)))
            o, err = call(obs)
            rr.append(dict(err=err, **(o or dict(nl=[], nr=[], ld=[], rd=[], vars=[], ll=0, lr=0))))
        self.rec.ev("roles", x=i, ro=rr)


def random_ops(H, n, listobs=True):
    rng, w = H.rng, H.w
    nv = len(w.names)
    for _ in range(n):
        L = H.live()
        if not L: return
        op = rng.choice(["mul", "mul", "mul", "add", "sub", "div", "div", "scal", "scal", "restr", "restr", "restr",
                         "marg", "marg", "marg", "max", "max", "ren", "comb", "mk"])
        i = rng.choice(L)
        m = H.meta[i - 1]
        dm = dict(zip(m["vs"], m["d"]))
        if op in ("mul", "add", "sub", "div"):
            cands = [j for j in L if H.size(i, j) <= SIZE_LIMIT and
                     all(dm.get(v, d) == d for v, d in zip(H.meta[j - 1]["vs"], H.meta[j - 1]["d"]))]
            if op == "div": cands = [j for j in cands if H.meta[j - 1]["pos"]]
            if op == "div" and rng.random() < .5:   # divisor: a marginal of the dividend
                if m["vs"] and m["pos"]:
                    j = H.fold("marg", i, rng.sample(m["vs"], rng.randint(1, len(m["vs"]))))
                    if H.objs[j - 1] is None: return
                    H.binop("div", i, j)
                continue
            if cands: H.binop(op, i, rng.choice(cands))
        elif op == "comb":
            ids = [i]
            for j in rng.sample(L, min(len(L), 3)):
                ok = all(dict(zip(H.meta[x - 1]["vs"], H.meta[x - 1]["d"])).get(v, d) == d for x in ids
                         for v, d in zip(H.meta[j - 1]["vs"], H.meta[j - 1]["d"]))
                if ok and H.size(*ids, j) <= SIZE_LIMIT: ids.append(j)
            H.combine_all(ids)
        elif op == "scal":
            o = rng.choice(["mul", "add", "sub", "div"])
            q = rnd_rat(rng, .05 if o != "div" else 0, .2)
            rev = rng.random() < .35 and (o != "div" or m["pos"])
            H.scalar(o, i, q, rev)
        elif op == "restr":
            obs = []
            for v, d in zip(m["vs"], m["d"]):
                r = rng.random()
                if r < .4: obs.append([v, [rng.choice(d)]])
                elif r < .6 and listobs and len(d) > 1 and H.vts == ["numpy"]:
                    obs.append([v, rng.sample(d, rng.randint(2, len(d)))])
            for v in range(1, nv + 1):
                if v not in m["vs"] and rng.random() < .15: obs.append([v, [rng.randint(1, w.card(v))]])
            rng.shuffle(obs)
            H.restrict(i, obs, listobs)
        elif op in ("marg", "max"):
            if op == "max" and "numpy1d" in H.vts: continue
            if not m["vs"]: continue
            k = rng.randint(1, len(m["vs"]))
            H.fold("marg" if op == "marg" else "max", i, rng.sample(m["vs"], k))
        elif op == "ren":
            # injective renaming towards unused variables of the same states (or permutation between variables with equal states)
            mp = []
            used = set(m["vs"])
            for v in m["vs"]:
                c = [x for x in range(1, nv + 1) if w.labels[x - 1] == w.labels[v - 1] and x not in used]
                if c and rng.random() < .7:
                    x = rng.choice(c); used.add(x); mp.append([v, x])
            if rng.random() < .3:
                c = [x for x in range(1, nv + 1) if x not in used]
                if c: mp.append([rng.choice(c)] * 2)
            H.rename(i, mp)
        elif op == "mk" and rng.random() < .5:
            H.mk(rng.sample(range(1, nv + 1), rng.randint(0, min(3, nv))))


def rnd_world(rng):
    n = rng.randint(3, 7)
    w = World.random(rng, n, (2, 2, 2, 3, 3, 4, 1) if rng.random() < .88 else (2, 2, 2, 3, 5, 7, 11, 12))
    # a few spare variables with the same labels, as rename targets
    for v in range(1, n + 1):
        if rng.random() < .4:
            nm = rng.choice([x for x in NAMES if x not in w.ids])
            w.add(nm, w.labels[v - 1])
    return w


def hist_c01(rng, rec, h, tier):
    w = rnd_world(rng)
    vt = rng.choice(["numpy"] * 5 + ["numpy1d", "list", "treedict"])
    H = FHist(rng, rec, w, [vt], h)
    nv = len(w.names)
    for _ in range(rng.randint(2, 3)):
        H.mk(rng.sample(range(1, nv + 1), rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 4]) if nv >= 4 else rng.randint(1, nv)))
    random_ops(H, rng.randint(4, 9))


def hist_c02(rng, rec, h, tier):
    w = rnd_world(rng)
    vts = list(VTYPES)
    if rng.random() < .4: vts = ["numpy", "list", "treedict"]
    H = FHist(rng, rec, w, vts, h)
    nv = len(w.names)
    for _ in range(rng.randint(1, 3)):
        i = H.mk(rng.sample(range(1, nv + 1), rng.choice([1, 1, 2, 2, 3])))
        if H.objs[i - 1] and rng.random() < .7: H.views(i)
    random_ops(H, rng.randint(3, 6), listobs=False)
    L = H.live()
    if L:
        for i in rng.sample(L, min(2, len(L))): H.views(i)


def hist_c04(rng, rec, h, tier):
    w = rnd_world(rng)
    vt = rng.choice(VTYPES + ["numpy"])
    H = FHist(rng, rec, w, [vt], h)
    nv = len(w.names)
    for _ in range(rng.randint(2, 4)):
        vs = rng.sample(range(1, nv + 1), rng.choice([1, 2, 2, 3, 3]))
        if rng.random() < .25:   # arbitrary, possibly contradictory, declarations
            ls = [v for v in vs if rng.random() < .5]
            rs = [v for v in vs if rng.random() < .5]
            if rng.random() < .3:
                o = [v for v in range(1, nv + 1) if v not in vs]
                if o: (ls if rng.random() < .5 else rs).append(rng.choice(o))
            H.mk(vs, mode=3, ls=ls, rs=rs)
        else:
            H.mk(vs)
    random_ops(H, rng.randint(4, 8))
    for i in H.live(): H.roles(i)


def hist_c03_factor(rng, rec, h, tier):
    w = rnd_world(rng)
    vt = rng.choice(["numpy"] * 3 + ["numpy1d", "list", "treedict"])
    H = FHist(rng, rec, w, [vt], h)
    nv = len(w.names)
    for _ in range(rng.randint(2, 3)):
        H.mk(rng.sample(range(1, nv + 1), rng.choice([1, 1, 2, 2, 2, 3, 3])))
    for _ in range(rng.randint(2, 4)):
        random_ops(H, rng.randint(1, 3))
        H.audit()
    for i in H.live()[:2]: H.views(i)
    H.audit()


# ---------------------------------------------------------------- behaviours generated from MC_Factor
def replay(H, g, after=None):
    """the two factors of a generated behaviour and every sequence of calls that starts from them (prefixes shared)"""
    rng, w = H.rng, H.w
    at = {}
    for k, f in enumerate(g["fs"]):
        ls = list(f["l"])
        at[k] = H.mk(list(f["vs"]), mode=rng.randrange(4) if len(ls) == len(f["vs"]) else rng.randint(1, 3), ls=ls,
                     rs=[v for v in f["vs"] if v not in ls], canon=[list(x) for x in f["t"]])
    done = {}
    for steps in g["seqs"]:
        ids = {1: at[0], 2: at[1]}
        key, env = (), {}
        for n, st in enumerate(steps):
            key += (json.dumps(st, sort_keys=True),)
            if key not in done: done[key] = step(H, st, ids, env)
            else: step_names(H, st, env)
            ids[n + 3] = done[key]
            if not done[key] or H.objs[done[key] - 1] is None: break
        if after: after(H)


def step_names(H, st, env):
    """a fresh name of the specification stands for one new variable with the states of the renamed one"""
    w = H.w
    if st["a"] != "ren": return []
    mp = []
    for p, q in st["mp"]:
        p = env.get(p, p)
        if q > w.nbase and q not in env:
            key = (q, json.dumps([repr(l) for l in w.labels[p - 1]]))
            if key not in w.fresh: w.fresh[key] = w.add(next(n for n in NAMES if n not in w.ids), w.labels[p - 1])
            env[q] = w.fresh[key]
        mp.append([p, env.get(q, q)])
    return mp


def step(H, st, ids, env):
    rng, w, a = H.rng, H.w, st["a"]
    x = ids[st["x"]] if "x" in st else None
    if a == "bin": return H.binop(st["op"], x, ids[st["y"]])
    if a == "scal": return H.scalar(st["op"], x, [3, 2], st["rev"])
    if a == "comb": return H.combine_all([ids[i] for i in st["xs"]])
    if a == "restr":
        obs = [[env.get(v, v), list(ss)] for v, ss in st["obs"]]
        if any(len(ss) > 1 for _, ss in obs) and H.vts != ["numpy"]: return 0
        for _, ss in obs: rng.shuffle(ss)
        extra = [v for v in range(1, w.nbase + 1) if v not in H.meta[x - 1]["vs"]]
        if extra and rng.random() < .2: obs.append([rng.choice(extra), [1]])
        rng.shuffle(obs)
        return H.restrict(x, obs, True)
    if a == "fold":
        if st["op"] == "max" and "numpy1d" in H.vts: return 0
        rem = [env.get(v, v) for v in st["rem"]]; rng.shuffle(rem)
        return H.fold(st["op"], x, rem)
    mp = step_names(H, st, env)
    return H.rename(x, mp)


def gen_world(rng):
    """variables 1, 2, 3 with 2, 3, 2 states; the first and the third share their labels"""
    names = rng.sample(NAMES, 3)
    a, b = labels_for(rng, names[0], 2), labels_for(rng, names[1], 3)
    w = World(names, [a, b, a])
    w.nbase, w.fresh = 3, {}
    return w


def gen_factor(vts, rng, rec, h, g, views=0, roles=False, audit=False):
    w = gen_world(rng)
    H = FHist(rng, rec, w, vts, h)
    replay(H, g)
    L = H.live()
    if roles:
        for i in L: H.roles(i)
    for i in rng.sample(L, min(views, len(L))): H.views(i)
    if audit: H.audit()


def gen_c01(rng, rec, h, tier, g): gen_factor([rng.choice(["numpy"] * 5 + ["numpy1d", "list", "treedict"])], rng, rec, h, g)
def gen_c02(rng, rec, h, tier, g): gen_factor(list(VTYPES) if rng.random() < .5 else ["numpy", "list", "treedict"], rng, rec, h, g, views=4)
def gen_c04(rng, rec, h, tier, g): gen_factor([rng.choice(VTYPES + ["numpy"])], rng, rec, h, g, roles=True)
def gen_c03(rng, rec, h, tier, g): gen_factor([rng.choice(["numpy"] * 3 + ["numpy1d", "list", "treedict"])], rng, rec, h, g, views=1, audit=True)
