"""Driver for the utilities that enumerate and locate joint assignments (C25)."""
from collections import OrderedDict
from core import *
from d_model import *
import bcause.util.domainutils as du
import bcause.util.arrayutils as au


def py(x): return x.item() if hasattr(x, "item") else x


class DHist(MHist):
    def __init__(self, rng, rec, w, h):
        super().__init__(rng, rec, w, h, "numpy")

    def run(self, vo, dd, obs, every=False):
        rng, w = self.rng, self.w
        mk = lambda: {w.name(v): [w.lab(v, s) for s in st] for v, st in zip(vo, dd)}
        dom = mk() if rng.random() < .7 else OrderedDict(mk())
        o = {w.name(v): w.lab(v, s) for v, s in obs}
        if rng.random() < .5: o = dict(rng.sample(list(o.items()), len(o)))
        sid = lambda v, s: w.sid(v, s)
        num = lambda x: int(x) if int(x) == x else 1 / 0
        row = lambda t: [sid(v, s) for v, s in zip(vo, t, strict=True)]
        asg = lambda d: [[w.vid(k), sid(w.vid(k), s)] for k, s in d.items()]
        doms = lambda d: [[w.vid(k), [sid(w.vid(k), s) for s in l]] for k, l in d.items()]
        known = [[v, s] for v, s in obs]
        if rng.random() < .3:      # variables outside the domain are ignored
            extra = w.add(f"extra{len(w.names)}", ["s0", "s1"])
            o[w.name(extra)] = "s0"; known = known + [[extra, 1]]
        qs = []

        def q(op, fn, **kw):
            r, err = call(fn)
            qs.append(dict(dict(op=op, obs=[], S=[], vals=[], pre=[], first=0, err=err, r=r if err == "" else []), **kw))
        q("space", lambda: [row(t) for t in du.state_space(dom)])
        q("nspace", lambda: [[num(i) for i in t] for t in du.numeric_state_space(dom)])
        q("asg", lambda: [asg(d) for d in du.assingment_space(dom)])
        q("nasg", lambda: [[[w.vid(k), num(i)] for k, i in d.items()] for d in du.numeric_assignment_space(dom)])
        q("steps", lambda: [num(i) for i in du.steps(dom)])
        q("stepsd", lambda: [[w.vid(k), num(i)] for k, i in du.steps_dict(dom).items()])
        if rng.random() < .5: q("index", lambda: [num(i) for i in du.index_list(dom, o)], obs=known)
        else: q("index", lambda: [num(i) for i in du.index_iterator(dom, o)], obs=known)
        q("index", lambda: [num(i) for i in rng.choice([du.index_list, du.index_iterator])(dom)])
        q("coord", lambda: [[w.vid(k), num(i)] for k, i in du.values_to_coord(dom, o).items()], obs=known)
        q("rdom", lambda: doms(du.restrict_domain(dom, {w.name(v): w.lab(v, s) for v, s in obs})), obs=obs)
        q("num", lambda: [[w.vid(k), [num(i) for i in l]] for k, l in du.to_numeric_domains(dom).items()])
        S = rng.sample(vo, rng.randint(0, len(vo)))
        q("sub", lambda: doms(du.subdomain(dom, *[w.name(v) for v in S])), S=S)
        q("rasg", lambda: asg({k: py(s) for k, s in du.random_assignment(dom).items()}))
        its = [w.name(v) for v in S]
        q("rasgs", lambda: [asg({k: py(s) for k, s in d.items()}) for d in du.random_assignment(dom, its)], S=S)
        x = rng.choice(vo)
        edges = rnd_dag2(rng, vo)
        g = self.graph(vo, edges)
        q("vpd", lambda: doms(du.var_parents_domain(dom, g, w.name(x))), S=[x], obs=edges)
        q("pow", lambda: [[w.vid(n) for n in t] for t in au.powerset(its if rng.random() < .5 else tuple(its))], S=S)
        if rng.random() < .4:
            sizes = [len(st) for st in dd]
            first, strs = rng.choice([0, 1, 1, 3]), rng.random() < .6
            kw = dict([("first", first)] if first != 1 or rng.random() < .5 else [], **({} if strs and rng.random() < .5 else dict(str_values=strs)))
            q("create", lambda: [[str(s) if isinstance(s, str) == strs else "?" for s in l] if k == w.name(v) else ["?"] for v, (k, l) in
                                 zip(vo, du.create_domain({w.name(v): n for v, n in zip(vo, sizes)}, **kw).items(), strict=True)], S=sizes, first=first,
              pre=[w.name(v).lower() if strs else "" for v in vo])
        shape = [len(st) for st in dd]
        N = math.prod(shape)
        vals = [rng.randint(-9, 9) for _ in range(N)]
        q("shape", lambda: [num(i) for i in au.change_shape_order(list(vals), tuple(shape))], vals=vals)
        pos = [rng.randint(1, 9) for _ in range(N)]
        axes = rng.sample(range(len(vo)), rng.randint(0, len(vo)))
        arr = np.reshape(np.array(pos, dtype=float), shape)
        arg = arr if rng.random() < .6 else arr.tolist()
        q("norm", lambda: [enc(z) for z in np.ravel(au.normalize_array(arg, axis=axes))], vals=pos, S=[a + 1 for a in axes])
        same = list(dom.items()) == list(mk().items()) and np.array_equal(np.array(arg), np.reshape(np.array(pos, dtype=float), shape)) and its == [w.name(v) for v in S]
        self.rec.ev("dom", vo=vo, dd=dd, qs=qs, same=bool(same))


def hist_c25(rng, rec, h, tier):
    n = rng.choice([1, 2, 3, 3, 4, 5])
    w = World.random(rng, n, (1, 2, 2, 3, 4) if n < 5 else (1, 2, 2, 3))
    H = DHist(rng, rec, w, h)
    vo = list(range(1, n + 1)); rng.shuffle(vo)
    dd = []
    for v in vo:
        st = list(range(1, w.card(v) + 1)); rng.shuffle(st)
        dd.append(st)
    obs = [[v, rng.randint(1, w.card(v))] for v in vo if rng.random() < .5]
    H.run(vo, dd, obs)


def gen_c25(rng, rec, h, tier, gens):
    for g in gens:
        n = len(g["vo"])
        m = max(g["vo"])
        names = rng.sample(NAMES, m)
        w = World(names, [labels_for(rng, nm, len(g["dd"][g["vo"].index(i + 1)]) if i + 1 in g["vo"] else 2) for i, nm in enumerate(names)])
        H = DHist(rng, rec, w, h)
        H.run(g["vo"], g["dd"], g["obs"])
