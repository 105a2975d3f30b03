"""Drivers for inference over several models (C13)."""
import math as _m
from core import *
from d_model import *
from d_causal import *
from d_factor import FHist
from bcause.inference.causal.multi import CausalMultiInference, EMCC, GDCC
from bcause.factors.imprecise import IntervalProbFactor

IEMPTY = dict(vs=[], d=[], l=[], r=[], t=[], u=[])


def iproj(w, f):
    dom = f.domain
    names = list(dom.keys())
    vo = [w.vid(v) for v in names]
    order = sorted(range(len(names)), key=lambda i: vo[i])
    d, labs = [], []
    for i in order:
        prs = sorted((w.sid(vo[i], s), k) for k, s in enumerate(dom[names[i]]))
        d.append([p[0] for p in prs]); labs.append([dom[names[i]][p[1]] for p in prs])
    t, u = [], []
    for st in itertools.product(*labs):
        asg = {names[order[j]]: st[j] for j in range(len(order))}
        vals = list((f.restrict(**asg) if asg else f).values)
        t.append(enc(vals[0])); u.append(enc(vals[1]))
    return dict(vs=[vo[i] for i in order], d=d, l=sorted(w.vid(v) for v in f.left_vars),
                r=sorted(w.vid(v) for v in f.right_vars if not str(v).startswith("_")), t=t, u=u)


class SHist(CHist):
    def session(self, ms, iv=None, heur=None):
        objs = [self.fac(i) for i in ms]
        kw = {}
        if iv is not None: kw["interval_result"] = iv
        if heur is not None: kw["causal_inf_fn"] = lambda m: CausalVariableElimination(m, heur)
        s, err = call(lambda: CausalMultiInference(objs if (objs or self.rng.random() < .5) else None, **kw))
        self.rec.ev("mkmulti", ms=ms, iv=True if iv is None else iv, err=err)
        return self.put(s, dict(session=True))

    def setm(self, x, op, ms):
        s = self.fac(x)
        old = [l for o, l in getattr(self, "lists", []) if o == "set"]
        if op == "set" and old and self.rng.random() < .5:   # the user's list, given before, with other content
            arg = old[-1]
            arg[:] = [self.fac(i) for i in ms]
        else: arg = [self.fac(i) for i in ms]
        keep = list(arg)
        _, err = call(lambda: s.set_models(arg) if op == "set" else s.add_models(arg))
        idx = {id(o[0]): i + 1 for i, o in enumerate(self.objs) if o is not None}
        cur, err2 = call(lambda: [idx.get(id(m), 0) for m in s.models])
        self.rec.ev("setm", x=x, op=op, ms=ms, err=err or err2, same=len(arg) == len(keep) and all(a is b for a, b in zip(arg, keep)), cur=cur if err2 == "" else [])
        # later on the user may reuse the list for other purposes
        self.lists = getattr(self, "lists", []) + [(op, arg)]

    def ival(self, x, iv):
        _, err = call(lambda: self.fac(x).set_interval_result(iv))
        self.rec.ev("ival", x=x, iv=iv, err=err)

    def scomp(self, x):
        _, err = call(lambda: self.fac(x).compile())
        self.rec.ev("scomp", x=x, err=err)

    def result(self, q, r):
        """(is interval, interval projection, list of projections)"""
        w = self.world_of(q)
        if isinstance(r, IntervalProbFactor): return True, iproj(w, r), []
        return False, IEMPTY, [proj(w, f) for f in r]

    def sqry(self, x, q):
        r, err = call(lambda: self.result(q, self.ask(self.fac(x), q)()))
        iv, ip, rl = r if err == "" else (False, IEMPTY, [])
        self.rec.ev("sqry", x=x, q=q, iv=iv, r=ip, rl=rl, err=err)

    def snec(self, x, kind, c, y, tc=None, ty=None):
        w = self.w
        kw = {}
        if tc: kw["true_false_cause"] = tuple(w.lab(c, s) for s in tc)
        if ty: kw["true_false_effect"] = tuple(w.lab(y, s) for s in ty)
        v, err = call(lambda: [enc(a) for a in getattr(self.fac(x), {"pn": "prob_necessity", "ps": "prob_sufficiency", "pns": "prob_necessity_sufficiency"}[kind])(w.name(c), w.name(y), **kw)])
        self.rec.ev("snec", x=x, kind=kind, c=c, y=y, tc=list(tc or []), ty=list(ty or []), err=err, vals=v if err == "" else [],
                    codc=[code_of(w, c, s) for s in range(1, w.card(c) + 1)], cody=[code_of(w, y, s) for s in range(1, w.card(y) + 1)])


def hist_c13(rng, rec, h, tier, gen=None):
    ne, nn = rng.choice([(1, 2), (2, 2), (2, 3), (1, 3)])
    w = scm_world(rng, ne, nn, 120, kinds=rng.choice([None, ["str"], ["bool", "int", "str"]]))
    H = SHist(rng, rec, w, h, vt=rng.choice(["numpy", "numpy", "list"]))
    exo, endo, edges = scm_shape(rng, ne, nn)
    ms = []
    for _ in range(4):
        x = H.rnd_scm(exo, endo, edges, cast=rng.random() < .7, zero=0)
        if H.objs[x - 1] is None: return
        ms.append(x)
    ops = gen or ([rng.choice(["new0", "new1", "new2"])] +
                  [rng.choice(["set", "add", "comp", "iv", "q", "q", "q", "nec", "nec", "set0", "bad"]) for _ in range(rng.randint(5, 10))])
    s, held, iv = None, [], True

    def necargs():
        c, y = rng.sample(endo, 2)
        tc = ty = None
        auto = all(code_of(w, v, t) in (0, 1, 2) for v in (c, y) for t in range(1, w.card(v) + 1)) and w.card(c) == 2 and w.card(y) == 2
        if not auto or rng.random() < .4: tc, ty = rng.sample(range(1, w.card(c) + 1), 2), rng.sample(range(1, w.card(y) + 1), 2)
        return rng.choice(["pn", "ps", "pns"]), c, y, tc, ty
    for op in ops:
        if op.startswith("new"):
            held = rng.sample(ms, int(op[3:])) if op != "new0" else []
            iv = rng.random() < .6
            s = H.session(list(held), None if iv and rng.random() < .5 else iv, pick_heuristic(rng))
            if H.objs[s - 1] is None: return
        elif op == "set":
            held = rng.sample(ms, rng.choice([1, 2, 3])); H.setm(s, "set", list(held))
        elif op == "set0":
            held = []; H.setm(s, "set", [])
        elif op == "add":
            new = rng.sample(ms, rng.choice([1, 1, 2])); held = held + new; H.setm(s, "add", new)
        elif op == "comp": H.scomp(s)
        elif op == "iv":
            iv = not iv; H.ival(s, iv)
        elif op == "q":
            q = H.rnd_causal(ms[0], exo, endo) if rng.random() < .5 else H.rnd_cf(ms[0], exo, endo)
            H.sqry(s, q)
        elif op == "bad":
            v = rng.choice(endo)
            H.sqry(s, Q("causal", T=[v], do=[[v, 1]]))
        elif op == "nec":
            a = necargs()
            if held: H.snec(s, *a)
            else:
                _, err = call(lambda: H.fac(s).prob_necessity(w.name(a[1]), w.name(a[2]), true_false_cause=(1, 2), true_false_effect=(1, 2)))
                rec.ev("sempty", x=s, err=err)
    for x in ms[:2]: H.magain(x)


def gen_c13(rng, rec, h, tier, gen):
    """the steps of a behaviour of MC_Session"""
    ne, nn = rng.choice([(1, 2), (2, 2), (2, 3)])
    w = scm_world(rng, ne, nn, 100)
    H = SHist(rng, rec, w, h, vt=rng.choice(["numpy", "numpy", "list"]))
    exo, endo, edges = scm_shape(rng, ne, nn)
    ms = [H.rnd_scm(exo, endo, edges, cast=rng.random() < .7, zero=0) for _ in range(3)]
    if any(H.objs[x - 1] is None for x in ms): return
    c, y = rng.sample(endo, 2)
    qs = [H.rnd_causal(ms[0], exo, endo), H.rnd_cf(ms[0], exo, endo)]
    tc, ty = rng.sample(range(1, w.card(c) + 1), 2), rng.sample(range(1, w.card(y) + 1), 2)
    held = []
    for st in gen:
        op, sub = st["op"], [ms[i - 1] for i in st["ms"]]
        if op == "new":
            held = sub
            s = H.session(list(sub), st["iv"], pick_heuristic(rng))
            if H.objs[s - 1] is None: return
        elif op == "set": held = sub; H.setm(s, "set", sub)
        elif op == "add": held = held + sub; H.setm(s, "add", sub)
        elif op == "comp": H.scomp(s)
        elif op == "iv": H.ival(s, st["iv"])
        elif rng.random() < .3 and held: H.snec(s, "pns" if st["q"] == 1 else rng.choice(["pn", "ps"]), c, y, tc, ty)
        else: H.sqry(s, qs[st["q"] - 1])
    if held: H.sqry(s, qs[0])


def hist_c13_interval(rng, rec, h, tier):
    """interval factors built from precise ones"""
    n = rng.choice([1, 2, 2, 3, 3, 4])
    w = World.random(rng, n, (2, 2, 3, 1) if n < 4 else (2, 2, 1))
    H = SHist(rng, rec, w, h, vt=rng.choice(["numpy", "numpy", "list", "treedict"]))
    vs = list(range(1, n + 1))
    left = [v for v in vs if rng.random() < .6] or [vs[0]]
    k = rng.choice([1, 2, 3, 4])
    nl = {v: w.card(v) for v in vs}
    xs = []
    order = left + [v for v in vs if v not in left]
    for _ in range(k):
        K = rng.choice([4, 5, 10])
        lo, hi = _m.prod(nl[v] for v in left), _m.prod(nl[v] for v in vs if v not in left)
        cols = [composition(rng, K, lo, .1) for _ in range(hi)]
        vals = [[cols[c][r], K] for r in range(lo) for c in range(hi)]
        vals = [[a // _m.gcd(a, b), b // _m.gcd(a, b)] if a else [0, 1] for a, b in vals]
        xs.append(H.table(order, vals, left))
    if any(H.objs[x - 1] is None for x in xs): return
    for j in range(rng.choice([1, 2, 3])):
        obs = []
        if j:
            sub = rng.sample(vs, rng.randint(0, rng.randint(1, len(vs))))
            obs = [[v, [rng.randint(1, w.card(v))]] for v in sub]

        def go():
            f = IntervalProbFactor.from_precise([H.fac(x) for x in xs])
            for part in ([obs] if rng.random() < .5 else [obs[:1], obs[1:]]):    # at once or one after another
                if part: f = f.restrict(**{w.name(v): w.lab(v, s[0]) for v, s in part})
            return iproj(w, f)
        r, err = call(go)
        rec.ev("ifac", xs=xs, obs=obs, r=r if err == "" else IEMPTY, err=err)


def hist_c13_learn(rng, rec, h, tier):
    """EMCC and GDCC: the interval is the envelope of the models that the session holds"""
    ne, nn = rng.choice([(1, 2), (2, 2), (2, 3)])
    w = scm_world(rng, ne, nn, 100)
    H = SHist(rng, rec, w, h, vt="numpy")
    exo, endo, edges = scm_shape(rng, ne, nn, "quasi")
    x = H.rnd_scm(exo, endo, edges, cast=True, zero=0, xx=False)
    if H.objs[x - 1] is None: return
    rows = sample_rows(H, x, endo, 20)
    df = H.frame(endo, rows)
    m = H.fac(x)
    n = rng.choice([1, 2, 3])
    kind = rng.choice(["em", "em", "gd", "inc"])
    kw = {}
    if rng.random() < .3: kw["parallel"] = True
    iv = rng.random() < .75
    if not iv: kw["interval_result"] = False
    if rng.random() < .3: kw["causal_inf_fn"] = lambda k: CausalVariableElimination(k, min_weight_heuristic)
    inf, err = call(lambda: EMCC(m, df, max_iter=2, num_runs=n, **kw) if kind != "gd" else GDCC(m, df, num_runs=n, tol=1e-2, max_iter=3, **kw))

    def check(q, n):
        def go():
            r = self_ask(inf, q)
            each = [proj(H.world_of(q), H.ask(CausalVariableElimination(k), q)()) for k in inf.models]
            evo = [[mproj(w, k) for k in inf.get_model_evolution(i)][-1] for i in range(len(inf.models))] if kind == "gd" else []
            out = [isinstance(r, IntervalProbFactor)]
            out += [iproj(H.world_of(q), r), []] if out[0] else [IEMPTY, [proj(H.world_of(q), f) for f in r]]
            return out, each, [mproj(w, k) for k in inf.models], evo
        self_ask = lambda eng, q: H.ask(eng, q)()
        r, err = call(go, 120)
        (kind_r, ip, rl), each, mods, evo = r if err == "" else ((iv, IEMPTY, []), [], [], [])
        rec.ev("env", x=x, q=q, n=n, held=len(mods), iv=iv, isiv=kind_r, r=ip, rl=rl, each=each, mods=mods, evo=evo, exo=exo, last=False, err=err)
    qs = []
    for _ in range(2):
        q = H.rnd_causal(x, [], endo)
        q["ev"] = []
        qs.append(q)
    if kind == "inc":
        steps = rng.choice([1, 1, 2])
        k, cnt = 0, 0
        it, err = call(lambda: inf.compile_incremental(step_runs=steps))
        while True:
            _, err = call(lambda: next(it))
            if err: break
            cnt += steps
            check(rng.choice(qs), cnt)
            if cnt > 8: break
        rec.ev("env", x=x, q=qs[0], n=cnt, held=len(inf.models), iv=iv, isiv=iv, r=IEMPTY, rl=[], each=[], mods=[], evo=[], exo=exo, last=True, err="" if err.startswith("StopIteration") else err)
    else:
        for q in qs: check(q, n)
        if rng.random() < .4:          # learn again: other models, as many
            _, err = call(lambda: inf.compile(), 120)
            check(rng.choice(qs), n)
        if rng.random() < .3:          # the other type of result
            iv = not iv
            call(lambda: inf.set_interval_result(iv))
            check(rng.choice(qs), n)
    H.magain(x)
