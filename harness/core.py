"""Common machinery of the conformance drivers: real library objects on one side,
events (one JSON line per API call) on the other.  Nothing here decides anything:
events carry arguments and observed results, and TLC judges them against the specification."""
import os, sys, json, math, random, signal, itertools, warnings, io, contextlib, traceback
warnings.simplefilter("ignore")
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path: sys.path.insert(0, REPO)
import logging
logging.disable(logging.CRITICAL)
import numpy as np
import pandas as pd
import networkx as nx
import bcause
import bcause.util  # noqa
logging.disable(logging.CRITICAL)
from bcause.factors import MultinomialFactor, DeterministicFactor
from bcause.factors.values.store import DataStore
from bcause.models import BayesianNetwork
from bcause.models.cmodel import StructuralCausalModel as SCM

VTYPES = ["numpy", "numpy1d", "list", "treedict"]


class CallTimeout(BaseException):
    pass


def _alarm(sig, frm):
    raise CallTimeout()


def enc(x):
    """number -> [kind, hi, lo]"""
    try:
        x = float(x)
    except Exception:
        return [5, 0, 0]
    if math.isnan(x): return [1, 0, 0]
    if math.isinf(x): return [2 if x > 0 else 3, 0, 0]
    if abs(x) >= 1e6: return [4, 0, 0]
    hi = math.floor(x)
    lo = int(round((x - hi) * 1e9))
    if lo >= 1000000000: hi, lo = hi + 1, 0
    return [0, int(hi), lo]


def call(fn, limit=60):
    """run a library call: (value, error tag)"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(), ""
    except CallTimeout:
        return None, "Timeout"
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:
        return None, type(e).__name__ + ": " + str(e)[:120]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


NAMES = ["A", "B", "C", "D", "E", "F", "G", "H", "X", "Y", "Z", "W", "V1", "V10", "V2", "X1", "X12", "Alpha", "be", "q",
         "Var_a", "AB", "n0", "zz", "Health", "S", "T", "K", "M", "P1", "P11", "a", "x", "U_", "XY", "size", "count", "index", "values", "X_1"]


def labels_for(rng, name, card, kind=None):
    kind = kind or rng.choice(["str", "str", "int", "int", "int1", "bool", "float", "odd", "strx"])
    if kind == "bool":
        if card == 2: return [True, False] if rng.random() < .5 else [False, True]
        kind = "int"
    if kind == "int": return list(range(card))
    if kind == "int1": return [3 * i + 2 for i in range(card)] if rng.random() < .5 else list(range(card))[::-1]
    if kind == "float": return [0.5 * i for i in range(card)]
    if kind == "odd" and rng.random() < .25: return [["on", "ON", "On", "oN", "off", "OFF"][i % 6] + ("" if i < 6 else str(i)) for i in range(card)]
    if kind == "odd": return [["no", "yes", "maybe", "x y", "10", "-"][i % 6] + ("" if i < 6 else str(i)) for i in range(card)]
    if kind == "str" and rng.random() < .06: return [["s1", "s10", "s", "s100", "s11", "s0"][i % 6] + ("" if i < 6 else str(i)) for i in range(card)]
    if kind == "strx": return [str(i) for i in range(card)]
    return [f"{name.lower()}{i}" for i in range(card)]


class World:
    """variables 1..n with names and canonical state labels (states 1..card)"""
    def __init__(self, names, labels):
        self.names = list(names)
        self.labels = [list(l) for l in labels]
        self.ids = {n: i + 1 for i, n in enumerate(self.names)}
        self.lab2id = [{l: j + 1 for j, l in enumerate(ls)} for ls in self.labels]

    @staticmethod
    def random(rng, n, cards=(2, 2, 2, 3, 3, 4, 1), kinds=None, names=None):
        names = names or rng.sample(NAMES, n)
        return World(names, [labels_for(rng, nm, rng.choice(cards), rng.choice(kinds) if kinds else None) for nm in names])

    def add(self, name, labels):
        self.names.append(name); self.labels.append(list(labels))
        self.ids[name] = len(self.names)
        self.lab2id.append({l: j + 1 for j, l in enumerate(labels)})
        return len(self.names)

    def name(self, v): return self.names[v - 1]
    def lab(self, v, s): return self.labels[v - 1][s - 1]
    def card(self, v): return len(self.labels[v - 1])
    def vid(self, name): return self.ids.get(name, 0)

    def sid(self, v, label):
        if v == 0: return 0
        try:
            return self.lab2id[v - 1].get(label, 0)
        except TypeError:
            return 0

    def asg(self, pairs):
        return {self.name(v): self.lab(v, s) for v, s in pairs}


def proj(w, f):
    """observable content of a factor, by labels; canonical order of variables and states"""
    dom = f.domain
    vo = [w.vid(v) for v in dom.keys()]
    do = [[w.sid(w.vid(v), s) for s in dom[v]] for v in dom.keys()]
    out = dict(vo=vo, do=do, vt=getattr(f, "vtype", ""))
    l = sorted(w.vid(v) for v in f.left_vars)
    r = sorted(w.vid(v) for v in f.right_vars)
    out["l"], out["r"] = l, r
    names = list(dom.keys())
    order = sorted(range(len(names)), key=lambda i: (vo[i], names[i]))
    vs = [vo[i] for i in order]
    d, labs = [], []
    for i in order:
        prs = sorted(zip(do[i], range(len(do[i]))))
        d.append([p[0] for p in prs])
        labs.append([dom[names[i]][p[1]] for p in prs])
    t = []
    if isinstance(f, DeterministicFactor):
        lv = list(f.left_vars)[0]
        for st in itertools.product(*labs):
            asg = {names[order[j]]: st[j] for j in range(len(order))}
            y = asg.pop(lv)
            t.append([0, int(bool(f.get_value(**asg) == y)), 0])
        out.update(vs=vs, d=d, t=t)
        return out
    for st in itertools.product(*labs):
        t.append(enc(f.get_value(**{names[order[j]]: st[j] for j in range(len(order))})))
    out.update(vs=vs, d=d, t=t)
    return out


EMPTY = dict(vo=[], do=[], vt="", l=[], r=[], vs=[], d=[], t=[])


def sproj(w, f):
    """projection that never raises: (projection, error)"""
    if f is None: return EMPTY, "NoObject"
    p, err = call(lambda: proj(w, f))
    return (EMPTY, "proj " + err) if err else (p, "")


def mproj(w, m):
    """observable content of a model"""
    scm = isinstance(m, SCM)
    nodes = [w.vid(v) for v in m.variables]
    fac = []
    for v, f in m.factors.items():
        fac.append(dict(v=w.vid(v), none=f is None, p=EMPTY if f is None else proj(w, f)))
    dom = m.domains
    return dict(scm=scm, nodes=nodes, edges=[[w.vid(a), w.vid(b)] for a, b in m.graph.edges],
                endo=[w.vid(v) for v in m.endogenous] if scm else [], exo=[w.vid(v) for v in m.exogenous] if scm else [],
                dom=[[w.vid(v), [] if d is None else sorted(w.sid(w.vid(v), s) for s in d)] for v, d in dom.items()],
                fac=fac)


MEMPTY = dict(scm=False, nodes=[], edges=[], endo=[], exo=[], dom=[], fac=[])


def smproj(w, m):
    if m is None: return MEMPTY, "NoObject"
    p, err = call(lambda: mproj(w, m))
    return (MEMPTY, "proj " + err) if err else (p, "")


class Rec:
    """collects the events of histories"""
    def __init__(self):
        self.events = []
        self.h = 0
        self.nhist = 0

    def begin(self, h, **kw):
        self.h = h
        self.nhist += 1
        self.ev("begin", **kw)

    def ev(self, a, **kw):
        e = dict(a=a, h=self.h)
        e.update(kw)
        self.events.append(e)
        return e


def rnd_rat(rng, zero=.15, neg=.1):
    if rng.random() < zero: return [0, 1]
    d = rng.choice([1, 1, 2, 2, 3, 4, 5, 8, 10])
    n = rng.randint(1, 2 * d + 1)
    if rng.random() < neg: n = -n
    g = math.gcd(abs(n), d)
    return [n // g, d // g]


def fl(q):
    return q[0] / q[1]


def composition(rng, total, parts, zero=.2):
    """random non-negative integers with the given sum"""
    if parts == 1: return [total]
    for _ in range(50):
        act = [i for i in range(parts) if rng.random() >= zero] or [rng.randrange(parts)]
        k = len(act)
        if k > total: continue
        cuts = sorted(rng.sample(range(1, total), k - 1)) if k > 1 else []
        vals = [b - a for a, b in zip([0] + cuts, cuts + [total])]
        out = [0] * parts
        for i, x in zip(act, vals): out[i] = x
        return out
    out = [0] * parts; out[0] = total
    return out


def rnd_dag(rng, n, p=None, maxpa=None):
    p = rng.choice([.25, .4, .6]) if p is None else p
    wide = maxpa is None and rng.random() < .12      # one variable with all the others as parents
    maxpa = maxpa or rng.choice([2, 3, 3, 5])
    if wide: maxpa = 6
    perm = list(range(1, n + 1)); rng.shuffle(perm)
    edges = []
    for j in range(n):
        cand = [perm[i] for i in range(j) if rng.random() < p or (wide and j == n - 1)]
        rng.shuffle(cand)
        for c in cand[:maxpa]: edges.append([c, perm[j]])
    rng.shuffle(edges)
    return edges
