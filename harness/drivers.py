"""Which histories decide which property."""
import json, random
import gen
import d_factor, d_model, d_causal, d_learn, d_multi, d_graph, d_data, d_pure, d_dom

# property -> list of (weight, history function)
HIST = {
    "C01": [(1, d_factor.hist_c01)],
    "C02": [(1, d_factor.hist_c02)],
    "C03": [(2, d_factor.hist_c03_factor), (1, d_pure.hist_c03_model)],
    "C04": [(1, d_factor.hist_c04)],
    "C05": [(1, d_model.hist_c05)],
    "C06": [(1, d_model.hist_c06)],
    "C07": [(1, d_model.hist_c07)],
    "C08": [(1, d_model.hist_c08)],
    "C09": [(1, d_causal.hist_c09)],
    "C10": [(1, d_causal.hist_c10)],
    "C11": [(1, d_causal.hist_c11)],
    "C12": [(1, d_learn.hist_c12), (1, d_learn.hist_c12_miss)],
    "C13": [(4, d_multi.hist_c13), (3, d_multi.hist_c13_interval), (1, d_multi.hist_c13_learn)],
    "C14": [(1, d_learn.hist_c14)],
    "C15": [(3, d_data.hist_c15), (1, d_data.hist_c15_uai)],
    "C16": [(1, d_data.hist_c16)],
    "C17": [(1, d_data.hist_c17)],
    "C18": [(1, d_data.hist_c18)],
    "C23": [(1, d_data.hist_c23)],
    "C19": [(1, d_graph.hist_c19)],
    "C22": [(1, d_graph.hist_c22)],
    "C20": [(1, d_learn.hist_c20)],
    "C24": [(1, d_graph.hist_c24)],
    "C25": [(1, d_dom.hist_c25)],
    "C21": [(3, d_causal.hist_c21), (1, d_data.hist_c21_data)],
}
COUNT = {  # property -> (quick, thorough)
    "C01": (6000, 30000), "C02": (2560, 16000), "C03": (3000, 10000), "C04": (6000, 30000), "C05": (1600, 8000), "C06": (1600, 8000),
    "C07": (3000, 15000), "C08": (1200, 6000), "C09": (1200, 6000), "C10": (1200, 6000), "C11": (680, 4000), "C12": (680, 4000), "C13": (1600, 8000), "C14": (300, 1500), "C15": (720, 6000), "C16": (400, 2000), "C17": (2000, 10000), "C18": (1440, 12000), "C23": (1200, 6000), "C19": (4000, 20000), "C22": (3000, 15000), "C20": (600, 3000), "C21": (1000, 5000), "C24": (3000, 15000), "C25": (1200, 6000),
}
# property -> function(tier, seed, tmp) -> list of histories generated by TLC from the specification
def dags(fn):
    def go(tier, seed, tmp):
        gs = []
        for n in (3, 4) if tier == "quick" else (3, 4, 5): gs += gen.generate("MC_Graph", f"GEN_Graph{n}.cfg")
        return [(fn, g) for g in gs]
    return go


def shapes(fn, orders):
    """every DAG with every split into targets and evidence (and every elimination order); four nodes: a sample of the queries in the quick tier"""
    def go(tier, seed, tmp):
        out = []
        rng = random.Random(f"shapes/{seed}")
        for n in (2, 3, 4):
            by = {}
            for b in gen.generate("MC_Elim", f"GEN_Elim{n}.cfg"):
                by.setdefault(json.dumps(b["edges"]), []).append(b)
            for k in sorted(by):
                qs = by[k]
                if not orders: qs = list({json.dumps([q["T"], q["E"]]): q for q in qs}.values())
                if n == 4 and tier == "quick": qs = rng.sample(qs, min(7, len(qs)))
                for i in range(0, len(qs), 12): out.append((fn, dict(n=n, edges=json.loads(k), q=qs[i:i + 12])))
        return out
    return go


def scms(fn):
    """every structural causal model of the generated shapes"""
    def go(tier, seed, tmp):
        out = []
        for cfg in ("GEN_Causal.cfg",) if tier == "quick" else ("GEN_Causal.cfg", "GEN_Causal3.cfg", "GEN_CausalT.cfg"): out += gen.generate("MC_Causal", cfg)
        if tier == "quick": out += random.Random(f"scms/{seed}").sample(gen.generate("MC_Causal", "GEN_CausalT.cfg"), 60)
        return [(fn, g) for g in out]
    return go


def trans(tier, seed, tmp):
    """compositions of transformations: a sample in the quick tier, all of them in the thorough one"""
    out = gen.generate("MC_Trans", "GEN_Trans2.cfg") + gen.generate("MC_Trans", "GEN_Trans3.cfg")
    if tier == "quick": out = random.Random(f"trans/{seed}").sample(out, 500)
    return [(d_model.gen_c08, dict(b, card=[2, 3, 2])) for b in out]


def factors(fn, quick):
    """every pair of factors of the catalogue with every sequence of calls on it; a sample of the pairs in the quick tier"""
    def go(tier, seed, tmp):
        out = []
        rng = random.Random(f"factors/{seed}")
        for cfg in ("GEN_Factor2.cfg", "GEN_Factor3.cfg"):
            by = {}
            for b in gen.generate("MC_Factor", cfg): by.setdefault(json.dumps(b["fs"], sort_keys=True), []).append(b["steps"])
            keys = sorted(by)
            if tier == "quick": keys = rng.sample(keys, min(quick, len(keys)))
            for k in keys:
                qs = by[k]
                if tier == "quick" and len(qs) > 60: qs = rng.sample(qs, 60)
                rng.shuffle(qs)
                for i in range(0, len(qs), 120): out.append((fn, dict(fs=json.loads(k), seqs=qs[i:i + 120])))
        return out
    return go


def builds(tier, seed, tmp):
    """sequences of factor assignments"""
    out = []
    rng = random.Random(f"builds/{seed}")
    for cfg, quick, size in (("GEN_Build2.cfg", 60, 12), ("GEN_Build3.cfg", 90, 12)):
        by = {}
        for b in gen.generate("MC_Build", cfg): by.setdefault(json.dumps([b["n"], b["scm"], b["edges"]]), []).append(b["steps"])
        part = []
        for k in sorted(by):
            n, scm, edges = json.loads(k)
            qs = by[k]
            rng.shuffle(qs)
            part += [(d_model.gen_c07, dict(n=n, scm=scm, edges=edges, seqs=qs[i:i + size])) for i in range(0, len(qs), size)]
        out += rng.sample(part, quick) if tier == "quick" else part
    return out


def engines(tier, seed, tmp):
    """requests to two engines: random walks of the specification, eight requests each"""
    out = gen.generate("MC_Engine", "GEN_Engine8.cfg", extra=("-simulate", "num=%d" % (100 if tier == "quick" else 1500), "-depth", "9", "-seed", str(seed)))
    return [(d_causal.gen_c21, g) for g in random.Random(f"engines/{seed}").sample(out, 150 if tier == "quick" else 3000)]


def learnt(fn, shapes, quick, size):
    """every model of the shapes with every small dataset it can produce; a sample of the models in the quick tier"""
    def go(tier, seed, tmp):
        rng = random.Random(f"learnt/{seed}")
        by = {}
        for b in gen.generate("MC_EM", "GEN_EM.cfg") + (gen.generate("MC_EM", "GEN_EM3.cfg") if tier != "quick" else []):
            if b["sh"] not in shapes: continue
            rows = b.pop("rows")
            by.setdefault(json.dumps(b, sort_keys=True), []).append(rows)
        keys = sorted(by)
        if tier == "quick": keys = rng.sample(keys, min(quick, len(keys)))
        out = []
        for k in keys:
            qs = by[k]; rng.shuffle(qs)
            if tier == "quick": qs = qs[:size]
            out += [(fn, dict(json.loads(k), data=qs[i:i + size])) for i in range(0, len(qs), size)]
        return out
    return go


def missing(fn, quick, size):
    """every graph with three nodes and pairs of rows with missing cells"""
    def go(tier, seed, tmp):
        rng = random.Random(f"missing/{seed}")
        by = {}
        for b in gen.generate("MC_Miss", "GEN_Miss3.cfg"): by.setdefault(json.dumps(b["edges"]), []).append(b["rows"])
        out = []
        for k in sorted(by):
            qs = by[k]; rng.shuffle(qs)
            qs = qs[:quick * size] if tier == "quick" else qs[:20 * quick * size]
            out += [(fn, dict(n=3, edges=json.loads(k), data=qs[i:i + size])) for i in range(0, len(qs), size)]
        return out
    return go


def both(*fns):
    return lambda tier, seed, tmp: [g for fn in fns for g in fn(tier, seed, tmp)]


def datasets(tier, seed, tmp):
    """every dataset within the bounds; a sample in the quick tier"""
    out = gen.generate("MC_Data", "GEN_Data2.cfg") + gen.generate("MC_Data", "GEN_Data3.cfg")
    if tier == "quick": out = random.Random(f"datasets/{seed}").sample(out, 150)
    return [(d_data.gen_c17, g) for g in out]


def aggs(tier, seed, tmp):
    """requests with every order in which their jobs can end; a sample in the quick tier"""
    out = gen.generate("MC_Agg", "GEN_Agg2.cfg")
    if tier == "quick": out = random.Random(f"aggs/{seed}").sample(out, 50)
    return [(d_learn.hist_c14, g) for g in out]


def files(tier, seed, tmp):
    """uai files: a sample in the quick tier"""
    out = gen.generate("MC_Io", "GEN_Io3.cfg")
    if tier == "quick": out = random.Random(f"files/{seed}").sample(out, 400)
    return [(d_data.gen_c15, out[i:i + 10]) for i in range(0, len(out), 10)]


def rows(tier, seed, tmp):
    """every row of every DAG: a sample for four nodes"""
    rng = random.Random(f"rows/{seed}")
    out = []
    for n, quick in ((3, 120), (4, 280)):
        gs = gen.generate("MC_Sample", f"GEN_Sample{n}.cfg")
        rng.shuffle(gs)
        if tier == "quick": gs = gs[:quick]
        out += [(d_data.gen_c16, gs[i:i + 8]) for i in range(0, len(gs), 8)]
    return out


def tables(tier, seed, tmp):
    """equations as tables of rows; a sample in the quick tier"""
    gs = gen.generate("MC_Eq", "GEN_Eq1.cfg")
    if tier == "quick": gs = random.Random(f"tables/{seed}").sample(gs, 300)
    gs.sort(key=lambda g: json.dumps(g["card"]))
    return [(d_data.gen_c18, gs[i:i + 6]) for i in range(0, len(gs), 6)]


def streams(tier, seed, tmp):
    """seedings and random actions: random walks of MC_Rand, nine steps each; and the same seeds in several processes"""
    out = gen.generate("MC_Rand", "GEN_Rand9.cfg", extra=("-simulate", "num=%d" % (100 if tier == "quick" else 1500), "-depth", "10", "-seed", str(seed)))
    out = random.Random(f"streams/{seed}").sample(out, 120 if tier == "quick" else 2000)
    procs = [(d_data.proc_c23, dict(n=40, procs=3))] * (1 if tier == "quick" else 12)
    return procs + [(d_data.gen_c23, out[i:i + 4]) for i in range(0, len(out), 4)]


def sessions(tier, seed, tmp):
    """random walks of MC_Session, eight calls each"""
    out = gen.generate("MC_Session", "GEN_Session8.cfg", extra=("-simulate", "num=%d" % (100 if tier == "quick" else 1500), "-depth", "10", "-seed", str(seed)))
    return [(d_multi.gen_c13, g) for g in random.Random(f"sessions/{seed}").sample(out, 100 if tier == "quick" else 3000)]


def domains(tier, seed, tmp):
    gs = gen.generate("MC_Dom", "GEN_Dom3.cfg")
    if tier == "quick": gs = random.Random(f"domains/{seed}").sample(gs, 800)
    return [(d_dom.gen_c25, gs[i:i + 8]) for i in range(0, len(gs), 8)]


GENERATED = {"C25": domains, "C16": rows, "C18": tables, "C23": streams, "C15": files, "C13": sessions, "C14": aggs, "C17": datasets, "C24": missing(d_graph.gen_c24, 4, 12), "C12": both(learnt(d_learn.gen_c12, ("pair", "apart", "two", "markov"), 60, 3), missing(d_learn.gen_c12_miss, 2, 4)), "C20": learnt(d_learn.gen_c20, ("pair", "apart", "markov"), 40, 2),
             "C21": engines, "C07": builds, "C01": factors(d_factor.gen_c01, 90), "C02": factors(d_factor.gen_c02, 25), "C03": factors(d_factor.gen_c03, 25), "C04": factors(d_factor.gen_c04, 60),
             "C08": trans, "C09": scms(d_causal.gen_c09), "C10": scms(d_causal.gen_c10), "C11": scms(d_causal.gen_c11), "C05": shapes(d_model.hist_c05, True), "C06": shapes(d_model.hist_c06, False), "C19": dags(d_graph.hist_c19), "C22": dags(d_graph.hist_c22)}


def plan(pid, tier, seed, tmp):
    n = COUNT[pid][0 if tier == "quick" else 1]
    gen = GENERATED[pid](tier, seed, tmp) if pid in GENERATED else []
    return dict(n=n + len(gen), gen=gen, from_spec=len(gen))


def history(pid, tier, h, plan):
    """history number h: first those generated by TLC, then the random ones"""
    g = plan["gen"]
    if h < len(g): return g[h][0], (g[h][1],)
    hs = HIST[pid]
    tot = sum(x for x, _ in hs)
    k = (h - len(g)) % tot
    for x, fn in hs:
        if k < x: return fn, ()
        k -= x
