"""Per property: model-checking configurations of the specification, clauses that belong to other properties."""
ROLE = {"left", "right", "name", "left_domain", "right_domain", "partition"}
IGN = {
    "C01": ROLE | {"backend", "argument modified"},
    "C02": {"values", "argument modified"},
    "C04": {"values", "backend", "argument modified", "states", "backends differ"},
}
A0 = ["floating-point results are compared with exact rationals at 4e-8; values outside 32-bit rationals are counted as undecided"]
PROPS = {f"C{i:02d}": dict(mc=lambda tier: [], assumptions=list(A0)) for i in range(1, 26)}

CAUSAL = [("MC_Causal", "MC_CausalQ.cfg", 2, 300)]
CAUSALT = [("MC_Causal", "MC_Causal.cfg", 4, 7200), ("MC_Causal", "MC_CausalT.cfg", 6, 7200), ("MC_Causal", "MC_Causal3.cfg", 2, 7200)]
FACTOR = ([("MC_Factor", "MC_Factor2.cfg", 2, 300)], [("MC_Factor", "MC_Factor22.cfg", 8, 7200), ("MC_Factor", "MC_Factor3.cfg", 8, 7200)])
EM = ([("MC_EM", "MC_EMq.cfg", 2, 300)], [("MC_EM", "MC_EM2.cfg", 8, 7200), ("MC_EM", "MC_EM3.cfg", 8, 7200)])
MISS = ([("MC_Miss", "MC_Miss2.cfg", 2, 300)], [("MC_Miss", "MC_Miss3.cfg", 8, 7200)])
MC = {   # property -> (quick, thorough): (module, configuration, workers, seconds)
    "C01": FACTOR, "C02": FACTOR, "C03": FACTOR, "C04": FACTOR,
    "C07": ([("MC_Build", "MC_Build2.cfg", 2, 300)], [("MC_Build", "MC_Build2.cfg", 2, 300), ("MC_Build", "MC_Build3.cfg", 4, 7200), ("MC_Build", "MC_Build33.cfg", 8, 7200)]),
    "C05": ([("MC_Elim", "MC_Elim3.cfg", 2, 300)], [("MC_Elim", "MC_Elim4.cfg", 8, 7200)]),
    "C06": ([("MC_Elim", "MC_Elim3.cfg", 2, 300)], [("MC_Elim", "MC_Elim4.cfg", 8, 7200)]),
    "C08": ([("MC_Trans", "MC_Trans2.cfg", 2, 300)], [("MC_Trans", "MC_Trans3.cfg", 8, 7200)]),
    "C09": (CAUSAL, CAUSALT), "C10": (CAUSAL, CAUSALT), "C11": (CAUSAL, CAUSALT),
    "C12": (EM[0] + MISS[0], EM[1] + MISS[1]), "C20": EM, "C24": MISS,
    "C25": ([("MC_Dom", "MC_Dom3.cfg", 2, 300)], [("MC_Dom", "MC_Dom3.cfg", 2, 300), ("MC_Dom", "MC_Dom4.cfg", 8, 7200)]),
    "C14": ([("MC_Agg", "MC_Agg2.cfg", 2, 300)], [("MC_Agg", "MC_Agg3.cfg", 8, 7200)]),
    "C13": ([("MC_Session", "MC_Session3.cfg", 2, 300)], [("MC_Session", "MC_Session4.cfg", 8, 7200)]),
    "C15": ([("MC_Io", "MC_Io3.cfg", 2, 300)], [("MC_Io", "MC_Io3.cfg", 4, 7200)]),
    "C16": ([("MC_Sample", "MC_Sample3.cfg", 2, 300)], [("MC_Sample", "MC_Sample4.cfg", 8, 7200)]),
    "C18": ([("MC_Eq", "MC_Eq1.cfg", 2, 300)], [("MC_Eq", "MC_Eq2.cfg", 8, 7200), ("MC_Eq", "MC_Eq3.cfg", 8, 7200)]),
    "C23": ([("MC_Rand", "MC_Rand6.cfg", 2, 300)], [("MC_Rand", "MC_Rand8.cfg", 8, 7200)]),
    "C17": ([("MC_Data", "MC_Data2.cfg", 2, 300)], [("MC_Data", "MC_Data24.cfg", 8, 7200), ("MC_Data", "MC_Data3.cfg", 8, 7200)]),
    "C21": ([("MC_Engine", "MC_Engine2.cfg", 2, 300)], [("MC_Engine", "MC_Engine3.cfg", 8, 7200)]),
    "C19": ([("MC_Graph", "MC_Graph4.cfg", 2, 300)], [("MC_Graph", "MC_Graph5.cfg", 8, 7200)]),
    "C22": ([("MC_Graph", "MC_Graph4.cfg", 2, 300)], [("MC_Graph", "MC_Graph5.cfg", 8, 7200)]),
}
for _p, (_q, _t) in MC.items(): PROPS[_p]["mc"] = (lambda q, t: lambda tier: q if tier == "quick" else t)(_q, _t)


def ignored(pid, act, clause):
    return clause in IGN.get(pid, ())


def matches(k, ev, act, cl):
    if k.get("action") != act: return False
    if not set(cl) <= set(k.get("clauses", [])): return False
    return all(ev.get(f) == v for f, v in k.get("event", {}).items())
