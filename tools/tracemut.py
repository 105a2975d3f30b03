#!/opt/venv/bin/python
"""tracemut.py PID [histories] [seed]: how much of what is recorded does the specification pin down?
Records histories of the real code, changes one recorded value in a copy of each, and lets TLC judge the copies.
Prints, for each field of each event, how many of the changed histories the specification rejected."""
import os, sys
if os.environ.get("VERIF_REEXEC") != "1":
    e = dict(os.environ, VERIF_REEXEC="1", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
    os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv, e)
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, ROOT); sys.path.insert(0, os.path.join(ROOT, "harness"))
import json, random, re, subprocess, tempfile, shutil, signal, collections
import multiprocessing as mp
import importlib.util
import check, drivers
from core import Rec
import numpy as np

# arguments, and orders nothing is claimed about
SKIP = set("a h x y xs m e T C ev q edges rows cols dom obs mp sel vars names nodes card cards vs n op V strs norm given lv dd mode vt vts kind j xx scm endo exo".split())


def record(args):
    pid, seed, hids, plan = args
    rec = Rec()
    for h in hids:
        fn, extra = drivers.history(pid, "quick", h, plan)
        rng = random.Random(f"{seed}/{pid}/{h}")
        np.random.seed(rng.randrange(2 ** 31)); random.seed(rng.randrange(2 ** 31))
        fn(rng, rec, h, "quick", *extra)
    return rec.events


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items(): yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        if x: yield path, "len"
        for i, v in enumerate(x): yield from leaves(v, path + (i,))
    else: yield path, "leaf"


def change(ev, path, kind, rng):
    ev = json.loads(json.dumps(ev))
    p = ev
    for k in path[:-1]: p = p[k]
    v = p[path[-1]]
    if kind == "len": p[path[-1]] = v[:-1] if rng.random() < .5 else v + v[-1:]
    elif isinstance(v, bool): p[path[-1]] = not v
    elif isinstance(v, int): p[path[-1]] = v + rng.choice([1, 1, 2, -1 if v > 0 else 1])
    elif isinstance(v, str): p[path[-1]] = "" if v else "ValueError: x"
    else: return None
    return ev


def judge(args):
    """histories (lists of events) -> set of rejected ones, set of ones TLC stopped at"""
    hs, tmp, i = args
    bad, stop = set(), set()
    todo = list(range(len(hs)))
    rnd = 0
    while todo:
        path = os.path.join(tmp, f"m{i}_{rnd}.ndjson"); rnd += 1
        evs = [dict(e, h=k) for k in todo for e in hs[k]]
        with open(path, "w") as f:
            for e in evs: f.write(json.dumps(e) + "\n")
        r = subprocess.run(["timeout", "70"] + check.tlc_cmd("LibTrace", "LibTrace.cfg", os.path.join(tmp, f"mm{i}_{rnd}"), mem="2500m"), cwd=check.SPEC,
                           env=dict(os.environ, TRACE=path), capture_output=True, text=True)
        txt = r.stdout + r.stderr
        for m in re.finditer(r'<<\s*"BAD",\s*(-?\d+),', txt): bad.add(int(m.group(1)))
        if r.returncode == 0: break
        if r.returncode == 124: return bad, stop | {-1}
        ls = re.findall(r"^/\\ l = (\d+)", txt, re.M)
        if not ls: raise RuntimeError(txt[-2000:])
        h = evs[int(ls[-1]) - 1]["h"]
        stop.add(h); todo = [k for k in todo if k > h]
    return bad, stop


def main():
    pid = sys.argv[1]; n = int(sys.argv[2]) if len(sys.argv) > 2 else 400; seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    tmp = tempfile.mkdtemp(prefix="tracemut_")
    try:
        plan = drivers.plan(pid, "quick", seed, tmp)
        rng = random.Random(f"mut{seed}")
        hids = rng.sample(range(plan["n"]), min(n, plan["n"]))
        with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
            evs = [e for es in pool.map(record, [(pid, seed, hids[i::8], plan) for i in range(8)]) for e in es]
            by = collections.OrderedDict()
            for e in evs: by.setdefault(e["h"], []).append(e)
            jobs, what = [], []
            pat = lambda a, p: a + "." + ".".join("*" if isinstance(k, int) else k for k in p)
            seen = collections.Counter()
            for h, es in by.items():
                for _ in range(int(os.environ.get("PER", "3"))):
                    cand = []
                    for j, e in enumerate(es):
                        if j == 0 or e["a"] in ("begin",): continue
                        ls = [(j, p, k) for p, k in leaves(e) if p[0] not in SKIP and p[-1] not in ("vo", "do") and "do" not in p]
                        # one leaf per pattern, rare patterns first
                        pick = {}
                        for c in ls: pick.setdefault((pat(e["a"], c[1]), c[2]), []).append(c)
                        cand += [(seen[kk], rng.random(), rng.choice(cs), kk) for kk, cs in pick.items()]
                    if not cand: continue
                    cnt, _, (j, p, k), kk = min(cand)
                    c = change(es[j], p, k, rng)
                    seen[kk] += 1
                    if c is None: continue
                    jobs.append(es[:j] + [c] + es[j + 1:]); what.append((kk, h, j, p))
            m = max(8, len(jobs) // 24)
            ix = [list(range(i, len(jobs), m)) for i in range(m)]
            res = pool.map(judge, [([jobs[k] for k in ks], tmp, i) for i, ks in enumerate(ix)], chunksize=1)
        tab = collections.defaultdict(lambda: [0, 0, []])
        for ks, (bad, stop) in zip(ix, res):
            if -1 in stop: continue      # a changed input made TLC's computation too large
            for q, k in enumerate(ks):
                t = tab[what[k][0]]; t[0] += 1
                if q in bad or q in stop: t[1] += 1
                else: t[2].append(what[k][1:])
        for (p, kind), (tot, rej, miss) in sorted(tab.items()):
            if rej < tot or os.environ.get("ALL"): print(f"{rej:4d}/{tot:<4d} {p} {kind}  {miss[:2] if rej < tot else ''}")
        print("TOTAL", sum(t[1] for t in tab.values()), "/", sum(t[0] for t in tab.values()))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__": main()
