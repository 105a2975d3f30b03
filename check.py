#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--seed N] [--hist K] [--only H]

Decides one property: (1) TLC checks the specification's own theorems for it (MC_* configurations),
(2) histories - generated by TLC from the specification and by seeded random drivers - are executed on
the real library in /repo, (3) TLC validates every recorded history against the specification.
exit 0: held on everything explored; exit 1 + VIOLATION line; exit 2: the machinery itself failed."""
import os, sys, json, time, re, signal, subprocess, shutil, tempfile, argparse, random, traceback
ENV = dict(MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", CUDA_VISIBLE_DEVICES="",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1")
if os.environ.get("VERIF_REEXEC") != "1":
    e = dict(os.environ, **ENV, VERIF_REEXEC="1")
    e.setdefault("MPLCONFIGDIR", "/opt/venv/mplconfig")
    os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python"] + sys.argv, e)

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
OUT = os.path.join(HERE, "out")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(2, min(8, os.cpu_count() or 2))
sys.path.insert(0, os.path.join(HERE, "harness"))
sys.dont_write_bytecode = True


class Machinery(Exception):
    pass


def tlc_cmd(module, cfg, meta, extra=(), mem="1500m", workers="1"):
    return ["java", "-XX:+UseSerialGC", "-Xss64m", "-Xmx" + mem, "-Djava.io.tmpdir=" + os.path.dirname(os.path.abspath(meta)), "-cp", JARS, "tlc2.TLC", "-workers", workers, "-nowarning",
            "-metadir", meta, "-config", cfg, *extra, module + ".tla"]


def run_mc(specs, tmp):
    """exhaustive checks of the specification itself; returns popen handles"""
    hs = []
    for i, (module, cfg, workers, limit) in enumerate(specs):
        o = open(os.path.join(tmp, f"mc{i}.out"), "w")
        p = subprocess.Popen(["timeout", str(limit)] + tlc_cmd(module, cfg, os.path.join(tmp, f"mcmeta{i}"), mem="4g", workers=str(workers)),
                             cwd=SPEC, stdout=o, stderr=subprocess.STDOUT)
        hs.append((module, cfg, p, o.name))
    return hs


def end_mc(hs):
    out = []
    for module, cfg, p, name in hs:
        rc = p.wait()
        txt = open(name).read()
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
        if rc != 0 or not m:
            raise Machinery(f"TLC on {module}/{cfg}: rc={rc}\n" + txt[-3000:])
        out.append(dict(module=module, cfg=cfg, generated=int(m.group(1)), distinct=int(m.group(2))))
    return out


def drive(args):
    """one worker: histories -> ndjson -> TLC"""
    pid, tier, seed, wid, hids, tmp, plan = args
    try:
        import drivers
        from core import Rec, REPO
        rec = Rec()
        cov = None
        if os.environ.get("VERIF_COV"):
            sys.path.insert(0, os.path.join(HERE, "tools"))
            import cov as covmod
            cov = covmod.start(REPO)
        t0 = time.time()
        def late(*_): raise TimeoutError("the history does not end")
        signal.signal(signal.SIGALRM, late)
        for h in hids:
            fn, extra = drivers.history(pid, tier, h, plan)
            rng = random.Random(f"{seed}/{pid}/{h}")
            import numpy as np
            np.random.seed(rng.randrange(2 ** 31)); random.seed(rng.randrange(2 ** 31))
            n0 = len(rec.events)
            signal.alarm(150)
            th = time.time()
            try:
                fn(rng, rec, h, tier, *extra)
            except Exception as e:
                if len(rec.events) == n0: rec.begin(h, vts=[])
                rec.ev("crash", err=traceback.format_exc()[-1500:])
            signal.alarm(0)
            if time.time() - th > 50: break   # a call that does not return: the others would not either
        if cov is not None: covmod.dump(cov, os.environ["VERIF_COV"], f"{pid}_{wid}")
        t1 = time.time()
        path = os.path.join(tmp, f"t{wid}.ndjson")
        with open(path, "w") as f:
            for e in rec.events: f.write(json.dumps(e) + "\n")
        if not rec.events: return dict(wid=wid, events=0, hist=0, bad=[], vac=0, states=0, path=path, acts={}, drive=0, tlc=0)
        r = subprocess.run(["timeout", "3000"] + tlc_cmd("LibTrace", "LibTrace.cfg", os.path.join(tmp, f"meta{wid}"), mem="2500m"),
                           cwd=SPEC, env=dict(os.environ, TRACE=path), capture_output=True, text=True)
        txt = r.stdout + r.stderr
        bad = []
        for m in re.finditer(r'<<\s*"BAD",\s*(-?\d+),\s*(\d+),\s*"(\w+)",\s*\{(.*?)\}\s*>>', txt, re.S):
            bad.append((int(m.group(1)), int(m.group(2)), m.group(3), re.findall(r'"([^"]*)"', m.group(4))))
        if txt.count('"BAD"') != len(bad): raise Machinery("unparsed verdicts\n" + txt[-3000:])
        done = re.search(r'<<"DONE", (\d+), (\d+)>>', txt)
        vac = re.search(r'<<"VAC", (\d+)>>', txt)
        st = re.search(r"(\d+) states generated, (\d+) distinct", txt)
        if not done or r.returncode != 0:
            # the trace is not a behaviour the specification can follow: rejected at the step TLC stopped at
            ls = re.findall(r"^/\\ l = (\d+)", txt, re.M)
            if "OutOfMemory" in txt or "StackOverflow" in txt or not ls:
                raise Machinery(f"TLC rc={r.returncode}\n" + txt[-4000:])
            l = int(ls[-1])
            bad.append((rec.events[l - 1]["h"], l, rec.events[l - 1]["a"], ["not a step of the specification"]))
            if wid == 0 or os.environ.get("VERIF_DEBUG"): print("TLC stopped:", re.findall(r"(?m)^Error:.*(?:\n.*){0,14}", txt)[:1], file=sys.stderr)
        acts = {}
        for e in rec.events: acts[e["a"]] = acts.get(e["a"], 0) + 1
        return dict(wid=wid, events=len(rec.events), hist=rec.nhist, bad=bad, vac=int(vac.group(1)) if vac else 0,
                    states=int(st.group(2)) if st else 0, path=path, acts=acts, drive=t1 - t0, tlc=time.time() - t1)
    except Machinery as e:
        return dict(wid=wid, fail=str(e))
    except Exception:
        return dict(wid=wid, fail=traceback.format_exc())


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--hist", type=int)
    ap.add_argument("--only", type=int)
    ap.add_argument("--nomc", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    tmp = tempfile.mkdtemp(prefix="verif_" + a.pid + "_")
    try:
        return check(a, tier, tmp, t0)
    except Machinery as e:
        print("MACHINERY FAILURE", e)
        return 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(a, tier, tmp, t0):
    pid = a.pid
    import props
    cfg = props.PROPS[pid]
    mc = [] if a.nomc else run_mc(cfg["mc"](tier), tmp)
    try:
        import drivers, core
    except Exception:
        # the library cannot even be imported or driven: nothing can be decided
        for h in mc: h[2].kill()
        raise Machinery(traceback.format_exc())
    plan = drivers.plan(pid, tier, a.seed, tmp)
    n = a.hist or plan["n"]
    hids = list(range(n)) if a.only is None else [a.only]
    nw = min(NPROC if tier == "quick" else 4 * NPROC, max(1, len(hids)))
    chunks = [hids[i::nw] for i in range(nw)]
    import multiprocessing as mp
    with mp.get_context("fork").Pool(min(nw, NPROC), maxtasksperchild=1) as pool:
        rs = pool.map(drive, [(pid, tier, a.seed, i, c, tmp, plan) for i, c in enumerate(chunks)], chunksize=1)
    fails = [r["fail"] for r in rs if "fail" in r]
    if fails: raise Machinery("\n".join(fails))
    mcs = end_mc(mc)
    known = json.load(open(os.path.join(HERE, "known_findings.json")))["known"]
    viol, shown_known = [], set()
    for r in rs:
        evs = None
        for (h, l, act, cl) in r["bad"]:
            cl = [c for c in cl if not props.ignored(pid, act, c)]
            if not cl: continue
            if evs is None: evs = [json.loads(x) for x in open(r["path"])]
            ev = evs[l - 1]
            kf = next((k for k in known if k["property"] == pid and props.matches(k, ev, act, cl)), None)
            if kf:
                shown_known.add(kf["what"]); continue
            viol.append((h, l, act, cl, [e for e in evs if e["h"] == h], ev))
    for k in sorted(shown_known): print(f"KNOWN-FINDING: property={pid} {k}")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    acts = {}
    for r in rs:
        for k, v in r["acts"].items(): acts[k] = acts.get(k, 0) + v
    sample_src = [json.loads(x) for x in open(rs[0]["path"])][:40] if rs[0]["events"] else []
    h0 = sample_src[0]["h"] if sample_src else None
    samples = [dict(a=e["a"], **{k: v for k, v in e.items() if k in ("op", "x", "y", "xs", "obs", "rem", "T", "C", "ev", "do", "dos", "edges", "err", "errs", "mode", "q", "mp", "rows", "ops")})
               for e in sample_src if e["h"] == h0][:12]
    while len(json.dumps(samples)) > 20000 and len(samples) > 1: samples = samples[:-1]
    ev = dict(property=pid, tier=tier, seed=a.seed, level="model_checking",
              coverage=dict(states=sum(m["distinct"] for m in mcs) + sum(r["states"] for r in rs),
                            transitions=sum(m["generated"] for m in mcs) + sum(r["events"] for r in rs),
                            traces_validated_against_impl=sum(r["hist"] for r in rs),
                            events_validated=sum(r["events"] for r in rs), events_by_action=acts,
                            undecided_values=sum(r["vac"] for r in rs),
                            spec_model_checking=mcs, generated_from_spec=plan.get("from_spec", 0), samples=samples,
                            exhaustive=False),
              assumptions=cfg["assumptions"], wall_s=round(time.time() - t0, 1), violations=len(viol))
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print(f"{pid} {tier}: {ev['coverage']['traces_validated_against_impl']} histories, {ev['coverage']['events_validated']} events, "
          f"{ev['coverage']['undecided_values']} undecided values, spec states {sum(m['distinct'] for m in mcs)}, {ev['wall_s']} s "
          f"(drive max {max(r['drive'] for r in rs):.1f}, tlc max {max(r['tlc'] for r in rs):.1f})")
    if viol:
        d = os.path.join(OUT, pid)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        seen = set()
        for (h, l, act, cl, evs, ev) in viol:
            if h in seen: continue
            seen.add(h)
            if len(seen) > 5: break
            path = os.path.join(d, f"history_{h}.ndjson")
            with open(path, "w") as f:
                f.write(json.dumps(dict(a="verdict", property=pid, history=h, action=act, clauses=cl, seed=a.seed, tier=tier,
                                        rerun=f"/verif/check.py {pid} --seed {a.seed} --tier {tier} --only {h}", event=ev)) + "\n")
                for e in evs: f.write(json.dumps(e) + "\n")
            print(f"  history {h}, {act}: {', '.join(cl)}" + (f" [{[x for x in ev.get('errs', [ev.get('err', '')]) if x][:1]}]"))
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
