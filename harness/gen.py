"""Behaviours generated by TLC from the specification: every line <<"GEN", json>> that a GEN_* configuration prints."""
import os, re, json, subprocess, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def generate(module, cfg, limit=600, extra=()):
    """list of the JSON values printed by TLC, in a canonical order"""
    meta = tempfile.mkdtemp(prefix="verif_gen_")
    try:
        r = subprocess.run(["timeout", str(limit), "java", "-XX:+UseSerialGC", "-Xss64m", "-Xmx3g", "-Djava.io.tmpdir=" + meta, "-cp", JARS, "tlc2.TLC", "-workers", "1",
                            "-nowarning", "-metadir", meta, "-config", cfg, *extra, module + ".tla"], cwd=SPEC, capture_output=True, text=True)
        if r.returncode != 0: raise RuntimeError(f"generation with {module}/{cfg} failed: rc={r.returncode}\n" + (r.stdout + r.stderr)[-2000:])
        out = []
        for m in re.finditer(r'<<\s*"GEN",\s*("(?:[^"\\]|\\.)*")\s*>>', r.stdout):
            out.append(json.loads(json.loads(m.group(1))))
        if r.stdout.count('"GEN"') != len(out): raise RuntimeError("unparsed behaviours of " + module)
        out.sort(key=lambda x: json.dumps(x, sort_keys=True))
        return out
    finally:
        shutil.rmtree(meta, ignore_errors=True)
