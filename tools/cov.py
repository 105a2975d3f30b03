"""Line coverage of the library by the checks (development aid): VERIF_COV=DIR ./check.py ...; tools/cov.py DIR"""
import os, sys, json
def start(repo):
    mon = sys.monitoring
    seen = set()
    mon.use_tool_id(3, "cov")
    def line(code, n):
        f = code.co_filename
        if f.startswith(repo + "/bcause"): seen.add((f[len(repo) + 1:], n))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    return seen
def dump(seen, d, name):
    os.makedirs(d, exist_ok=True)
    json.dump(sorted(seen), open(os.path.join(d, name + ".json"), "w"))
if __name__ == "__main__":
    d, repo = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else "/repo"
    seen = set()
    for f in os.listdir(d): seen |= {tuple(x) for x in json.load(open(os.path.join(d, f)))}
    import dis
    for root, _, fs in os.walk(repo + "/bcause"):
        for f in sorted(fs):
            if not f.endswith(".py"): continue
            p = os.path.join(root, f); rel = p[len(repo) + 1:]
            src = open(p).read()
            lines = set()
            main = next((i + 1 for i, l in enumerate(src.splitlines()) if l.startswith("if __name__")), 10 ** 9)
            def walk(c, top):
                if c.co_flags & 1:   # a function, not the body of a class or module
                    for _, _, n in c.co_lines():
                        if n and n < main and n != c.co_firstlineno: lines.add(n)
                for k in c.co_consts:
                    if hasattr(k, "co_code"): walk(k, k.co_name[0].isupper() and False)
            walk(compile(src, p, "exec"), True)
            miss = sorted(n for n in lines if (rel, n) not in seen)
            if miss: print(f"{rel}: {len(lines) - len(miss)}/{len(lines)}  missing {miss}")
