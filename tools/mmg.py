"""development aid: mmg.py 'python expr giving scripts (r=Random)' HARNESS TRACEMODULE [CFG] -- groups rejections by operation"""
import re, sys, json, random, collections, importlib
sys.path.insert(0, "/verif/lib")
import vlib
import concurrent.futures as cf
expr, h, mod = sys.argv[1:4]
cfg = sys.argv[4] if len(sys.argv) > 4 else "SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n"
import os
if os.environ.get("ALT"):
    vlib.VH = os.environ["ALT"]
else:
    vlib.build(h)
PG = os.environ.get("GROUP")
env = {"r": random.Random(7)}
m, e = expr.split(":", 1)
env["M"] = importlib.import_module(m)
sc = eval(e, env)
ch = [sc[i::8] for i in range(8)]
def one(c):
    a = vlib.run_scripts(h, c, deaths=30)
    ev = vlib.events_of(c, a)
    bad, tr = vlib.judge_chunk(mod, cfg, ev, 900)
    return c, a, ev, bad, tr
G = collections.defaultdict(list)
nev = 0
fnd = collections.Counter()
with cf.ThreadPoolExecutor(8) as ex:
    for c, a, ev, bad, tr in ex.map(one, ch):
        nev += len(ev)
        fnd.update(tr.findings.values())
        for k, (res, st) in enumerate(a):
            if st:
                G["DEATH"].append((c[k].lines[:len(res)+1], st, ""))
        for k, (i, exp) in bad.items():
            e = ev[i-1]
            # lines up to that event
            left = sum(1 for x in ev[:i] if x["s"] == k)
            n = 0
            for n, x in enumerate(c[k].events):
                if x is not None:
                    left -= 1
                    if not left:
                        break
            key = e.get("op", e["e"])
            if PG:
                x = re.search(PG, exp, re.S)
                key = re.sub(r'[-\d]+', '#', ' '.join(x.groups()))[:90] if x else key
            G[key].append((c[k].lines[:n+1], e, exp))
print(len(sc), "scripts", nev, "events; findings", dict(fnd))
for g, l in sorted(G.items()):
    l.sort(key=lambda x: len(x[0]))
    print("=====", g, len(l))
    if os.environ.get("DUMP"):
        open(os.path.join(os.environ["DUMP"], re.sub(r"\W+", "_", g)[:60]), "w").write("\n".join(l[0][0]) + "\n")
    for lines, e, exp in l[:1]:
        print("   ", "\n    ".join(x[:300] for x in lines[-40:]))
        print("  OBS", json.dumps(e)[:3000] if isinstance(e, dict) else e[:1500])
        print("  EXP", exp[:1500])
