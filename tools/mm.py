"""development aid: runs the generator of a C17/C18 script set, groups the rejections by operation"""
import sys, json, random, collections
sys.path.insert(0, "/verif/lib")
import vlib, checks_dmi as D
pid, n, seed = sys.argv[1], int(sys.argv[2]), sys.argv[3]
r = random.Random(seed)
vlib.build("h_dmi")
sc = [D.dmi_script(r, r.choice([8, 20, 40]), pid == "C18") for _ in range(n)]
ans = []
import concurrent.futures as cf
ch = [sc[i::8] for i in range(8)]
def one(c):
    a = vlib.run_scripts("h_dmi", c, deaths=30)
    ev = vlib.events_of(c, a)
    bad, _ = vlib.judge_chunk("TraceDmi", D.TD, ev, 600)
    return c, a, ev, bad
G = collections.defaultdict(list)
with cf.ThreadPoolExecutor(8) as ex:
    for c, a, ev, bad in ex.map(one, ch):
        for k, (res, st) in enumerate(a):
            if st:
                G["DEATH " + c[k].lines[len(res)].split()[0] if len(res) < len(c[k].lines) else "DEATH end"].append((c[k].lines[:len(res)+1], st, ""))
        for k, (i, exp) in bad.items():
            e = ev[i-1]
            n = sum(1 for x in ev[:i] if x["s"] == k)
            G[e["op"]].append((c[k].lines[:n], e, exp))
for g, l in sorted(G.items()):
    l.sort(key=lambda x: len(x[0]))
    print("=====", g, len(l))
    for lines, e, exp in l[:2]:
        print("   ", "\n    ".join(x[:200] for x in lines[-6:]))
        if isinstance(e, dict):
            o = e["obs"]
            print("  OBS err=%s x=%s" % (o.get("err"), o.get("x")))
            ps = json.dumps
            n = len(lines)
            if "regs" in o:
                for kk in {e.get("r"), e.get("q")} - {None}:
                    print("   reg%d %s" % (kk, ps(o["regs"][kk])[:600]))
        else:
            print("  ", e[:600])
        print("  EXP", exp[:700])
