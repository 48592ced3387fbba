"""C06: parallel polling by a pool of threads (spec/NodePool.tla, spec/MeqForest.tla for the answers)."""
import random
import forest_gen, vlib


def post(mode, p_async=.25):
    def f(r, N):
        for x in N:
            e = ""
            if x["ch"] and r.random() < .9:
                e += " mt=1"
            if x["ch"] and not x["step"] and r.random() < p_async:
                # polls its children itself; what they failed is for it to handle
                e += " async=1 fpol=0 mpol=0"
                x["fpol"] = x["mpol"] = 0
                x["thr"] = 0
                if mode != "wait" and r.random() < .2:
                    # gives up halfway through, every time
                    e += " failmod=1 thr=1"
                    x["failmod"], x["thr"] = 1, 1
            elif mode == "fabandon" and x["fpol"] == 2 and r.random() < .7:
                e += " fpol=1"
            elif mode == "mabandon" and x["mpol"] == 2 and r.random() < .7:
                e += " mpol=1"
            x["_extra"] = e
    return f


def rewrite(r, s, mode, N):
    """turns some of the plain evaluations into gated or aborted ones"""
    L, E = [], []
    ab = mode in ("fabandon", "mabandon")
    for l, e in zip(s.lines, s.events):
        if not (e and e["e"] == "exec"):
            L.append(l)
            E.append(e)
            continue
        e.update(ab=ab, mid=False, prev=[])
        u = r.random()
        if mode == "abort" and u < .5:
            e["mid"] = True
            L += ["start" + l[4:]] + (["running %d" % r.randint(1, 3)] if r.random() < .7 else [])
            E += [None] * (len(L) - len(E))
            L += ["raiseabort", "wait 20000", "clearabort"]
            E += [dict(e="abort", v=True), e, dict(e="abort", v=False)]
        elif u < (.5 if mode == "gates" else .0):
            g = r.sample(range(1, N + 1), r.randint(1, N))
            L += ["gate " + forest_gen.vec(g), "start" + l[4:]]
            r.shuffle(g)
            for k in g:
                if r.random() < .6:
                    L.append("running 1")
                L.append("open %d" % k)
            E += [None] * (len(L) - len(E))
            L.append("wait 20000")
            E.append(e)
        else:
            L.append(l)
            E.append(e)
    s.lines, s.events = L, E
    return s


def prep(ev):
    last, sc = [], None
    for e in ev:
        if e["e"] == "reset":
            last = []
        elif e["e"] == "exec":
            e["prev"] = last
            last = e["obs"].get("cached", [])
    return ev


BASE = dict(n=(4, 10), steps=(6, 14), order=.2, inactive=.1, clears=.1, nact=.1, sets=.35, emptyid=0, nocells=0)
PROFS = [
    ("plain", dict(BASE, fails=.15, miss=.1, fpols=[0, 2], mpols=[0, 2]), 3),
    ("plain", dict(BASE, n=(8, 14), step=.2, pols=[0, 20]), 2),
    ("gates", dict(BASE, fails=.1, fpols=[0, 2], pols=[0, 20, -1]), 3),
    ("fabandon", dict(BASE, fails=.35, fpols=[0, 2, 2], mpols=[0]), 3),
    ("mabandon", dict(BASE, miss=.35, mpols=[0, 2, 2], fpols=[0]), 1),
    ("wait", dict(BASE, wait=.15, fails=.1), 1),
    ("abort", dict(BASE, fails=.1), 2)]


def scripts(r, total):
    w = sum(k for _, _, k in PROFS)
    out = []
    for mode, p, k in PROFS:
        for _ in range(max(1, total * k // w)):
            nn = {}

            def pf(r, N, mode=mode, nn=nn):
                nn["n"] = len(N)
                post(mode)(r, N)
            s = forest_gen.gen(r, dict(p, post=pf))
            # a policy set later would undo the declared one
            keep = [i for i, e in enumerate(s.events) if not (e and e["e"] == "set" and e["f"] in ("fpol", "mpol", "failmod"))]
            s.lines, s.events = [s.lines[i] for i in keep], [s.events[i] for i in keep]
            out.append(rewrite(r, s, mode, nn["n"]))
    r.shuffle(out)
    return out


TCFG = "SPECIFICATION Spec\nCONSTANT Proj = {\"mt\"}\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n"


def pool_cfg(fam, w, b):
    return ("SPECIFICATION Spec\nCONSTANTS Help = \"own\"\nWorkers = %d\nMaxBusy = %d\nFamily = %d\n"
            "INVARIANTS OneAtATime NoDoubleReport SameAnswer OnceIfKept Quiet DepthCount\nPROPERTY Finishes\n" % (w, b, fam))


def run(c):
    c.build("h_meq")
    for fam in (1, 2, 3, 4):
        c.mc("NodePool", pool_cfg(fam, 2, 2), timeout=300)
    if not c.quick:
        for fam in (2, 3, 4):
            c.mc("NodePool", pool_cfg(fam, 3, 2), timeout=900, need_complete=False)
            c.mc("NodePool", pool_cfg(fam, 3, 3), timeout=900, need_complete=False)
    r = random.Random("C06-%d" % c.seed)
    for rnd in range(1 if c.quick else 12):
        for mt, delay in ((2, 150), (3, 60), (4, 300), (2, 0), (3, 400)):
            sc = scripts(r, 700 if c.quick else 1200)
            c.conform("parallel polling, %d threads" % mt, "h_meq", "TraceForest", TCFG, sc, prep=prep, confirm=-1,
                      prologue=["mt %d" % mt, "delay %d %d" % (delay, r.randint(1, 9999))])
            if c.viol:
                return
