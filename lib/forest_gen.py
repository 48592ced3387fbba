"""Random experiments for the node engine (seeded)."""
from vlib import Script

ALWAYS = dict(n=(2, 6), steps=(10, 24), pols=[0, 1, 10, 20, -1, -10], fails=.0, miss=.0, wait=.0, abrt=.0, step=.4,
              riders=.0, sets=.3, clears=.05, abortflag=.0, pu=.08, ds=.0, nocells=.04, emptyid=.03, ignt=.1, pert=.4,
              honest=True, inactive=.1, order=.3, fpols=[2], mpols=[2], nact=.15, setpol=.1, bad=.2, thr=.4, types=[1, 1, 1, 2, 3])

DEF = dict(name="", groups=["All"], ch=[], step=[], par=[], npar=0, order=[], dep=[], reads=[], pol=0, nact=0, fpol=2,
           mpol=2, active=True, sv=0, c0=0, failmod=0, missmod=0, waitmod=0, thr=0, pert=0, ignt=0, abrt=0)


def gen_nodes(r, p):
    n = r.randint(*p["n"])
    N = [dict(DEF, name="n%d" % (i + 1), ch=[], step=[], par=[], groups=["All"]) for i in range(n)]
    for i in range(1, n):
        # every later node gets one to three parents among the earlier ones
        for k in sorted(r.sample(range(i), min(i, r.choice([1, 1, 1, 2, 2, 3])))):
            key = "step" if r.random() < p["step"] * .4 and (N[k]["ch"] or True) else "ch"
            N[k][key].append(i + 1)
            N[i]["par"].append(k + 1)
    for i, x in enumerate(N):
        x["npar"] = len(x["par"])
        x["order"] = list(range(1, len(x["ch"]) + 1))
        x["c0"] = r.randint(1, 400)
        x["sv"] = r.randint(0, 5)
        x["pol"] = r.choice(p["pols"])
        x["dep"] = sorted(b for b in (1, 2, 3, 4, 5) if r.random() < (.35 if b in (1, 4) else .12))
        x["reads"] = [b for b in x["dep"] if r.random() < .7] if p["honest"] else \
            [b for b in (1, 2, 3, 4, 5) if r.random() < .3]
        if r.random() < p["pert"] and not x["ch"]:
            x["pert"] = 1
        elif r.random() < p["ignt"] and not x["ch"]:
            x["ignt"] = 1
        if r.random() < p["fails"]:
            x["failmod"] = r.choice([2, 3, 3, 5])
            x["thr"] = int(r.random() < p["thr"])
        if r.random() < p["miss"]:
            x["missmod"] = r.choice([2, 3, 3, 5])
        if r.random() < p["wait"]:
            x["waitmod"] = r.choice([2, 3, 5])
        if r.random() < p["abrt"]:
            x["abrt"] = 1
        x["fpol"] = r.choice(p["fpols"])
        x["mpol"] = r.choice(p["mpols"])
        if r.random() < p["nact"]:
            x["nact"] = r.randint(1, 2)
        x["active"] = r.random() >= p["inactive"] * .3
        if p["riders"]:
            x["groups"] = ["All"] + r.sample(["GrA", "GrB", "GrC"], r.choice([0, 0, 1, 1, 2]))
        if len(x["ch"]) > 1 and r.random() < p["order"]:
            x["order"] = r.sample(x["order"], len(x["order"]))
            x["_k"] = r.randint(1, len(x["order"]))
            rest = [c for c in range(1, len(x["ch"]) + 1) if c not in x["order"][:x["_k"]]]
            x["order"] = x["order"][:x["_k"]] + rest
    return N


def vec(v):
    return " ".join([str(len(v))] + [str(x) for x in v])


def mask(v):
    return sum(1 << b for b in v)


def declare(s, N, fcp, r=None):
    """lines that build forest N; the trace starts with one reset event"""
    clean = [{k: v for k, v in x.items() if k[0] != "_"} for x in N]
    s.add("reset %d" % fcp, dict(e="reset", fcp=fcp, N=clean))
    idx = list(range(len(N)))
    if r:
        r.shuffle(idx)
    for i in idx:
        x = N[i]
        l = "node %d %s %s %s %s" % (i + 1, x["name"], vec(x["ch"]), vec(x["step"]), vec(x["par"]))
        l += " c0=%d sv=%d dep=%d reads=%d pol=%d" % (x["c0"], x["sv"], mask(x["dep"]), mask(x["reads"]), x["pol"])
        for k in ("failmod", "missmod", "waitmod", "thr", "pert", "ignt", "abrt", "nact"):
            if x[k]:
                l += " %s=%d" % (k, x[k])
        if x["fpol"] != 2 or x["mpol"] != 2:
            l += " fpol=%d mpol=%d" % (x["fpol"], x["mpol"])
        if not x["active"]:
            l += " act=0"
        if x["groups"] != ["All"]:
            l += " groups=" + ",".join(x["groups"][1:])
        l += x.get("_extra", "")
        if "_k" in x:
            l += " order=" + ",".join(N[x["ch"][o - 1] - 1]["name"] for o in x["order"][:x["_k"]])
        s.add(l)
    s.add("init")


def gen_rider(r, p, N, s, arg):
    ent, used = [], set()
    for _ in range(r.choice([1, 1, 2, 3, 4])):
        g = r.choice(["All", "All", "GrA", "GrB", "GrC"])
        kind = r.choice(["all", "list", "list", "ni"])
        idx = names = []
        if kind == "ni":
            idx = [r.randint(1, len(N))]
        elif kind == "list":
            m = r.random()
            if m < .45:
                idx = sorted(r.sample(range(1, len(N) + 1), r.randint(1, len(N))))
            if m > .3 and m < .9:
                names = [x["name"] for x in r.sample(N, r.randint(1, len(N)))]
        slot = (g, kind, tuple(idx)) if kind != "list" else None
        if slot and slot in used:
            continue
        used.add(slot)
        arg[0] += 1
        bad = int(r.random() < p["bad"] * .4)
        e = dict(g=g, kind=kind, names=names, idx=idx, cmd="cmd", arg=arg[0], bad=bad, st=[])
        cmd = "cmd %d %d" % (arg[0], bad)
        if p.get("riderset") and not bad and r.random() < .4:
            e["st"] = ["sv", r.randint(0, 9)]
            e["cmd"], e["arg"] = "state", 0
            cmd = "state sv=%d" % e["st"][1]
        ent.append(e)
        if kind == "all":
            s.add("riderall %s %s" % (g, cmd))
        elif kind == "ni":
            s.add("riderni %s %d %s" % (g, idx[0], cmd))
        else:
            s.add("riderlist %s %s %s %s" % (g, vec(names), vec(idx), cmd))
    return ent


def gen(r, prof):
    p = dict(ALWAYS, **prof)
    s = Script()
    N = gen_nodes(r, p)
    if "post" in p:
        p["post"](r, N)
    fcp = r.choice([1, 1, 1, 20, -1, 10])
    declare(s, N, fcp, r)
    N = [dict(x) for x in N]
    sub, aborted, arg = 1, False, [0]
    pend = None
    for _ in range(r.randint(*p["steps"])):
        u = r.random()
        if u < p["sets"]:
            n = r.randint(1, len(N))
            cand = ["sv", "sv", "sv", "c0"]
            if p["fails"]:
                cand += ["failmod"]
            if p["miss"]:
                cand += ["missmod"]
            if p["wait"]:
                cand += ["waitmod"]
            if p["abrt"]:
                cand += ["abrt"]
            if r.random() < p["setpol"]:
                cand = ["pol"]
            if r.random() < p["inactive"]:
                cand = ["act"]
            if len(p["fpols"]) > 1 and r.random() < .15:
                cand = ["fpol", "mpol"]
            f = r.choice(cand)
            v = dict(sv=r.randint(0, 9), c0=r.randint(1, 400), failmod=r.choice([0, 2, 3]), missmod=r.choice([0, 2, 3]),
                     waitmod=r.choice([0, 0, 2, 3]), abrt=r.choice([0, 0, 1]), pol=r.choice(p["pols"]), act=r.choice([0, 1, 1]),
                     fpol=r.choice(p["fpols"]), mpol=r.choice(p["mpols"]))[f]
            s.add("set %d %s=%d" % (n, f, v), dict(e="set", n=n, f=f, v=v, ok=True))
            if p["honest"] or r.random() < .5:
                sub += 1
            continue
        if u < p["sets"] + p["clears"]:
            n, rec = r.randint(1, len(N)), r.random() < .5
            s.add("clear %d %d" % (n, int(rec)), dict(e="clear", n=n, rec=rec))
            continue
        if p["abrt"] or p["abortflag"]:
            if aborted is False and r.random() < p["abortflag"]:
                s.add("raiseabort", dict(e="abort", v=True))
                aborted = True
            elif aborted or p["abrt"]:
                if r.random() < .7:
                    s.add("clearabort", dict(e="abort", v=False))
                    aborted = False
        n = 1 if r.random() < .7 else r.randint(1, len(N))

        def mk(sub):
            u = r.random()
            t = 5 if u < p["pu"] else 4 if u < p["pu"] + p["ds"] else r.choice(p["types"])
            return [t, r.randint(1, 2), sub, r.choice([0, 0, 0, 1]), r.choice([0, 1, 1, 2]), r.choice([0, 0, 0, 1])]
        if pend and r.random() < .6 and pend[2] == sub:
            rid = pend
        else:
            rid = mk(sub)
        if r.random() < .3:
            k = r.randint(3, 6)
            rid = rid[:k]
        if r.random() < p["emptyid"]:
            rid = []
        cells = not (rid and rid[0] == 5) and (p["honest"] or r.random() >= p["nocells"])
        nxt = [] if r.random() < .35 else mk(sub)
        pend = nxt or None
        rider = []
        if r.random() < p["riders"]:
            rider = gen_rider(r, p, N, s, arg)
        # "sound": an evaluation whose id tells apart everything that differs
        sound = p["honest"] and cells and bool(rid) and rid[0] in (1, 2, 3) and not rider
        s.add("exec %d %s %s %d" % (n, vec(rid), vec(nxt), int(cells)),
              dict(e="exec", n=n, id=rid, next=nxt, cells=cells, rider=rider, sound=sound))
        if r.random() < .25:
            s.add("exec %d %s %s %d" % (n, vec(rid), vec(nxt), int(cells)),
                  dict(e="exec", n=n, id=rid, next=nxt, cells=cells, rider=[], sound=sound))
    return s
