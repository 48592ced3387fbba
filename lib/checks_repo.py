"""C07..C10, C19: request ids, the forest as a repository, node state records, execution control, commands in riders (spec/Repo.tla, ReqId.tla)."""
import random
from vlib import Script


def vec(v):
    return " ".join([str(len(v))] + [str(x) for x in v])


def bits(b):
    return "b" + ",".join(map(str, b))


INTS = ["v", "cs", "pub", "cpol", "lpol", "dep", "nact", "fpol", "mpol"]
IMM = ["name", "nodeindex", "class", "children", "stepchildren", "childindices", "stepchildindices", "parentindices",
       "isstepparent", "initindex"]
POLS = [0, 1, 10, 20, -1, -10]


class G:
    def __init__(self, r):
        self.r = r
        self.s = Script()
        self.nodes = {}          # index -> dict(cls,name,ch), as far as the generator knows
        self.size = 1

    def some(self, lo=0, hi=3, of=(0, 1, 2, 3, 4, 5, 7)):
        return sorted(self.r.sample(of, self.r.randint(lo, min(hi, len(of)))))

    # fields of a node state record: (text, event parts)
    def fields(self, n, k, init=False, calm=False):
        r = self.r
        f, bad, imm, tx = {}, [], [], []
        nd = self.nodes.get(n)
        kids = nd["ch"] if nd else []
        pool = INTS + ["bp", "ss", "desc"]
        if not calm:
            pool += ["fail", "groups", "asd"]
            if len(kids) > 1 or r.random() < .2:
                pool += ["order", "order"]
            if not init:
                pool += ["ars"]
        if not calm:
            if r.random() < (.15 if init else .3):
                pool += ["vbad"] * 3
        for x in r.sample(pool, min(k, len(pool))):
            if x in f:
                continue
            if x in ("bp", "ss"):
                f[x] = self.some()
                tx.append("%s=%s" % (x, bits(f[x])))
            elif x == "desc":
                f[x] = r.choice(["d1", "d2", "d3"])
                tx.append("desc=" + f[x])
            elif x == "asd":
                f[x] = r.sample(["Iteration", "State", "Resolution", "Domain", "Dataset", "GrA"], r.randint(1, 3))
                tx.append("asd=" + ",".join(f[x]))
            elif x == "groups":
                f[x] = r.choice([["GrA"], ["GrB"], ["GrA", "GrB"], ["GrB", "GrA"]])
                tx.append("groups=" + ",".join(f[x]))
            elif x == "order":
                nm = [self.nodes[c]["name"] for c in kids if c in self.nodes] + (["nobody"] if r.random() < .15 else [])
                nm = [a for a in nm if a]
                o = r.sample(nm, r.randint(0, len(nm)))
                if o and r.random() < .1:
                    o.append(r.choice(o))
                if o:
                    f[x] = o
                    tx.append("order=" + ",".join(o))
            else:
                v = {"v": [1, 2, 3, 4], "fail": [0, 0, 1, 2], "vbad": [0, 1, 1], "cs": [0, 1, 1, 3, 17, 0x51, 0x30001, 0x71], "pub": [0, 1, 2],
                     "cpol": POLS, "lpol": POLS, "dep": [0, 1, 3, 255], "nact": [0, 1, 2], "ars": [0, 0, 1, -1], "fpol": [0, 1, 2],
                     "mpol": [0, 1, 2]}[x]
                if calm and x == "cs":
                    v = [1, 1, 0]
                f[x] = r.choice(v)
                tx.append("%s=%d" % (x, f[x]))
        if not calm and r.random() < (.08 if init else .12):
            x = r.choice(["v", "fail", "cs", "pub", "bp", "ss", "cpol", "lpol", "dep", "nact", "desc", "fpol", "mpol", "asd"])
            if x not in f:
                bad.append(x)
                tx.append(x + "=bad")
        if not calm and not init and r.random() < .1:
            x = r.choice(IMM)
            imm.append(x)
            tx.append("%s=%s" % (x, {"name": "zz", "class": "RLab"}.get(x, "1")))
        r.shuffle(tx)
        return " ".join(tx), f, bad, imm

    def reset(self, names):
        self.names = names
        self.s.add("reset " + vec(names), dict(e="reset", names=names))

    def create(self, cls, idx, name, spec, stx, step, par, tx="", f=None, bad=()):
        self.s.add("create %s %d %s %s %s %s %s" % (cls, idx, name or "-", stx, vec(step), vec(par), tx),
                   dict(e="cmd", op="create", c=dict(cls=cls, idx=idx, name=name, spec=spec, step=step, par=par, f=f or {}, bad=list(bad))))

    def forestop(self):
        r = self.r
        u = r.random()
        if u < .3:
            f, bad, tx = {}, [], []
            for x in r.sample(["cp", "lp", "prof", "bp", "ss"], r.randint(1, 3)):
                if r.random() < .15:
                    bad.append(x)
                    tx.append(x + "=bad")
                elif x in ("bp", "ss"):
                    f[x] = self.some()
                    tx.append("%s=%s" % (x, bits(f[x])))
                else:
                    f[x] = r.randint(0, 1) if x == "prof" else r.choice(POLS)
                    tx.append("%s=%d" % (x, f[x]))
            self.s.add("fset %d %s" % (r.random() < .3, " ".join(tx)), dict(e="cmd", op="fset", f=f, bad=bad))
        elif u < .5:
            x = r.choice(["cp", "lp", "prof"])
            v = r.randint(0, 1) if x == "prof" else r.choice(POLS)
            self.s.add("fpol %s %d" % (x, v), dict(e="cmd", op="fpol", f={x: v}))
        elif u < .8:
            self.fbreak()
        else:
            self.s.add("fget", dict(e="cmd", op="fget"))

    def fbreak(self, of=(0, 1, 2, 3, 4, 7)):
        r = self.r
        m, one, op = self.some(0, 3, of), r.random() < .5, r.choice(["fbp", "fclr"])
        self.s.add("%s %s %d" % (op, bits(m), one), dict(e="cmd", op=op, m=m, one=one))

    def setcmd(self, n, calm=False):
        r = self.r
        u = r.random()
        if u < .55:
            tx, f, bad, imm = self.fields(n, r.randint(0 if not calm else 1, 4), calm=calm)
            if r.random() < .75:
                self.s.add("set %d %s" % (n, tx), dict(e="cmd", op="set", n=n, f=f, bad=bad, imm=imm))
            else:
                self.s.add("cmd %d Set.State %s" % (n, tx), dict(e="cmd", op="cmd", n=n, cmd="Set.State", a=dict(f=f, bad=bad, imm=imm)))
        elif u < .8:
            self.breakcmd(n)
        elif u < .9:
            a = {} if r.random() < .4 else {"level": r.randint(0, 2)}
            self.s.add("cmd %d Set.Publish.Level %s" % (n, " ".join("%s=%d" % x for x in a.items())),
                       dict(e="cmd", op="cmd", n=n, cmd="Set.Publish.Level", a=a))
        else:
            self.s.add("get %d" % n, dict(e="cmd", op="get", n=n))

    def breakcmd(self, n, of=(0, 1, 2, 3, 4, 7)):
        r = self.r
        a = {}
        if r.random() < .8:
            a["bp"] = self.some(0, 3, of)
        if r.random() < .6:
            a["one"] = r.randint(0, 1)
        c = r.choice(["Set.Breakpoint", "Set.Breakpoint", "Clear.Breakpoint"])
        self.s.add("cmd %d %s %s" % (n, c, " ".join("%s=%s" % (k, bits(v) if k == "bp" else v) for k, v in a.items())),
                   dict(e="cmd", op="cmd", n=n, cmd=c, a=a))


def repo(r):
    """histories of the repository: creation, refusal, removal, clearing; and of the forest's own state"""
    g = G(r)
    names = ["na", "nb", "nc", "nd"][:r.randint(2, 4)]
    g.reset(names)
    inited = False
    alive = []
    for _ in range(r.randint(8, 30)):
        u = r.random()
        if u < .5:
            cls = r.choice(["RNode"] * 5 + ["RLab"] * 3 + ["Bogus", "-"])
            idx = r.choice([0, 0, 0, 1, 2, 3, 5, 6])
            name = r.choice(names + [""])
            v = r.random()
            if v < .45:
                spec, stx = dict(k="none"), "-"
            elif v < .7:
                q = [r.choice([1, 2, 3, 4, 5, -1]) for _ in range(r.randint(1, 3))]
                spec, stx = dict(k="vec", v=q), "v" + ",".join(map(str, q))
            elif v < .95:
                lab = r.choice([["VX", "VY"], ["VX"], ["VY"], ["VX", "1"], ["0", "1"], ["0"], ["2"], ["VZ", "0"], ["0", "2"]])
                q = [[l, r.choice([1, 2, 3, 4])] for l in lab]
                spec, stx = dict(k="rec", p=q), "r" + ",".join("%s=%d" % tuple(x) for x in q)
            else:
                spec, stx = dict(k="bad"), "s"
            step = [r.choice([1, 2, 3]) for _ in range(r.choice([0, 0, 0, 1]))]
            par = [r.choice([1, 2, 3]) for _ in range(r.choice([0, 0, 0, 1]))]
            g.create("" if cls == "-" else cls, idx, name, spec, stx, step, par) if cls != "-" else \
                g.s.add("create - %d %s %s %s %s" % (idx, name or "-", stx, vec(step), vec(par)),
                        dict(e="cmd", op="create", c=dict(cls="-", idx=idx, name=name, spec=spec, step=step, par=par, f={}, bad=[])))
        elif u < .7:
            n = r.choice([1, 2, 3, 4, 5, 6, 6, 0, 9])
            g.s.add("remove %d" % n, dict(e="cmd", op="remove", n=n))
        elif u < .74:
            g.s.add("clear", dict(e="cmd", op="clear"))
            inited = False
        elif u < .8 and not inited:
            g.s.add("initall", dict(e="cmd", op="initall"))
            inited = True
        else:
            g.forestop()
    g.s.add("fget", dict(e="cmd", op="fget"))
    return g.s


def build(g, r, n, extra=None, plain=False):
    """a small forest, children after their parents"""
    ch = {i: [] for i in range(1, n + 1)}
    st = {i: [] for i in range(1, n + 1)}
    for i in range(2, n + 1):
        for k in r.sample(range(1, i), min(i - 1, r.choice([1, 1, 1, 2, 2]))):
            (st if r.random() < .15 else ch)[k].append(i)
    names = []
    for i in range(1, n + 1):
        cls = "RLab" if 1 <= len(ch[i]) <= 2 and r.random() < .4 else "RNode"
        name = "n%d" % i if r.random() < .9 or not plain else "n%d" % i
        names.append(name)
        g.nodes[i] = dict(cls=cls, name=name, ch=ch[i])
    g.reset(names)
    order = list(range(1, n + 1))
    if r.random() < .5:
        r.shuffle(order)
    for i in order:
        nd = g.nodes[i]
        q = ch[i]
        if q and nd["cls"] == "RLab" and r.random() < .7:
            lab = [[a, b] for a, b in zip(["VX", "VY"], q)]
            spec, stx = dict(k="rec", p=lab), "r" + ",".join("%s=%d" % tuple(x) for x in lab)
        elif q:
            spec, stx = dict(k="vec", v=q), "v" + ",".join(map(str, q))
        else:
            spec, stx = dict(k="none"), "-"
        tx, f, bad = "", {}, []
        if extra:
            tx, f, bad = extra(i)
        g.create(nd["cls"], i, nd["name"], spec, stx, st[i], [], tx, f, bad)
    g.s.add("initall", dict(e="cmd", op="initall"))
    g.st = st


def state(r):
    """histories of set-state commands, accepted and refused"""
    g = G(r)
    n = r.randint(2, 5)
    okay = set(range(1, n + 1))

    def extra(i):
        if r.random() < .5:
            tx, f, bad, _ = g.fields(i, r.randint(1, 4), True, calm=r.random() < .8)
            if bad or "vbad" in f or "order" in f:
                okay.discard(i)
            return tx, f, bad
        return "", {}, []
    build(g, r, n, extra)
    if not okay:
        return g.s
    ok = sorted(okay)
    for _ in range(r.randint(6, 25)):
        n = r.choice(ok)
        if r.random() < .08:
            g.forestop()
        else:
            g.setcmd(n)
        if r.random() < .25:
            g.s.add("get %d" % n, dict(e="cmd", op="get", n=n))
    for n in ok:
        g.s.add("get %d" % n, dict(e="cmd", op="get", n=n))
    return g.s


def execs(r):
    """requests under breakpoints: stops, continuations, aborts, one-shot and global breakpoints"""
    g = G(r)
    n = r.randint(2, 6)
    always = r.random() < .6

    def extra(i):
        f = dict(cpol=20 if always else -10, dep=65535)
        if always and r.random() < .2:
            f["fail"] = r.choice([1, 2])
        if r.random() < .3:
            f["fpol"] = r.choice([0, 1, 2])
        if r.random() < .1:
            f["cs"] = 0
        f["v"] = i
        return " ".join("%s=%s" % x for x in f.items()), f, []
    build(g, r, n, extra, True)
    idn = 0
    last = None

    def brk():
        u = r.random()
        if u < .3:
            g.fbreak()
        elif u < .85:
            g.breakcmd(r.randint(1, n))
        else:
            k = r.randint(1, n)
            g.s.add("get %d" % k, dict(e="cmd", op="get", n=k))
    for _ in range(r.randint(2, 6)):
        for _ in range(r.randint(0, 3)):
            brk()
        if last and r.random() < .3:
            id, cells = last
        else:
            idn += 1
            id, cells = idn, r.random() < .9
        last = (id, cells)
        k = r.choice([1, 1, 1, r.randint(1, n)])
        if r.random() < .12:
            g.s.add("xabort %d %d %d" % (k, id, cells), dict(e="cmd", op="xabort", n=k, id=id, cells=cells))
            continue
        if r.random() < .2:
            cmd = dict(op="bp", m=g.some(1, 2, (0, 3, 4, 7, 2)), one=r.random() < .5)
            rd, tx = dict(All=dict(all=[cmd], list=[], ix=[])), "All;A;" + cmdtx([cmd])
        else:
            rd, tx = {}, ""
        g.s.add("exec %d %d %d %s" % (k, id, cells, tx), dict(e="cmd", op="exec", n=k, id=id, cells=cells, rd=rd))
        for _ in range(r.choice([0, 1, 3, 8, 15])):
            if r.random() < .3:
                brk()
            g.s.add("cont", dict(e="cmd", op="cont"))
        g.s.add("abort", dict(e="cmd", op="abort"))
    return g.s


def cmdtx(cmds):
    def one(x):
        if x["op"] in ("bp", "clr"):
            return "%s:%s:%d" % (x["op"], ",".join(map(str, x["m"])), x["one"])
        return x["op"] + ("" if x["op"] == "foo" else ":%d" % x["v"])
    return "|".join(map(one, cmds))


def riders(r):
    """requests whose riders hold commands for groups of nodes, for lists of names and indices, and for node indices"""
    g = G(r)
    n = r.randint(2, 6)
    GR = ["GrA", "GrB"]

    def extra(i):
        f = dict(cpol=20, dep=65535)
        tx = ["cpol=20", "dep=65535"]
        if r.random() < .2:
            f["cs"] = 0
            tx.append("cs=0")
        if r.random() < .6:
            f["groups"] = r.sample(GR, r.randint(1, 2))
            tx.append("groups=" + ",".join(f["groups"]))
        return " ".join(tx), f, []

    def cmds():
        out = []
        for op in r.sample([r.choice(["bp", "clr"]), "st", "pub", "foo"], r.choice([1, 1, 2, 3])):
            if op in ("bp", "clr"):
                out.append(dict(op=op, m=g.some(1, 2, (5, 6)), one=r.random() < .5))   # bits that stop nothing
            elif op == "foo":
                out.append(dict(op=op))
            else:
                out.append(dict(op=op, v=r.randint(0, 9) if op == "st" else r.randint(0, 2)))
        return out
    build(g, r, n, extra, True)
    names = ["n%d" % i for i in range(1, n + 1)] + ["nobody"]
    idn = 0
    for _ in range(r.randint(2, 6)):
        if r.random() < .4:
            k = r.randint(1, n)
            f = dict(groups=r.sample(GR, r.randint(1, 2)))
            g.s.add("set %d groups=%s" % (k, ",".join(f["groups"])), dict(e="cmd", op="set", n=k, f=f, bad=[], imm=[]))
        rd, tx = {}, []
        for gr in r.sample(["All", "GrA", "GrB", "VZ"], r.randint(1, 3)):
            e = rd[gr] = dict(all=[], list=[], ix=[])
            if r.random() < .5:
                e["all"] = cmds()
                tx.append("%s;A;%s" % (gr, cmdtx(e["all"])))
            if r.random() < .5:
                for _ in range(r.randint(1, 4)):
                    nm = r.sample(names, r.choice([0, 0, 1, 1, 2]))
                    ix = r.sample(range(1, n + 2), r.choice([0, 0, 1, 1, 2])) if nm or r.random() < .7 else []
                    e["list"].append(dict(names=nm, idx=ix, cmds=cmds()))
                    tx.append("%s;L;%s;%s;%s" % (gr, ",".join(nm), ",".join(map(str, ix)), cmdtx(e["list"][-1]["cmds"])))
            if r.random() < .5:
                for k in r.sample(range(1, n + 2), r.randint(1, 2)):
                    e["ix"].append(dict(n=k, cmds=cmds()))
                    tx.append("%s;I;%d;%s" % (gr, k, cmdtx(e["ix"][-1]["cmds"])))
        if not tx:
            rd = {}
        for gr in [x for x in rd if not any(t.startswith(x + ";") for t in tx)]:
            del rd[gr]
        if idn == 0 or r.random() < .8:
            idn += 1
        k = r.choice([1, 1, r.randint(1, n)])
        g.s.add("exec %d %d 1 %s" % (k, idn, " ".join(tx)), dict(e="cmd", op="exec", n=k, id=idn, cells=True, rd=rd))
        for k in range(1, n + 1):
            g.s.add("get %d" % k, dict(e="cmd", op="get", n=k))
    return g.s


CFG = "SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n"


def mtstop(r):
    """several nodes evaluating at once, one of them comes to a breakpoint"""
    g = G(r)
    k = r.choice([2, 3, 3])
    par, gated, n = {}, [], 1
    top = []
    for _ in range(k):
        n += 1
        x = n
        top.append(x)
        par[x] = []
        for _ in range(r.choice([0, 0, 1, 2])):
            n += 1
            par[x].append(n)
            x = n
            par[x] = []
        gated.append(x)
    names = ["n%d" % i for i in range(1, n + 1)]
    g.reset(names)
    ch = dict(par)
    ch[1] = top
    for i in range(1, n + 1):
        q = ch[i]
        g.create("RNode", i, "n%d" % i, dict(k="vec", v=q) if q else dict(k="none"), "v" + ",".join(map(str, q)) if q else "-", [], [],
                 "cpol=20 dep=65535" + (" mt=1" if i == 1 or r.random() < .3 else ""), dict(cpol=20, dep=65535))
    g.s.add("initall", dict(e="cmd", op="initall"))
    for id in range(1, r.randint(2, 5)):
        st = r.choice(gated)
        oth = [x for x in gated if x != st]
        g.s.add("mtstop 1 %d b0 %d %s" % (st, id, vec(oth)), dict(e="cmd", op="mtstop", n=st, others=oth))
    return g.s


def reqid(r):
    """request ids"""
    s = Script()
    s.add("reset 0", dict(e="reset"))
    val = [0, 0, 1, 2, 3, -1, 40]
    last = None

    def anid():
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 15, 16, 17, 18])
        return [r.choice(val) for _ in range(n)]
    for _ in range(r.randint(10, 40)):
        op = r.choice(["mask", "incr", "set", "cmp", "cmp", "cmp", "diff", "diff", "fincr", "fincr", "fincr", "fdep"])
        a = list(last) if last is not None and r.random() < .5 else anid()
        last = a
        b = list(a)
        u = r.random()
        if u < .2:
            b = anid()
        elif u < .5 and b:
            b[r.randrange(len(b))] = r.choice(val)
        elif u < .7:
            b = b + [r.choice([0, 0, 1])] * r.randint(1, 3)
        elif u < .85:
            b = b[:-1]
        m = sorted(r.sample(range(18), r.choice([0, 1, 1, 2, 3, 6, 15])))
        if op == "fincr":
            d = [r.choice(["Iteration", "State", "Resolution", "Domain", "Dataset", "GrA"]) for _ in range(r.randint(1, 3))]
            s.add("fincr %s %s" % (vec(a), vec(d)), dict(e="cmd", op="fincr", a=a, deps=d))
        elif op == "fdep":
            s.add("fdep", dict(e="cmd", op="fdep"))
        else:
            v = r.choice([0, 1, 9])
            s.add("rq %s %s %s %s %d" % (op, vec(a), vec(b), bits(m), v), dict(e="cmd", op=op, a=a, b=b, m=m, v=v))
    return s


MCR = "SPECIFICATION Spec\nCONSTANTS MODE=\"%s\" DEPTH=%d BITS={%s} RIDER=%s\nINVARIANTS %s\nPROPERTIES %s\nCHECK_DEADLOCK FALSE\n"
SF = "SPECIFICATION %s\nCONSTANTS NT=%d NB=%d BPS={%s} HEED=TRUE LOCKED=TRUE\n%s\nCHECK_DEADLOCK FALSE\n"
RQ = "SPECIFICATION Spec\nCONSTANTS LEN=%d VAL=%d BITS=%d STEPS=%d\nINVARIANTS Symmetric Reflexive Transitive ByDiff Monotone " \
     "MaskKeeps MaskIdem IncrMoves PutSets PutOnly CacheSound\nCHECK_DEADLOCK FALSE\n"


def go(c, gen, n, label, module="TraceRepo", **kw):
    r = random.Random("%s-%s-%d" % (c.pid, gen.__name__, c.seed))
    sc = [gen(r) for _ in range(n)]
    while sc and not c.viol:
        c.conform(label, "h_rep", module, CFG, sc[:4000], **kw)
        sc = sc[4000:]


def run(c):
    c.build("h_rep")
    q = c.quick
    if c.pid == "C07":
        go(c, reqid, 4000 if q else 40000, "request ids: masks, comparison, differences, increments", "TraceReqId")
        c.mc("MCReqId", RQ % ((3, 1, 3, 6) if q else (4, 1, 3, 8)), timeout=1500)
    elif c.pid == "C08":
        go(c, repo, 6000 if q else 60000, "creation, refusal and removal of nodes; forest state")
        c.mc("MCRepo", MCR % ("repo", 4 if q else 5, "1", "FALSE", "Names Indices Slotted", "Refusals"), timeout=1500)
    elif c.pid == "C09":
        go(c, state, 5000 if q else 50000, "state records: accepted and refused changes")
        c.mc("MCRepo", MCR % ("state", 5 if q else 8, "1", "FALSE", "Names Indices Slotted OneStop", "Refusals"), timeout=1500)
    elif c.pid == "C19":
        go(c, riders, 5000 if q else 50000, "commands in the riders of requests")
        c.mc("MCRider", "SPECIFICATION Spec\nINVARIANTS Addressed Once Ordered\nCHECK_DEADLOCK FALSE\n", timeout=1500)
    else:
        go(c, execs, 3500 if q else 30000, "requests under breakpoints: stops, continuations, aborts")
        go(c, mtstop, 800 if q else 6000, "nodes in several threads brought to a stop", prologue=["mt 4"], confirm=-1)
        c.mc("MCRepo", MCR % ("exec", 3 if q else 4, "0,1,4", "FALSE", "OneStop StopReason Transparent AtRest OnceEach", "OneShot AbortLast"),
             timeout=1500)
        c.mc("MCRepo", MCR % ("exec", 3 if q else 4, "0,4", "TRUE", "OneStop StopReason AtRest OnceEach", "OneShot AbortLast"), timeout=1500)
        c.mc("StopFlag", SF % ("Spec", 2 if q else 3, 3, "1,2", "INVARIANTS Halts\nPROPERTIES AbortEnds"), timeout=1500)
        c.mc("StopFlag", SF % ("SpecC", 2 if q else 3, 3, "1,2,3", "INVARIANTS Halts\nPROPERTIES AllEnd"), timeout=1500)
