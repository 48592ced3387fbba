"""C20: the table of parameter solutions (spec/ParmTab.tla)."""
import random
from vlib import Script

CFG = "SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n"
NAMES = ["a", "ab", "b", "a:b", "parm.with.a.longer.name"]


def domtx(d):
    return ",".join("%d:%d:%d" % tuple(x) for x in d) or "-"


class PT:
    def __init__(self, r):
        self.r = r
        self.s = Script()
        self.names = r.sample(NAMES, r.randint(2, 4))
        n = r.randint(2, 6)
        self.doms = []
        while len(self.doms) < n:
            d = [[a, lo, lo + r.randint(1, 3)] for a in range(3) if r.random() < (.9, .7, .2)[a] for lo in [r.randint(0, 6)]]
            self.doms.append(d)
        if r.random() < .3:
            self.doms.append([])
        self.ndom = 0
        self.dirty = False

    def val(self):
        r = self.r
        k = r.choice("cccppplq")
        n = {"c": 1, "p": r.choice([1, 2, 3, 4]), "l": r.choice([1, 2, 3]), "q": 4}[k]
        t = ",".join(str(r.randint(0, 9)) for _ in range(n))
        return k + t, ("c" if n == 1 else k) + t

    def dom(self):
        r = self.r
        if r.random() < .75:
            return r.choice(self.doms)
        d = [list(x) for x in r.choice(self.doms)]
        if d:
            x = r.choice(d)
            x[r.choice([1, 2])] += r.choice([0, 1, -1])
            if x[1] >= x[2]:
                x[2] = x[1] + 1
        if r.random() < .5:
            self.doms.append(d)
        return d

    def putp(self, name=None):
        r = self.r
        tx, v = self.val()
        d = self.dom()
        self.ndom += 1
        ask = r.choice([-1, -1, -1, r.randint(0, 6), r.randint(0, 6), 99])
        return "%s %s %s %d" % (name or "", tx, domtx(d), ask), dict(n=name, v=v, d=d, ask=ask)

    def put(self, name=None):
        tx, e = self.putp(name or self.r.choice(self.names))
        self.s.add("put " + tx, dict(e="cmd", op="put", **e))

    def read(self):
        r = self.r
        n = r.choice(self.names)
        u = r.random()
        if u < .5:
            d = self.dom()
            self.s.add("find %s %s" % (n, domtx(d)), dict(e="cmd", op="find", n=n, d=d))
        elif u < .8:
            k = r.randint(0, 6)
            self.s.add("get %s %d" % (n, k), dict(e="cmd", op="get", n=n, id=k))
        else:
            self.dump()

    def dump(self):
        self.s.add("dump", dict(e="cmd", op="dump"))

    def write(self):
        r = self.r
        u = r.random()
        if u < .75:
            self.put()
        elif u < .95:
            n, k = r.choice(self.names), r.randint(0, 6)
            self.s.add("del %s %d" % (n, k), dict(e="cmd", op="del", n=n, id=k))
        else:
            n = r.choice(self.names)
            self.s.add("delall " + n, dict(e="cmd", op="delall", n=n))

    def op(self, x, tx=None):
        self.s.add(tx or x, dict(e="cmd", op=x))

    def reset(self):
        self.s.add("reset", dict(e="reset"))

    def open(self, w=None):
        self.op("open", "open %d" % (self.r.random() < .5 if w is None else w))



def table(r):
    """histories of one process after another: storing, searching, deleting, flushing, closing and reopening"""
    g = PT(r)
    g.reset()
    for _ in range(r.randint(1, 4)):
        g.open()
        for _ in range(r.randint(2, 14)):
            u = r.random()
            if u < .55:
                g.write()
            elif u < .95:
                g.read()
            else:
                g.op("flush")
        if r.random() < .5:
            g.dump()
        g.op("close")
    g.open()
    g.dump()
    g.op("close")
    return g.s


def deaths(r):
    """processes that die with the table open"""
    g = PT(r)
    g.reset()
    g.open()
    for _ in range(r.randint(0, 6)):
        g.write()
    g.op("close")
    for _ in range(r.randint(1, 3)):
        g.op("fork")
        g.open()
        big = r.random() < .3
        for _ in range(r.choice([0, 1, 2, 4, 8])):
            u = r.random()
            if u < .6:
                g.write()
            elif u < .85:
                g.read()
            else:
                g.op("flush")
        if big:      # more domains than the stream's buffer holds
            n = r.choice(g.names)
            b = r.randint(20, 60)
            for k in range(r.randint(10, 45)):
                d = [[0, b + k, b + k + 1]]
                g.s.add("put %s c%d %s -1" % (n, k, domtx(d)), dict(e="cmd", op="put", n=n, v="c%d" % k, d=d, ask=-1))
            if r.random() < .3:
                g.op("flush")
        if r.random() < .25:
            g.op("flush")
        g.op("die")
        g.open()
        g.dump()
        for _ in range(r.randint(0, 4)):
            g.write()
        for _ in range(r.randint(0, 3)):
            g.read()
        g.op("close")
        if r.random() < .6:
            g.open()
            g.dump()
            g.op("close")
    return g.s


def threads(r):
    """several threads storing at once"""
    g = PT(r)
    g.reset()
    g.open()
    for _ in range(r.randint(1, 3)):
        jobs, tx = [], []
        nt = r.randint(2, 4)
        for t in range(nt):
            ps = [g.putp("t%d%s" % (t, r.choice("xy"))) for _ in range(r.randint(1, 6))]
            jobs.append([e for _, e in ps])
            tx.append("%d %s" % (len(ps), " ".join(x for x, _ in ps)))
        g.s.add("mt %d %s" % (nt, " ".join(tx)), dict(e="cmd", op="mt", jobs=jobs))
    g.op("close")
    g.open()
    g.dump()
    g.op("close")
    return g.s


def go(c, gen, n, label, **kw):
    r = random.Random("%s-%s-%d" % (c.pid, gen.__name__, c.seed))
    sc = [gen(r) for _ in range(n)]
    while sc and not c.viol:
        c.conform(label, "h_ptab", "TraceParmTab", CFG, sc[:4000], **kw)
        sc = sc[4000:]


def run(c):
    c.build("h_ptab")
    q = c.quick
    go(c, table, 2500 if q else 40000, "histories of the table: storing, searching, deleting, reopening")
    go(c, deaths, 800 if q else 8000, "processes dying with the table open")
    go(c, threads, 500 if q else 8000, "several threads storing at once", confirm=-1)
    c.mc("MCParmTab", "SPECIFICATION Spec\nCONSTANTS DEPTH=%d TRIM=TRUE\nINVARIANTS Indexed Kept Unique Searched\nCHECK_DEADLOCK FALSE\n" % (8 if q else 10), timeout=1500)
