"""C25: sampling grids and domains (spec/Cells.tla)."""
import random
from vlib import Script

CFG = "SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n"
AX = [0, 0, 0, 1, 1, 1, 2, 3, 5, 7]


class G:
    """only as much about the grids as is needed to ask sensible questions"""

    def __init__(self):
        self.has, self.dom, self.n, self.gen, self.ext = False, {}, {}, 0, {}

    def copy(self):
        g = G()
        g.has, g.dom, g.n, g.gen, g.ext = self.has, dict(self.dom), dict(self.n), self.gen, dict(self.ext)
        return g


class H:
    def __init__(self, r):
        self.r, self.s, self.S = r, Script(), [None] * 4
        # few different rows, so that grids often have some in common
        self.rows = [self.row() for _ in range(r.randint(2, 5))]
        self.doms = [self.domain() for _ in range(r.randint(1, 3))]

    def domain(self, need=()):
        r = self.r
        d = []
        for a in range(8):
            if a in need or r.random() < (.7, .7, .3, .15, .05, .1, .05, .1)[a]:
                lo = r.randint(-6, 6)
                d.append([a, lo, lo + r.choice([1, 2, 3, 4, 6, 12])])
                if r.random() < .08:
                    d[-1][1:] = d[-1][:0:-1]
        return d

    def row(self):
        r = self.r
        n = r.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 6, 8, 12])
        x, c, h = r.randint(-9, 9), [], []
        st, sz = r.choice([1, 2, 3, 12]), r.choice([0, 1, 2, 3, 12])
        if r.random() < .5:
            sz = st
        sg = r.choice([0, .15, .4, .8])
        for _ in range(n):
            c.append(x)
            h.append(sz)
            x += st
            if r.random() < sg:
                st = r.choice([1, 2, 3, 12])
            if r.random() < sg / 2:
                sz = r.choice([0, 1, 2, 3, 12])
        if r.random() < .06:
            c.reverse()
        if c[0] * 2 - h[0] == c[-1] * 2 + h[-1]:
            h[-1] += 12
        return c, h

    def ev(self, tx, **e):
        self.s.add(tx, dict(e="cmd", **e))

    def dtx(self, d):
        return "%d %s" % (len(d), " ".join("%d %d %d" % tuple(x) for x in d))

    def whole(self, k):
        """a grid is left as it is only with its domain made anew"""
        return all(x in self.S[k].dom for x in self.S[k].n)

    def live(self, f=lambda g: True):
        return [k for k in range(4) if self.S[k] is not None and f(self.S[k])]

    def new(self, d):
        r = self.r
        g = G()
        u = r.random()
        if u < .25:
            self.ev("empty %d" % d, op="empty", d=d)
        elif u < .6:
            dom = r.choice(self.doms)
            if not {0, 1} <= {x[0] for x in dom} or any((x[2] - x[1]) == 0 for x in dom):
                dom = self.domain((0, 1))
                self.doms.append(dom)
            w = {x[0]: abs(x[2] - x[1]) for x in dom}
            nx, ny = [r.choice([k for k in (1, 2, 3, 4, 6, 12) if w[a] % k == 0 or w[a] * 4 % k == 0 and k in (2, 4)]) for a in (0, 1)]
            self.ev("new %d %s %d %d" % (d, self.dtx(dom), nx, ny), op="new", d=d, dom=dom, nx=nx, ny=ny)
            g.has, g.n, g.dom = True, {0: nx, 1: ny}, {x[0]: tuple(sorted(x[1:])) for x in dom}
            g.ext = {a: g.dom[a] for a in (0, 1)}
            g.gen = 1
        else:
            dom = r.choice(self.doms)
            self.ev("only %d %s" % (d, self.dtx(dom)), op="only", d=d, dom=dom)
            g.has, g.dom = True, {x[0]: tuple(sorted(x[1:])) for x in dom}
        self.S[d] = g
        if not g.n or r.random() < .3:
            for _ in range(r.randint(0, 3)):
                self.setax(d)
        if g.n and (not g.has or r.random() < .7):
            self.redom(d)

    def redom(self, d):
        g = self.S[d]
        self.ev("redom %d" % d, op="redom", d=d)
        g.has, g.dom = True, dict(g.ext)

    def setax(self, d):
        r = self.r
        g = self.S[d]
        a = r.choice(AX)
        u = r.random()
        if u < .55:
            c, h = r.choice(self.rows)
            if r.random() < .25:
                c, h = self.row()
                if r.random() < .5:
                    self.rows.append((c, h))
            if u < .15 and c[0] * 2 - h[0] != c[-1] * 2 + h[0]:
                h = [h[0]] * len(c)
                self.ev("setu %d %d %d %s %d" % (d, a, len(c), " ".join(map(str, c)), h[0]), op="set", d=d, a=a, c=c, h=h)
            else:
                self.ev("set %d %d %d %s %d %s" % (d, a, len(c), " ".join(map(str, c)), len(h), " ".join(map(str, h))), op="set", d=d, a=a, c=c, h=h)
            ext = tuple(sorted((c[0] - h[0] / 2, c[-1] + h[-1] / 2)))
            n = len(c)
        elif u < .9:
            n = r.choice([1, 2, 2, 3, 4, 6, 12])
            x = r.randint(-6, 6)
            y = x + n * r.choice([1, 1, 2, 12])
            h = r.choice([-1, -1, -1, 1, 2, 3])
            self.ev("reg %d %d %d %d %d %d" % (d, a, x, y, n, h), op="reg", d=d, a=a, x=x, y=y, n=n, h=h)
            st = (y - x) // n
            hh = st if h < 0 else h
            ext = (x + st / 2 - hh / 2, y - st / 2 + hh / 2)
        else:
            n = r.choice([2, 3, 4, 6])
            self.ev("enum %d %d %d" % (d, a, n), op="enum", d=d, a=a, n=n)
            ext = (0, n - 1)
        g.n[a], g.ext[a] = n, ext
        if ext[0] == ext[1]:      # an interval of no length is not asked for
            self.setreg(d, a)

    def setreg(self, d, a):
        self.ev("reg %d %d 0 4 4 -1" % (d, a), op="reg", d=d, a=a, x=0, y=4, n=4, h=-1)
        self.S[d].n[a], self.S[d].ext[a] = 4, (0, 4)

    def sup(self, d, a, b):
        self.ev("sup %d %d %d" % (d, a, b), op="sup", d=d, a=a, b=b)
        A, B = self.S[a], self.S[b]
        if not A.has:
            x = B.copy()
        elif not B.has:
            x = A.copy()
        elif any(A.n[k] != B.n[k] or A.dom.get(k, (0, 0)) != B.dom.get(k, (0, 0)) for k in A.n if k in B.n):
            x = None
        elif set(B.n) <= set(A.n):
            x = A.copy()
        elif set(A.n) <= set(B.n):
            x = B.copy()
        else:
            x = A.copy()
            x.n, x.ext, x.gen = {**B.n, **A.n}, {**B.ext, **A.ext}, max(A.gen, B.gen)
            x.dom = dict(x.ext)
        self.S[d] = x

    def resample(self, d, a):
        r = self.r
        g = self.S[a].copy()
        ops, bad, ch = [], False, 0
        for k in sorted(g.n):
            n = g.n[k]
            u = r.random()
            dv = [x for x in range(1, n + 1) if n % x == 0]
            if u < .35:
                ops.append([k, "none", 0])
            elif u < .55:
                x = r.choice(dv)
                ops.append([k, "int", x])
                g.n[k] = n // x
                ch = 1
            elif u < .75 and n <= 12:
                x = r.choice([1, 2, 4])
                ops.append([k, "up", x])
                g.n[k] = n * x
                ch = 1
            elif n <= 12:
                if r.random() < .12:
                    x = r.choice([n + 1, n + 3, max(1, n - 1)])
                    if x % n and n % x:
                        bad = True
                        ops.append([k, "n", x])
                    continue
                x = r.choice([q for q in dv] + [n * 2, n * 4])
                ops.append([k, "n", x])
                g.n[k] = x
                ch = 1
        self.ev("ops %d %d %d %s" % (d, a, len(ops), " ".join("%d %s %d" % tuple(x) for x in ops)), op="ops", d=d, a=a, ops=ops)
        g.gen += ch
        if not bad:
            self.S[d] = g

    def step(self):
        r = self.r
        d = r.randrange(4)
        L = self.live()
        u = r.random()
        if not L or u < .14:
            return self.new(d)
        a, b = r.choice(L), r.choice(L)
        if u < .28:
            if self.S[d] is None or len(self.S[d].n) > 4:
                return self.new(d)
            self.setax(d)
            if r.random() < .75:
                self.redom(d)
        elif u < .40:
            how, x = r.choice([("clone", " 0"), ("clone", " 1"), ("ref", ""), ("rec", ""), ("send", "")])
            if how == "rec" and not self.S[a].has or how == "send" and not self.S[a].has:
                return
            if not self.whole(a):
                return
            self.ev("%s %d %d%s" % (how, d, a, x), op=how, d=d, a=a)
            self.S[d] = self.S[a].copy()
        elif u < .57:
            if self.whole(a) and self.whole(b):
                self.sup(d, a, b)
        elif u < .70:
            if self.S[a].gen < 3 and self.S[a].has:
                self.resample(d, a)
        elif u < .73:
            c = [k for k in L for m in L if self.S[k].has and self.S[m].has and self.S[k].dom == self.S[m].dom and set(self.S[k].n) == set(self.S[m].n)]
            for k in c[:1]:
                m = r.choice([m for m in L if self.S[m].has and self.S[k].dom == self.S[m].dom and set(self.S[k].n) == set(self.S[m].n)])
                q = r.choice([-1, 1])
                self.ev("two %d %d %d %d" % (d, k, m, q), op="two", d=d, a=k, b=m, r=q)
                A, B = self.S[k], self.S[m]
                x = A.copy()
                x.gen = max(A.gen, B.gen)
                x.ext = {}
                for ax in A.n:
                    w = B if (A.n[ax] > B.n[ax]) != (q > 0) else A
                    x.n[ax], x.ext[ax] = w.n[ax], w.ext[ax]
                self.S[d] = x
        elif u < .80:
            self.ev("cmp %d %d" % (a, b), op="cmp", d=0, a=a, b=b)
        elif u < .84:
            k = [k for k in L if self.S[k].has and self.S[k].n and self.whole(k)]
            if k:
                k = r.choice(k)
                how = r.choice(["nodom", "axis", "size", "nosize", "noseg", "seg"])
                self.ev("bad %d %d %s" % (d, k, how), op="bad", d=d, a=k)
        elif u < .9:
            x, y = self.pick(), self.pick()
            self.ev("dom %s %s" % (self.dtx(x), self.dtx(y)), op="dom", d=0, x=x, y=y)
        elif u < .94:
            if self.S[a].n:
                k = r.choice(sorted(self.S[a].n))
                self.ev("seg %d %d" % (a, k), op="seg", d=a)
        else:
            self.ev("show %d" % a, op="show", d=a)

    def pick(self):
        r = self.r
        d = r.choice(self.doms) if r.random() < .6 else self.domain()
        if d and r.random() < .3:
            d = [list(x) for x in d]
            x = r.choice(d)
            x[2] += r.choice([-1, 1])
            if x[1] == x[2]:
                x[2] += 1
        return d


def history(r):
    h = H(r)
    h.s.add("reset", dict(e="reset"))
    for _ in range(r.randint(4, 16)):
        h.step()
    for k in h.live():
        h.ev("show %d" % k, op="show", d=k)
    return h.s


def run(c):
    c.build("h_cell")
    q = c.quick
    r = random.Random("%s-%d" % (c.pid, c.seed))
    sc = [history(r) for _ in range(6000 if q else 80000)]
    while sc and not c.viol:
        c.conform("histories of grids: made, combined, resampled, compared, copied, sent as records", "h_cell", "TraceCells", CFG, sc[:6000])
        sc = sc[6000:]
    c.mc("MCCells", "SPECIFICATION Spec\nCONSTANTS LEN=%d FULL=%s\nINVARIANTS Segmented SplitMerge Compared Joined Enveloped\nCHECK_DEADLOCK FALSE\n" % ((4, "FALSE") if q else (6, "TRUE")), timeout=1500)
