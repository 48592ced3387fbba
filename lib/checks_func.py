"""C21-C24: sampled functions, function nodes, reductions and tensor nodes (spec/Grid.tla, FuncNodes.tla)."""
import random
from vlib import Script

CFG = "SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n"


def prod(q):
    n = 1
    for x in q:
        n *= x
    return n


class FT:
    def __init__(self, r):
        self.r = r
        self.s = Script()
        self.s.add("reset", dict(e="reset"))
        self.g = r.choice([[2], [3], [4], [2, 2], [2, 3], [3, 2], [1, 3], [2, 1, 2], [2, 2, 2], [2, 1, 1, 3]])

    def shape(self, g=None, full=None):
        r = self.r
        g = self.g if g is None else g
        u = r.random()
        if full or u < .4:
            return list(g)
        if u < .55:
            return [1]
        sh = [x if r.random() < .55 else 1 for x in g]
        while len(sh) > 1 and sh[-1] == 1 and r.random() < .6:
            sh.pop()
        return sh

    def vells(self, t="r", g=None, vals=None, sh=None):
        r = self.r
        sh = sh or self.shape(g)
        n = prod(sh)
        vals = vals or ([0, 1, 2, 4, 1, 0, 0] if t == "f" else [-3, -2, -1, 0, 1, 2, 3])
        if t != "f" and r.random() < .1:
            vals = r.choice([[0], [1], [-1], [-1, -2, -3]])
        v = [r.choice(vals) for _ in range(n)]
        d = dict(t=t, sh=sh, v=v)
        if t == "c":
            d["w"] = [r.choice([-2, -1, 0, 0, 1, 2]) for _ in range(n)]
        return d

    @staticmethod
    def tx(d):
        if d["t"] == "c":
            v = " ".join("%d %d" % x for x in zip(d["v"], d["w"]))
        else:
            v = " ".join(map(str, d["v"]))
        return "%s %d %s %s" % (d["t"], len(d["sh"]), " ".join(map(str, d["sh"])), v)


def iv(q):
    return "%d %s" % (len(q), " ".join(map(str, q))) if q else "0"


# ---------------------------------------------------------------- arithmetic
BIN = ["+", "-", "*", "/", "+=", "-=", "*=", "/=", ".+=", ".-=", ".*=", "./="]
FBIN = ["|", "&", "^", "|=", "&=", "^=", ".|=", ".&=", ".^="]
UN = ["neg", "conj", "real", "imag", "abs", "fabs", "sqr", "pow2", "pow3", "pow4", "pow5"]


def join(*shs):
    n = max(map(len, shs))
    g = []
    for k in range(n):
        g.append(max([s[k] for s in shs if k < len(s)]))
    return g


def fits(*shs):
    g = join(*shs)
    return all(x in (1, g[k]) for s in shs for k, x in enumerate(s))


def arith1(t):
    r = t.r
    u = r.random()
    none = dict(t="r", sh=[1], v=[0])
    fa, fb, x, o = [], [], [], ""
    kind = 1
    b = none
    fit = True
    ct = lambda: "c" if r.random() < .3 else "r"
    if u < .38:
        op = r.choice(BIN)
        a = t.vells(ct())
        k = r.random()
        if k < .1:
            kind, b = 3, a
        else:
            kind = 2
            b = t.vells(ct())
            if k > .95 and not (max(a["v"]) == min(a["v"]) or max(b["v"]) == min(b["v"])):   # shapes that do not go together
                b = t.vells(b["t"], g=[y + r.choice([0, 1, 1]) for y in t.g])
                fit = fits(a["sh"], b["sh"])
    elif u < .52:
        op = r.choice(FBIN)
        a, b, kind = t.vells("f", vals=[0, 1, 2, 3, 5]), t.vells("f", vals=[0, 1, 2, 3, 6]), 2
        if r.random() < .1:
            b, kind = a, 3
    elif u < .57:
        op, o = "scalar", r.choice(["|", "&", "^", "|=", "&=", "^="])
        a, x = t.vells("f", vals=[0, 1, 2, 3, 5]), [r.choice([0, 1, 2, 6])]
    elif u < .59:
        op, a = "not", t.vells("f", vals=[0, 1, 2, 3, 5])
    elif u < .68:
        op = r.choice(UN)
        a = t.vells(ct())
    elif u < .70:
        op, a, b, kind = "tocomplex", t.vells(), t.vells(), 2
    elif u < .72:
        op, a = "where", t.vells()
        x = [r.choice([-1, 0, 1]), r.choice([0, 1, 4]), r.choice([0, 2])]
    elif u < .77:
        op, a, kind = "replace", t.vells(ct()), 2
        b = t.vells("f", g=a["sh"])
        x = [r.choice([0, 7]), r.choice([255, 255, 1, 6])]
    elif u < .81:
        op, a, b, kind = "merge", t.vells("f"), t.vells("f"), 2
        x = [r.choice([255, 1, 2, 4, 0])]
    elif u < .87:
        op = r.choice(["min2", "max2"])
        a, b, kind = t.vells(), t.vells(), 2
        if r.random() < .7:
            fa = [t.vells("f")]
        if r.random() < .7:
            fb = [t.vells("f")]
        x = [r.choice([255, 1, 3, 4]), r.choice([255, 1, 3, 4])]
    else:
        op = r.choice(["min", "max", "mean", "sum", "product", "nelements"])
        a = t.vells(ct() if op in ("mean", "sum", "product", "nelements") else "r")
        if r.random() < .65:
            fa = [t.vells("f")]
        x = [r.choice([255, 255, 1, 2, 6, 0])]
    g = join(t.g, a["sh"], b["sh"])
    fl = lambda f: "+ " + t.tx(f[0]) if f else "-"
    line = "op %s %s %s" % (op, t.tx(a), fl(fa))
    if kind == 2:
        line += " 2 %s %s" % (t.tx(b), fl(fb))
    elif kind == 3:
        line += " ="
        fb = fa
    else:
        line += " 1"
    m = lambda k: -1 if k == 255 else k
    if op == "scalar":
        line += " %s %d" % (o, x[0])
    elif op == "where":
        line += " %d %d %d" % tuple(x)
    elif op in ("replace", "min2", "max2"):
        line += " %d %d" % ((x[0], m(x[1])) if op == "replace" else (m(x[0]), m(x[1])))
    elif op in ("merge", "min", "max", "mean"):
        line += " %d" % m(x[0])
    elif op in ("sum", "product", "nelements"):
        line += " %d %s" % (m(x[0]), iv(g))
    t.s.add(line, dict(e="op", op=op, o=o, a=a, b=b, fa=fa, fb=fb, x=x, g=g, fit=fit))


def arith(r):
    """operations on sampled functions"""
    t = FT(r)
    for _ in range(r.randint(1, 6)):
        arith1(t)
    return t.s


# ---------------------------------------------------------------- trees
class Tree:
    def __init__(self, t, perts=.35, bad=.12, cplx=.3):
        self.t, self.r = t, t.r
        self.nodes, self.tx, self.info = [], [], []      # info: (real?, dims or None)
        self.perts, self.bad, self.cplx = perts, bad, cplx
        self.nset = t.r.choice([1, 1, 2])

    def plane(self, real, full=False):
        r, t = self.r, self.t
        u = r.random()
        if u < self.bad * .5:
            f = sorted(r.sample(range(1, 8), r.choice([1, 1, 2])))
            return "f " + iv(f), dict(k="fail", f=f)
        if u < self.bad:
            return "e", dict(k="empty")
        tt = "r" if real else r.choice("rc")
        v = t.vells(tt, sh=list(t.g) if full else None)
        d = dict(k="val", v=v, sp=[], p=[], pv=[])
        s = "v " + t.tx(v)
        if r.random() < .4:
            d["fl"] = t.vells("f")
            s += " + " + t.tx(d["fl"])
        else:
            s += " -"
        np = 0
        if r.random() < self.perts:
            np = self.nset if r.random() < .85 else 3 - self.nset
            d["sp"] = sorted(r.sample([1, 2, 3, 5], r.choice([1, 1, 2, 3])))
            d["p"] = [[s_ + 10 * k + (r.random() < .03) for k in range(np)] for s_ in d["sp"]]
            d["pv"] = [[t.vells(tt, sh=list(t.g) if full else None) for _ in range(np)] for _ in d["sp"]]
        s += " " + iv(d["sp"]) + " %d" % np
        for a, b in zip(d["p"], d["pv"]):
            for x, y in zip(a, b):
                s += " %d %s" % (x, t.tx(y))
        return s, d

    def source(self, dims=None, real=None, full=False):
        r = self.r
        if real is None:
            real = r.random() > self.cplx
        if dims is None:
            dims = r.choice([[], [], [], [2], [3], [2, 2], [2, 3], [3, 2], [1, 2], [2, 2, 2]])
        ps = [self.plane(real, full) for _ in range(prod(dims))]
        code = "F" if all(d["k"] == "fail" for _, d in ps) else "M" if all(d["k"] == "empty" for _, d in ps) else "0"
        if code != "0" and r.random() < .3:
            code = "0"
        self.tx.append("S %s %s %d %s" % (code, iv(dims), len(ps), " ".join(s for s, _ in ps)))
        self.nodes.append(dict(c="S", code=code, dims=dims, vs=[d for _, d in ps]))
        self.info.append((real, dims))
        return len(self.nodes)

    def masks(self, n):
        r = self.r
        u = r.random()
        if u < .5:
            return [], [255] * n
        if u < .6:
            return ["fm=-1"], [255] * n
        if u < .8 or n == 1:
            m = r.choice([1, 2, 3, 4, 6, 0])
            return ["fm=%d" % m], [m] * n
        ms = [r.choice([1, 2, 3, 4, 7]) for _ in range(n)]
        return ["fm=" + ",".join(map(str, ms))], ms

    def fn(self, c, ch, opts=(), cls=None, real=True, dims=None, **kw):
        o, fm = self.masks(len(ch)) if c not in ("Composer", "Selector", "Paster", "Transpose", "Identity", "Stripper", "ZeroFlagger") else ([], [])
        o = list(o) + list(opts)
        self.tx.append("Meq%s %d %s %s" % (cls or c, len(o), " ".join(o), iv(ch)))
        self.nodes.append(dict(dict(c=c, ch=ch, fm=fm, axes=[]), **kw))
        self.info.append((real, dims))
        return len(self.nodes)

    def some(self, n, real=False):
        """children; mostly ones whose dimensions agree"""
        r = self.r
        ok = [k + 1 for k, (re, d) in enumerate(self.info) if (re or not real) and (d is not None or r.random() < .5)]
        if not ok:
            ok = [self.source(dims=[], real=True)]
        first = r.choice(ok)
        ch = [first]
        while len(ch) < n:
            d = self.info[first - 1][1]
            if d and r.random() < .06:      # as many planes, but other dimensions
                o = [x for x in ([2], [1, 2], [2, 1], [3], [1, 3], [4], [2, 2], [2, 3], [3, 2], [6]) if prod(x) == prod(d) and x != d]
                if o:
                    ch.append(self.source(dims=r.choice(o), real=True if real else None))
                    continue
            same = [k for k in ok if self.info[k - 1][1] in (d, [])]
            ch.append(r.choice(same if r.random() < .95 else ok))
        r.shuffle(ch)
        return ch

    def dims(self, ch):
        d = None
        for k in ch:
            x = self.info[k - 1][1]
            if x is None:
                return None
            if x:
                if d and d != x:
                    return None
                d = x
        return d or []

    def real(self, ch):
        return all(self.info[k - 1][0] for k in ch)

    def pointwise(self):
        r = self.r
        c = r.choice(["Add", "Add", "Add", "Multiply", "Multiply", "Subtract", "Subtract", "Divide", "Negate", "Conj", "Real", "Imag", "Abs", "Sqr", "Pow2",
                      "ToComplex", "Min", "Max", "Mean", "WSum", "WMean", "Replace", "Identity", "Stripper", "ZeroFlagger", "MergeFlags", "MergeFlags"])
        n = {"Add": r.randint(1, 4), "Multiply": r.randint(1, 3), "Subtract": r.choice([2, 2, 3]), "Divide": 2, "ToComplex": 2, "Min": r.randint(2, 3), "Max": r.randint(2, 3),
             "Mean": r.randint(2, 3), "WSum": r.randint(2, 3), "WMean": r.randint(2, 3), "Replace": r.choice([2, 2, 3]), "MergeFlags": r.choice([1, 2, 2, 3])}.get(c, 1)
        ch = self.some(n, real=c in ("ToComplex", "Min", "Max", "ZeroFlagger"))
        if c in ("ToComplex", "ZeroFlagger", "Min", "Max") and not self.real(ch):
            return
        re = self.real(ch) if c not in ("Real", "Imag", "Abs", "ToComplex") else c != "ToComplex"
        d = self.dims(ch)
        if c in ("WSum", "WMean"):
            w = [r.choice([-2, 1, 2, 3])] if r.random() < .3 else [r.choice([-2, -1, 1, 2, 3, 0]) for _ in ch]
            if not any(w):
                w = [1] * len(ch)
            self.fn(c, ch, ["w=" + ",".join(map(str, w))], real=re, dims=d, w=w)
        elif c == "Replace":    # flags may not vary along axes along which the values do not
            v = r.choice([0, 7])
            ch[0] = self.source(dims=self.info[ch[0] - 1][1], full=True)
            re = self.real(ch)
            self.fn(c, ch, ["value=%d" % v], cls="ReplaceFlaggedValues", real=re, dims=d, value=v)
        elif c == "ZeroFlagger":
            op, bit = r.choice(["EQ", "NE", "LT", "GT", "LE", "GE"]), r.choice([1, 2, 8])
            self.fn(c, ch, ["oper=" + op, "bit=%d" % bit, "force=1"], real=re, dims=d, oper=op, bit=bit)
        elif c == "MergeFlags":
            al = r.random() < .3
            self.fn(c, ch, ["all=%d" % al], real=re, dims=self.info[ch[0] - 1][1], all=bool(al))
        else:
            self.fn(c, ch, real=re, dims=d)

    def reduce(self):
        r = self.r
        c = r.choice(["Sum", "Sum", "Product", "NElements", "Mean", "Mean", "Min", "Max", "Rms", "StdDev"])
        ch = self.some(1, real=c in ("Min", "Max", "Rms", "StdDev"))
        if c in ("Min", "Max", "Rms", "StdDev") and not self.real(ch):
            return
        ax = []
        if r.random() < .5:
            ax = sorted(r.sample(range(len(self.t.g)), r.randint(1, len(self.t.g))))
        self.fn(c, ch, ["axes=" + ",".join(map(str, ax))] if ax else [], real=self.real(ch), dims=self.dims(ch), axes=ax)

    def index(self, d):
        r = self.r
        if r.random() < .25 or not d:
            n = r.randint(1, 3)
            N = prod(d or [])
            ix = [r.choice(list(range(N)) * 4 + [-1, N]) for _ in range(n)]
            return ix, n > 1
        ix = [r.choice(list(range(x)) + [-1, -1]) for x in d]
        if r.random() < .05:
            ix[r.randrange(len(ix))] = 3
        if r.random() < .04:
            ix = ix[1:]
        return ix, False

    def tensor(self):
        r = self.r
        c = r.choice(["Selector", "Selector", "Paster", "Transpose", "Composer", "Composer", "MatrixMultiply", "MatrixMultiply"])
        if c == "Selector":
            ch = self.some(1)
            ix, m = self.index(self.info[ch[0] - 1][1])
            if not ix and self.nodes[ch[0] - 1]["c"] == "S" and self.nodes[ch[0] - 1]["code"] != "0":
                ix = [0]
            d = None
            if m or len(ix) == 1:
                d = [len(ix)] if len(ix) > 1 else []
            elif self.info[ch[0] - 1][1] and len(ix) == len(self.info[ch[0] - 1][1]):
                dd = self.info[ch[0] - 1][1]
                q = [dd[k] if x < 0 else 1 for k, x in enumerate(ix)]
                while q and ix[len(q) - 1] >= 0:
                    q.pop()
                d = q
            self.fn(c, ch, ["index=" + ",".join(map(str, ix)), "multi=%d" % m] if ix else ["multi=%d" % m], real=self.real(ch), dims=d, index=ix, multi=m)
        elif c == "Paster":
            ch = self.some(1)
            dd = self.info[ch[0] - 1][1] or []
            ix, m = self.index(dd)
            if m or len(ix) == 1:
                q = [len(ix)] if len(ix) > 1 else []
            else:
                q = [dd[k] if x < 0 else 1 for k, x in enumerate(ix)] if len(ix) == len(dd) else []
                while q and ix[len(q) - 1] >= 0:
                    q.pop()
            ch = ch + [self.source(dims=q)]
            self.fn(c, ch, ["index=" + ",".join(map(str, ix)), "multi=%d" % m] if ix else ["multi=%d" % m], real=self.real(ch), dims=dd, index=ix, multi=m)
        elif c == "Transpose":
            ch = self.some(1)
            cj, te = r.random() < .4, r.random() < .3
            d = self.info[ch[0] - 1][1]
            if d is not None and len(d) > 1 and not (te and len(d) == 2 and d[1] == 1):
                d = [d[1]] if len(d) == 2 and d[0] == 1 else d[:-2] + [d[-1], d[-2]]
            elif d is not None and len(d) == 1 and not te:
                d = [1] + d
            self.fn(c, ch, ["conj=%d" % cj, "tensor=%d" % te], real=self.real(ch), dims=d, conj=cj, tensor=te)
        elif c == "Composer":
            n = r.randint(1, 4)
            te = r.random() < .4
            ch = self.some(n)
            N = sum(prod(self.info[k - 1][1] or []) for k in ch)
            known = all(self.info[k - 1][1] is not None for k in ch)
            dims = []
            if te:
                dims = [0]
            elif all(self.nodes[k - 1]["c"] == "S" and self.nodes[k - 1]["code"] == "0" for k in ch) and N in (4, 6) and r.random() < .5:
                dims = {4: [2, 2], 6: r.choice([[2, 3], [3, 2]])}[N]
            out = dims if dims and not te else None
            if not dims and known:
                out = [N] if N > 1 else []
            if te and known:
                ds = [x for x in (self.info[k - 1][1] for k in ch) if prod(x) > 1]
                out = [n] + (ds[0] if ds else [])
            self.fn(c, ch, ["dims=" + ",".join(map(str, dims))] if dims else [], real=self.real(ch), dims=out, dims_=0)
            self.nodes[-1]["dims"] = dims
            del self.nodes[-1]["dims_"]
        else:
            def src(d):
                k = [i + 1 for i, x in enumerate(self.info) if x[1] == d]
                return r.choice(k) if k and r.random() < .5 else self.source(dims=d)
            n, m, p = [r.choice([1, 2, 2, 3]) for _ in range(3)]
            u = r.random()
            if u < .2:
                ch = [src([]), src([2, 2])]
            elif u < .35:
                ch = [src([2, 2]), src([])]
            elif u < .45:
                ch = [src([2, 2]), src([2, 2]), src(r.choice([[2, 2], [2], []]))]
            elif u < .5:
                ch = self.some(2)
            else:
                ch = [src([n, m]), src([m, p] if r.random() < .7 else [m])]
            if any(self.info[k - 1][1] is None or 1 in self.info[k - 1][1] for k in ch) and r.random() < .8:
                ch = [src([2, 2]), src([2, 2])]
            self.fn(c, ch, real=self.real(ch), dims=None)

    def done(self):
        t = self.t
        t.s.add("eval %s %d %s" % (iv(t.g), len(self.nodes), " ".join(self.tx)), dict(e="tree", g=t.g, nodes=self.nodes))


def null_ok(tr):
    """a matrix product by a null scalar is a null scalar: not looked at"""
    for n in tr.nodes:
        if n["c"] == "MatrixMultiply":
            d = [tr.info[k - 1][1] for k in n["ch"]]
            if len(d) > 2 and d[0] and d[1] and len(d[0]) < 3 and len(d[1]) < 3 and (d[0][0] if len(d[0]) == 2 else prod(d[0])) == 1 and (d[1][1:] or [1]) == [1]:
                return False    # the first two make a scalar
            for k in n["ch"]:
                if tr.info[k - 1][1] is not None and prod(tr.info[k - 1][1]) != 1:
                    continue
                m = tr.nodes[k - 1]
                if m["c"] != "S":
                    return False
                v = m["vs"][0]
                if v["k"] == "val" and not any(v["v"]["v"]) and not any(v["v"].get("w", [])):
                    return False
    return True


def build(r, parts, **kw):
    while True:
        t = FT(r)
        for _ in range(r.randint(1, 2)):
            tr = Tree(t, **kw)
            if r.random() < .6:
                d = r.choice([[], [2], [2, 2]])
                for _ in range(r.randint(1, 3)):
                    tr.source(dims=r.choice([d, []]))
            else:
                for _ in range(r.randint(1, 3)):
                    tr.source()
            for _ in range(r.randint(1, 4)):
                getattr(tr, r.choice(parts))()
            if null_ok(tr):
                tr.done()
        if len(t.s.events) > 1:
            return t.s


def trees(r):
    """trees of function nodes: planes, missing values, failures, flags, perturbed values"""
    return build(r, ["pointwise"])


def reductions(r):
    """trees with reductions, over the whole grid or along axes"""
    return build(r, ["pointwise", "reduce", "reduce"], bad=.05, perts=.15)


def tensors(r):
    """trees with tensor nodes"""
    return build(r, ["pointwise", "tensor", "tensor", "tensor"], perts=.2, bad=.08)


def go(c, gen, n, label, **kw):
    r = random.Random("%s-%s-%d" % (c.pid, gen.__name__, c.seed))
    while n > 0 and not c.viol:
        k = min(n, 4000)
        c.conform(label, "h_func", "TraceFunc", CFG, [gen(r) for _ in range(k)], **kw)
        n -= k


def mod(c, what, inv):
    c.mc("MCGrid", "SPECIFICATION Spec\nCONSTANTS N=%d REWIND=TRUE WHAT=\"%s\"\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (3 if c.quick else 4, what, inv), timeout=1500)


def run(c):
    c.build("h_func")
    q = c.quick
    if c.pid == "C21":
        go(c, arith, 8000 if q else 120000, "arithmetic on sampled functions of all shapes")
        mod(c, "walks", "Placed Covered Chosen")
    elif c.pid == "C22":
        go(c, trees, 9000 if q else 100000, "trees of function nodes over planes, missing values, failures, flags and perturbed values")
        mod(c, "laws", "Reduces Tensored")
    elif c.pid == "C23":
        go(c, reductions, 8000 if q else 100000, "trees of reducing nodes, along all axes and along some")
        mod(c, "laws", "Reduces")
        mod(c, "walks", "Placed Covered")
    else:
        go(c, tensors, 9000 if q else 100000, "trees of composing, selecting, pasting, transposing, multiplying and flag-merging nodes")
        mod(c, "laws", "Tensored")
        mod(c, "walks", "Chosen")
