"""C15..C18: the data layer (identifiers, references, containers, blocks)."""
import itertools, random
from vlib import Script


# ------------------------------------------------------------------ C15 identifiers
def hiid_mat(alpha, maxlen, extra=()):
    ids = [list(t) for n in range(maxlen + 1) for t in itertools.product(alpha, repeat=n)] + [list(x) for x in extra]
    s = Script("matrix")
    s.add("hmat %d %s" % (len(ids), " ".join("%d %s" % (len(x), " ".join(map(str, x))) for x in ids)),
          dict(e="mat", ids=ids, maxlen=maxlen, letters=[a for a in alpha if a not in (-1, -2)] + [-15]))
    return s


def hiid_script(r):
    lits = r.random() < .25
    s = Script("ops")
    s.add("names", None)
    s.add("hset 0 0", dict(e="reset"))
    for k in range(1, 6):
        s.add("hset %d 0" % k, None)
    atoms = [0, 1, 2, 7, 12, -1, -2, -3, -3, -4, -10, -11, -12, -13, -14, -15, -6]
    if r.random() < .3:
        atoms.append(-5)
    if lits:
        atoms += [-100, -101, -102, -103, -105, -109]

    def rid(n=None):
        return [r.choice(atoms) for _ in range(r.randint(0, 7) if n is None else n)]
    ops = ["hset"] * 4 + ["hcp", "hadd", "hadd", "hor", "hsplit", "hsplit", "hparse", "hparse", "hparse", "hstr", "hstr", "hpack", "hrange"]
    if not lits:
        ops += ["hadd1", "hpushf", "hpushf", "hpopf", "hsub", "hsub", "hsub", "hlead", "htrail", "hslash", "hfind"]
    for _ in range(r.randint(15, 40)):
        o = r.choice(ops)
        a, b, c = r.randrange(6), r.randrange(6), r.randrange(6)
        if r.random() < .5:
            a = r.randrange(2)
        if o == "hset":
            v = rid(r.choice([14, 15, 16, 17, 18, 33]) if r.random() < .1 else None)
            s.add("hset %d %d %s" % (a, len(v), " ".join(map(str, v))), dict(e="op", op=o, r=a, v=v))
        elif o in ("hcp", "hadd", "hsplit", "hpack", "hrange"):
            if o == "hadd" and a == b:
                b = (b + 1) % 6
            s.add("%s %d %d" % (o, a, b), dict(e="op", op=o, r=a, q=b))
        elif o == "hor":
            s.add("hor %d %d %d" % (a, b, c), dict(e="op", op=o, r=a, q=b, p=c))
        elif o == "hadd1":
            x = r.choice(atoms)
            s.add("hadd1 %d %d" % (a, x), dict(e="op", op=o, r=a, a=x))
        elif o == "hpushf":
            x, n = r.choice(atoms), r.randint(0, 3)
            s.add("hpushf %d %d %d" % (a, x, n), dict(e="op", op=o, r=a, a=x, n=n))
        elif o == "hpopf":
            n = r.randint(0, 4)
            s.add("hpopf %d %d" % (a, n), dict(e="op", op=o, r=a, n=n))
        elif o == "hsub":
            x, y = r.randint(0, 40), r.randint(0, 40)
            s.add("hsub %d %d %d %d" % (a, b, x, y), dict(e="op", op=o, r=a, q=b))
        elif o in ("hlead", "htrail", "hslash", "hfind"):
            s.add("%s %d" % (o, a), dict(e="op", op=o, r=a))
        elif o == "hparse":
            v, last = [], True
            for _ in range(r.randint(1, 9)):
                if not last or r.random() < .15:
                    v.append(r.choice([-1000, -1000, -1000, -3, -4]))
                    last = True
                else:
                    v.append(r.choice([t for t in atoms if t not in (-3, -4, -5)]))
                    last = False
            al = r.random() < .4
            sep = r.random() < .5
            s.add("hparse %d %d %d %d %s" % (a, al, sep, len(v), " ".join(map(str, v))), dict(e="op", op=o, r=a, v=v))
        elif o == "hstr":
            us = r.random() < .5
            s.add("hstr %d %d %d" % (a, b, us), dict(e="op", op=o, r=a, q=b, dot="_" if us else "."))
    return s


def prep_names(ev):
    return ev


def run_hiid(c):
    c.mc("MCHiid", "SPECIFICATION Spec\nCONSTANTS MAXLEN = %d\nINVARIANTS Sound ReadBack Rejoin SubIds\n"
         "CHECK_DEADLOCK FALSE\n" % 3 if c.quick else
         "SPECIFICATION Spec\nCONSTANTS MAXLEN = 3\nINVARIANTS Sound ReadBack Rejoin SubIds\nCHECK_DEADLOCK FALSE\n",
         timeout=600, need_complete=c.quick)
    r = random.Random("C15-%d" % c.seed)
    mats = [hiid_mat([-10, -11, -1, -2], 3), hiid_mat([4, -3, -1, -2], 3), hiid_mat([0, -10, -2], 4)]
    if not c.quick:
        mats += [hiid_mat([-10, -11, -1, -2], 4), hiid_mat([1, -10, -3, -1, -2], 3)]
    sc = mats + [hiid_script(r) for _ in range(6000 if c.quick else 40000)]
    while sc:
        for s in sc[:4000]:
            for e in s.events:
                if e and e.get("op") == "hstr":
                    e["names"] = ["a", "b", "c", "d", "e", "longxname"]
        c.conform("identifiers: all pairs and histories of operations", "h_dmi", "TraceHiid",
                  "SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n", sc[:4000])
        sc = sc[4000:]
        if c.viol:
            break


# ------------------------------------------------------------------ C16 counted references
def cow_script(r, n):
    s = Script("cow")
    s.add("treset", dict(e="reset"))

    def fl(cands):
        f = [x for x, p in cands if r.random() < p]
        return f
    ops = ["tnew"] * 3 + ["text", "tcext", "tatt", "tcopy", "tcopy", "tcopy", "txfer", "txfer", "tassign", "tdet",
                          "tw", "tw", "tw", "tchg", "tpriv"] + ["tsetc"] * 4 + ["tclrc", "tgetc", "tgetc", "twc", "twc"]
    if r.random() < .5:
        ops += ["tlock", "tunlock"]
    share = r.random() < .4
    deep = r.random() < .5
    val = 0
    for _ in range(n):
        o = r.choice(ops)
        a = r.randrange(4)
        q = r.choice([x for x in range(4) if x != a]) if o in ("tgetc", "tsetc") or r.random() < .9 else a
        d = r.choice([0, 0, 0, 1, 2]) if deep else 0
        loc = [("S", .2 if share else 0), ("C", .2 if share else 0), ("L", .05 if "tlock" in ops else 0)]
        ev = dict(e="op", op=o, r=a)
        if o == "tnew":
            val += 1
            f = fl(loc + [("R", .15)])
            s.add("tnew %d %d %s" % (a, val, "".join(f) or "-"), dict(ev, v=val, f=f))
        elif o in ("text", "tcext"):
            k = r.randrange(3)
            f = [r.choice("EA")] + fl(loc + [("R", .3 if o == "text" else 0), ("D", .2 if deep else 0), ("W", .1 if o == "tcext" else 0)])
            s.add("%s %d %d %s" % (o, a, k, "".join(f)), dict(ev, k=k, f=f))
        elif o == "tatt":
            f = fl(loc + [("R", .3)])
            s.add("tatt %d %d %s" % (a, q, "".join(f) or "-"), dict(ev, q=q, f=f))
        elif o in ("tcopy", "txfer"):
            f = fl(loc + [("D", .25 if deep else 0)])
            s.add("%s %d %d %s %d" % (o, a, q, "".join(f) or "-", d), dict(ev, q=q, f=f, d=d))
        elif o == "tassign":
            s.add("tassign %d %d" % (a, q), dict(ev, q=q))
        elif o in ("tw", "twc"):
            val += 1
            s.add("%s %d %d" % (o, a, val), dict(ev, v=val))
        elif o == "tchg":
            f = fl(loc + [("R", .4)])
            s.add("tchg %d %s" % (a, "".join(f) or "-"), dict(ev, f=f))
        elif o == "tpriv":
            f = fl(loc + [("D", .25 if deep else 0)])
            s.add("tpriv %d %s %d" % (a, "".join(f) or "-", d), dict(ev, f=f, d=d))
        elif o == "tsetc":
            f = fl([x for x in loc if x[0] != "L"])
            s.add("tsetc %d %d %s" % (a, q, "".join(f) or "-"), dict(ev, q=q, f=f))
        elif o == "tgetc":
            s.add("tgetc %d %d" % (a, q), dict(ev, q=q))
        else:
            s.add("%s %d" % (o, a), ev)
    return s


COWCFG = "SPECIFICATION Spec\nCONSTANTS NREG = %d\nNOBJ = %d\nKINDS = {%s}\nVIEW State\nINVARIANTS NoDangling NoLeak\nPROPERTIES Isolated Seen Kept\nCHECK_DEADLOCK FALSE\n"


def run_cow(c):
    todo = [(2, 2, '"c", "x"'), (2, 1, '"x", "c", "s"'), (3, 2, '"l"')]
    if not c.quick:
        todo += [(2, 3, '"c"'), (3, 2, '"c", "l"'), (2, 2, '"x", "c", "s"'), (3, 2, '"x", "s", "l"')]
    for nr, no, k in todo:
        c.mc("MCCow", COWCFG % (nr, no, k), timeout=300 if c.quick else 600, need_complete=c.quick)
    r = random.Random("C16-%d" % c.seed)
    sc = [cow_script(r, r.choice([10, 25, 60])) for _ in range(3000 if c.quick else 30000)]
    while sc and not c.viol:
        c.conform("references: random histories", "h_dmi", "TraceCow",
                  "SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n", sc[:5000])
        sc = sc[5000:]


# ------------------------------------------------------------------ C17 containers, C18 blocks and files
NAMES = ["a", "b", "c", "a.b", "b.2"]
TYPES = ["int", "int", "double", "double", "bool", "string", "hiid", "dcomplex", "float"]


def leafv(r, t):
    if t == "bool":
        return r.choice("01")
    if t == "string":
        return r.choice(["x", "yy", "a.b", "12", "long-text-" * 5])
    if t == "hiid":
        return r.choice(["a", "a.b", "b.2.c", "a.b.c.1.2.3"])
    if t == "int":
        return str(r.choice([0, 1, 2, 7, 65]))
    return r.choice(["0", "1", "2", "3", "0.5", "1.5", "2.5"])


def value(r, depth, kind=None):
    """(harness text, dump form)"""
    k = kind or r.choice(["sc", "sc", "vec", "arr", "rec", "rec", "rec", "list", "list", "ovec"] if depth > 0 else ["sc", "sc", "vec", "arr"])
    if k == "sc":
        t = r.choice(TYPES)
        x = leafv(r, t)
        return "sc %s %s" % (t, x), dict(k="sc", t=t, v=[x])
    if k == "vec":
        t = r.choice(TYPES)
        v = [leafv(r, t) for _ in range(r.randint(1, 4))]
        return "vec %s %d %s" % (t, len(v), " ".join(v)), dict(k="vec", t=t, v=v)
    if k == "arr":
        t = r.choice(["int", "double", "dcomplex", "float", "bool"])
        sh = [r.randint(1, 4) for _ in range(r.randint(1, 3))]
        n = 1
        for d in sh:
            n *= d
        v = [str((7 * i) % 2 if t == "bool" else i + 1) for i in range(n)]
        return "arr %s %d %s %d %s" % (t, len(sh), " ".join(map(str, sh)), n, " ".join(v)), dict(k="arr", t=t, sh=sh, v=v)
    if k == "rec":
        f = sorted(r.sample(NAMES, r.randint(0, 4)))
        l = [value(r, depth - 1) for _ in f]
        return "rec %d %s" % (len(f), " ".join(n + " " + x[0] for n, x in zip(f, l))), dict(k="rec", f=[[n, x[1]] for n, x in zip(f, l)], p=[])
    if k == "list":
        l = [value(r, depth - 1) for _ in range(r.randint(0, 4))]
        return "list %d %s" % (len(l), " ".join(x[0] for x in l)), dict(k="list", l=[x[1] for x in l])
    l = [value(r, depth - 1, "rec") for _ in range(r.randint(1, 3))]
    return "ovec %d %s" % (len(l), " ".join(x[0] for x in l)), dict(k="ovec", o=[x[1] for x in l])


def kids(v):
    if not v:
        return []
    if v["k"] == "rec":
        return [(dict(n=n), x) for n, x in v["f"]]
    if v["k"] in ("list", "ovec"):
        return [(dict(i=i), x) for i, x in enumerate(v["l" if v["k"] == "list" else "o"])]
    if v["k"] in ("vec", "sc"):
        return [(dict(i=i), None) for i in range(len(v["v"]))]
    return []


def path(r, v, obj=False):
    p = []
    while True:
        c = kids(v)
        if c and r.random() < .88:
            s, v2 = r.choice(c)
        else:
            s, v2 = r.choice([dict(n=r.choice(NAMES)), dict(i=r.randint(0, 3)), dict(n=r.choice(NAMES))] if not v or v["k"] == "rec" else
                             [dict(i=len(c)), dict(i=len(c) + 1), dict(i=r.randint(0, 3)), dict(n="a")]), None
        p.append(s)
        v = v2
        if v is None or v["k"] == "arr" or r.random() < (.35 if v["k"] in ("rec", "list", "ovec") else .8):
            return p


def ptext(p):
    return "/".join(s.get("n", "%d" % s.get("i", 0)) for s in p) or "-"


def axes(r, sh):
    ax, tx = [], []
    if len(sh) > 1 and r.random() < .2:
        sh = sh[:r.randint(1, len(sh) - 1)]
    for n in sh:
        k = r.random()
        if k < .3:
            i = r.randint(0, n if r.random() < .1 else n - 1)
            ax.append(dict(i=i))
            tx.append(str(i))
        elif k < .5:
            ax.append(dict(w=1))
            tx.append("*")
        else:
            lo = r.randint(0, n - 1)
            hi = r.randint(lo, n - 1 if r.random() < .85 else n + 1)
            if r.random() < .05:
                hi = max(0, lo - 1)
            if r.random() < .5:
                inc = r.randint(1, 3)
                ax.append(dict(lo=lo, hi=hi, inc=inc))
                tx.append("%d:%d:%d" % (lo, hi, inc))
            else:
                ax.append(dict(lo=lo, hi=hi, inc=1))
                tx.append("%d:%d" % (lo, hi))
    return ax, ".".join(tx)


def dmi_script(r, n, io):
    s = Script("dmi")
    s.add("creset", dict(e="reset"))
    sh = [None] * 5
    quiet = 0
    mode, ahead, marks, cut = "-", False, set(), False
    hot = ["cset"] * 5 + ["csetr"] * 2 + ["cget", "cgetnc"] * 2 + ["cput"] * 3 + ["cputr"] * 2 + ["ctake", "ctakenc"] * 2 + \
          ["crem"] * 3 + ["cexists", "csize"]
    cold = ["radd"] * 3 + ["rdel", "rprot", "rmerge", "rhas", "rget", "rnth"] + ["lput", "lput", "lfront", "lback", "lrep", "lrem", "lget", "lapp"] + \
           ["vsize", "vput"] + ["aslice", "aslice", "afill"]
    if r.random() < .2:
        cold.append("rclear")
    reg = ["cnew"] * 4 + ["ccp"] * 5 + ["cdeep", "cpriv", "cmv", "cdet"]
    pack = (["bto", "bapp", "bfrom", "bfrom", "bcp", "bpush", "bpriv", "rt", "rt", "vsize", "vsize"] + ["fw"] * 3 + ["fr"] * 4) * 2 if io else []
    focus = r.random()
    ops = reg + (hot if focus < .8 else []) + (cold if focus > .3 else []) + pack
    if r.random() < .3:
        ops = reg + ["aslice", "afill"] * 8 + ["rt"] * 2
    for k in range(3):
        t, v = value(r, 2, r.choice(["rec", "rec", "list", "arr", None]) if "cset" in ops or k else "arr")
        s.add("cnew %d %s" % (k, t), dict(e="op", op="cnew", r=k, v=v))
        sh[k] = v

    def add(line, ev):
        nonlocal quiet
        if line.split(" ", 1)[0] in ("cset", "csetr", "csetw", "csetwp", "cput", "cputr", "crem", "ctakenc", "cgetnc") and r.random() < .3:
            # the subscript is asked something before it is used
            s.add("cq %d" % r.randint(1, 3), None)
            asked = True
        else:
            asked = False
        if quiet:
            quiet -= 1
            w = line.split(" ", 1)
            line = w[0] + "! " + (w[1] if len(w) > 1 else "")
        s.add(line.rstrip(), dict(ev, e="op"))
        if asked:
            s.add("cq 0", None)
    for _ in range(n):
        o = r.choice(ops)
        if r.random() < .04:
            quiet = r.randint(1, 5)
        a = r.randrange(5)
        if o in ("lput", "lrep", "lapp", "lfront", "lback", "lget", "lrem", "radd", "rdel", "rprot", "rget", "rhas", "rnth", "rmerge", "vsize", "vput", "aslice", "afill"):
            want = "list" if o[0] == "l" else "rec" if o[0] == "r" else "arr" if o[0] == "a" else None
            c = [k for k in range(5) if sh[k] and (sh[k]["k"] == want if want else sh[k]["k"] in ("vec", "ovec", "sc"))]
            if c and r.random() < .93:
                a = r.choice(c)
            elif r.random() < .7:
                continue
        q = r.choice([x for x in range(5) if x != a])
        if o == "cnew":
            t, v = value(r, r.choice([1, 2, 3]))
            add("cnew %d %s" % (a, t), dict(op=o, r=a, v=v))
            sh[a] = v
        elif o in ("ccp", "cdeep"):
            add("%s %d %d" % (o, a, q), dict(op=o, r=a, q=q))
            sh[a] = sh[q]
        elif o == "cpriv":
            d = r.randint(0, 2)
            add("cpriv %d %d" % (a, d), dict(op=o, r=a))
        elif o == "cmv":
            add("cmv %d %d" % (a, q), dict(op=o, r=a, q=q))
            sh[a], sh[q] = sh[q], None
        elif o == "cdet":
            add("cdet %d" % a, dict(op=o, r=a))
            sh[a] = None
        elif o in ("cset", "csetr", "cget", "cgetnc"):
            p = path(r, sh[a])
            v = sh[a]
            t = r.choice(TYPES)
            for x in p:
                v2 = dict((repr(k), w) for k, w in kids(v)).get(repr(x)) if v else None
                if v2 is None and v and v["k"] in ("sc", "vec") and r.random() < .7:
                    t = v["t"]
                v = v2
            if v and v["k"] in ("sc", "vec") and r.random() < .6:
                t = v["t"]
            if o in ("cget", "cgetnc"):
                add("%s %d %s %s" % (o, a, ptext(p), t), dict(op=o, r=a, p=p, t=t))
            else:
                x = leafv(r, t)
                if o == "cset" and len(p) > 1 and r.random() < .5:
                    k = r.randint(1, len(p) - 1)
                    add("%s %d %s %s %s %s" % (r.choice(["csetw", "csetwp"]), a, ptext(p[:k]), ptext(p[k:]), t, x), dict(op=o, r=a, p=p, t=t, x=x))
                else:
                    add("%s %d %s %s %s" % (o, a, ptext(p), t, x), dict(op=o, r=a, p=p, t=t, x=x))
        elif o in ("cput", "cputr"):
            p = path(r, sh[a])
            x = r.random() < .3
            add("%s %d %s %d %d" % (o, a, ptext(p), q, x), dict(op=o, r=a, q=q, p=p, xf=x))
            if x:
                sh[q] = None
        elif o in ("ctake", "ctakenc", "crem"):
            p = path(r, sh[q])
            add("%s %d %d %s" % (o, a, q, ptext(p)), dict(op=o, r=a, q=q, p=p))
        elif o in ("cexists", "csize"):
            p = path(r, sh[a])
            add("%s %d %s" % (o, a, ptext(p)), dict(op=o, r=a, p=p))
        elif o == "radd":
            repl, prot, honor, xf = r.random() < .5, r.random() < .2, r.random() < .5, r.random() < .2
            how = r.choice(["", "I", "Q"])
            repl = repl if how == "" else how == "Q"
            nm = r.choice(NAMES)
            add("radd %d %s %d %s" % (a, nm, q, "".join(["R" * (repl and how == ""), "P" * prot, "H" * honor, "X" * xf, how]) or "-"),
                dict(op=o, r=a, n=nm, q=q, repl=repl, prot=prot, honor=honor, xf=xf))
        elif o in ("rdel", "rget"):
            nm, ig = r.choice(NAMES), r.random() < .3
            add("%s %d %d %s %d" % (o, q, a, nm, ig), dict(op=o, r=q, q=a, n=nm, ign=ig))
        elif o == "rprot":
            nm, on = r.choice(NAMES), r.random() < .7
            add("rprot %d %s %d" % (a, nm, on), dict(op=o, r=a, n=nm, on=on))
        elif o == "rmerge":
            ov = r.random() < .5
            add("rmerge %d %d %d" % (a, q, ov), dict(op=o, r=a, q=q, over=ov))
        elif o == "rhas":
            nm = r.choice(NAMES)
            add("rhas %d %s" % (a, nm), dict(op=o, r=a, n=nm))
        elif o in ("rclear", "rnth"):
            add("%s %d" % (o, a), dict(op=o, r=a))
        elif o in ("lput", "lrep"):
            m = r.randint(-4, 4)
            add("%s %d %d %d" % (o, a, m, q), dict(op=o, r=a, n=m, q=q))
        elif o in ("lfront", "lback", "lapp"):
            add("%s %d %d" % (o, a, q), dict(op=o, r=a, q=q))
        elif o in ("lrem", "lget"):
            m = r.randint(-4, 4)
            add("%s %d %d %d" % (o, q, a, m), dict(op=o, r=q, q=a, n=m))
        elif o == "vsize":
            m = r.randint(0, 4)
            add("vsize %d %d" % (a, m), dict(op=o, r=a, n=m))
        elif o == "vput":
            m = r.randint(-1, 3)
            add("vput %d %d %d" % (a, m, q), dict(op=o, r=a, n=m, q=q))
        elif o in ("aslice", "afill"):
            if not sh[a] or sh[a]["k"] != "arr":
                continue
            ax, tx = axes(r, sh[a]["sh"])
            if o == "aslice":
                add("aslice %d %s" % (a, tx), dict(op=o, r=a, ax=ax))
            else:
                x = leafv(r, sh[a]["t"])
                add("afill %d %s %s" % (a, tx, x), dict(op=o, r=a, ax=ax, x=x))
        elif o in ("bto", "bapp"):
            b = r.randrange(2)
            add("%s %d %d" % (o, b, a), dict(op=o, b=b, r=a))
        elif o == "bfrom":
            b = r.randrange(2)
            add("bfrom %d %d" % (a, b), dict(op=o, r=a, b=b))
        elif o in ("bcp", "bpush", "bpriv"):
            b = r.randrange(2)
            add("%s %d" % (o, b), dict(op=o, b=b))
        elif o == "rt":
            add("rt %d %d %d" % (a, q, r.random() < .5), dict(op=o, r=a, q=q))
            sh[a] = sh[q]
        elif o == "fw":
            if mode not in "wa":
                mode = "w" if cut else r.choice("waa")
                cut = False
                ahead, marks = False, set()
                add("fopen " + mode, dict(op="fopen", m=mode))
            for _ in range(r.randint(1, 3)):
                k = r.randrange(5)
                add("fwrite %d" % k, dict(op="fwrite", r=k))
            if r.random() < .5:
                add("fclose", dict(op="fclose"))
                mode = "-"
        elif o == "fr":
            if mode != "r" or r.random() < .1:
                mode, ahead, marks = "r", False, set()
                add("fopen r", dict(op="fopen", m="r"))
                if r.random() < .1:
                    w = r.randint(0, 999)
                    add("ftrunc %d" % w, dict(op="fcut"))
                    cut = True
                    mode = "-"
                    add("fopen r", dict(op="fopen", m="r"))
                    mode = "r"
            for _ in range(r.randint(1, 4)):
                f = r.choice(["fread"] * 4 + ["fnext", "frewind", "fmark", "fseek", "fseek"])
                if f == "fread":
                    add("fread %d" % r.randrange(5), None or dict(op=f, r=int(0)))
                    s.events[-1]["r"] = int(s.lines[-1].split()[1])
                    ahead = False
                elif f == "fnext":
                    add(f, dict(op=f))
                    ahead = True
                elif f == "frewind":
                    add(f, dict(op=f))
                    ahead = False
                elif f == "fmark" and not ahead:
                    m = r.randint(1, 4)
                    marks.add(m)
                    add("fmark %d" % m, dict(op=f, k=m))
                elif f == "fseek" and marks:
                    m = r.choice(sorted(marks))
                    add("fseek %d" % m, dict(op=f, k=m))
                    ahead = False
    if quiet:
        quiet = 0
    add("cdump", dict(op="cdump"))
    return s


TD = "SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n"


def run_dmi(c):
    io = c.pid == "C18"
    cfg = ("SPECIFICATION Spec\nCONSTANTS IO = %s\nDEPTH = %d\nVIEW View\nINVARIANTS PackOnce\n"
           "PROPERTIES Isolated ReadBack PutTake Guarded FileOrder\nCHECK_DEADLOCK FALSE\n")
    c.mc("MCDmi", cfg % ("TRUE" if io else "FALSE", 1), timeout=300)
    if not c.quick:
        c.mc("MCDmi", cfg % ("TRUE" if io else "FALSE", 2), timeout=900, need_complete=False)
    r = random.Random("%s-%d" % (c.pid, c.seed))
    sc = [dmi_script(r, r.choice([8, 20, 40]), io) for _ in range(6000 if c.quick else 40000)]
    while sc and not c.viol:
        c.conform("blocks and files: random histories" if io else "containers: random histories", "h_dmi", "TraceDmi", TD, sc[:4000])
        sc = sc[4000:]


def run(c):
    c.build("h_dmi")
    {"C15": run_hiid, "C16": run_cow, "C17": run_dmi, "C18": run_dmi}[c.pid](c)
