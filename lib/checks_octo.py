"""C11..C13: the message layer (spec/Octopussy.tla)."""
import random
from vlib import Script

CLS = [-10, -11, -12]
LET = [-10, -11, -12, -13]
ANY, WILD, LOC, PUB = -1, -2, -20, -21


def vec(v):
    return "%d %s" % (len(v), " ".join(map(str, v))) if v else "0"


class Gen:
    def __init__(self, r, mode):
        self.r, self.mode = r, mode
        self.nw = r.randint(2, 4) if mode != "routing" else r.randint(3, 6)
        self.uid = 10
        self.wps, self.plans, self.pl = [], [], []
        self.budget = r.choice([15, 30, 60])
        self.calm = False

    # ---- pieces
    def mid(self, uid=None):
        r = self.r
        if uid is None:
            self.uid += 1
            uid = self.uid
        return [r.choice(LET) for _ in range(r.randint(1, 2))] + [uid]

    def mask(self):
        r = self.r
        if self.mode == "routing" and r.random() < .12:
            return r.choice([[-22, WILD], [-22, -28, WILD], [-22, -29, WILD], [-22, -30], [-22, -27, r.choice(CLS), WILD], [WILD]])
        n = r.randint(1, 3)
        m = [r.choice(LET + [ANY, ANY]) for _ in range(n)]
        u = r.random()
        if u < .6:
            m.append(WILD)
        elif u < .75:
            m = m[:2] + [ANY]
        elif u < .85:
            m = m[:2] + [r.randint(10, max(11, self.uid))]
        return m

    def scope(self):
        r = self.r
        return r.choice([[ANY] * 4, [ANY] * 4, [ANY, ANY, 5, 6], [r.choice(CLS), ANY, ANY, ANY], [r.choice(CLS), r.randint(0, 1), 5, 6],
                         [ANY, ANY, 7, 6], [ANY, ANY, ANY, 6]])

    def to(self):
        r = self.r
        p, h = r.choice([(LOC, LOC), (LOC, LOC), (5, 6), (ANY, ANY), (5, ANY), (ANY, 6)] +
                        ([(7, 6), (5, 7), (7, 8), (LOC, 7), (ANY, 7), (LOC, ANY), (ANY, LOC)] if self.mode == "routing" else []))
        w = r.choice(self.wps)
        c, i = w["cls"], r.choice([0, 0, 1, w["inst"]])
        u = r.random()
        if u < .1:
            i = ANY
        elif u < .2:
            c = ANY
        elif u < .3:
            c = i = ANY
        elif u < .36 and self.mode == "routing":
            c, i = r.choice([(PUB, PUB), (PUB, ANY), (PUB, 0), (ANY, PUB), (r.choice(CLS), PUB)])
        return [c, i, p, h]

    def pri(self):
        r = self.r
        return r.choice([0, 1, 2, 3, 16, 256, 256, 256, 512, -1, -3] if self.mode != "events" else [0, 256, 256, 2047, 2048, 2049, 2050])

    # ---- acts: (tokens for the harness, record for the trace)
    def act(self, w, inside, level, plan=True):
        """w: slot that acts; inside: '' or the kind of callback"""
        r = self.r
        if inside in ("stp",):
            ops = ["snd", "pub"]
        elif inside in ("ini", "sta"):
            ops = ["snd"] * 3 + ["pub"] * 2 + ["sub"] * 3 + ["sta", "uns"] + (["tmo", "inp", "sig"] if self.mode == "events" else [])
            if self.mode == "routing":
                ops += ["att"]
        else:
            ops = {"queue": ["snd"] * 6 + ["pub", "sqq", "sqq"] + (["dqi", "dqi", "dqp"] if inside or r.random() < .3 else []),
                   "routing": ["snd"] * 4 + ["pub"] * 4 + ["pbi"] * 2 + ["sub"] * 4 + ["sbs"] * 2 + ["uns"] * 2 + ["sta", "att", "det"],
                   "events": ["snd", "tmo", "tmo", "inp", "inp", "sig", "rto", "rin", "rsg", "dqi"]}[self.mode]
            if inside:
                ops = ops + ["pol", "pol"]
            if inside == "rcv":
                ops = ops + ["mod", "mod", "fwd", "fwx"] + (["tak"] if r.random() < .4 else [])
            if self.mode == "queue" and r.random() < .1:
                ops = ops + ["det", "att"]
        op = r.choice(ops)
        if op in ("snd", "pub", "pbi"):
            if self.budget <= 0 and inside:
                return self.act(w, "stp0" if False else inside, level) if False else (["sqq", "1 -2 0"], dict(op="sqq", id=[-2], pos=0))
            self.budget -= 1
            i, p = self.mid(), self.pri()
            if plan and inside != "stp" and level < 3:
                self.plan(i[-1], level + 1)
            if op == "snd":
                t = self.to()
                return ["snd", "%s %d %s" % (vec(i), p, vec(t))], dict(op=op, id=i, pri=p, to=t)
            sc = r.choice([0, 1, 2, 2])
            return [op, "%s %d %d" % (vec(i), p, sc)], dict(op=op, id=i, pri=p, scope=sc)
        if op in ("fwd", "fwx"):
            t = self.to()
            self.budget -= 3
            return [op, vec(t)], dict(op=op, to=t)
        if op == "sub":
            m, s = self.mask(), self.scope()
            return [op, "%s %s" % (vec(m), vec(s))], dict(op=op, id=m, to=s)
        if op == "sbs":
            m, s = self.mask(), r.choice([0, 1, 2])
            return [op, "%s %d" % (vec(m), s)], dict(op="sbs", id=m, scope=s)
        if op == "uns":
            m = self.mask()
            return [op, vec(m)], dict(op=op, id=m)
        if op == "dqi":
            m, x = r.choice([self.mask(), [r.choice(LET), WILD], [-23, WILD], [-23, -24, WILD]] if self.mode == "events" else
                            [self.mask(), [r.choice(LET), WILD], [WILD], [-13, -13, -13]]), r.random() < .5
            return [op, "%s %d" % (vec(m), x)], dict(op=op, id=m, want=x)
        if op == "dqp":
            p, x = r.choice([0, 0, 1, 1, 2, 3, -1]), r.random() < .5
            return [op, "%d %d" % (p, x)], dict(op=op, pos=p, want=x)
        if op == "sqq":
            m, p = r.choice([self.mask(), [WILD], [r.choice(LET), WILD]]), r.choice([0, 0, 0, 1, 2, 5])
            return [op, "%s %d" % (vec(m), p)], dict(op=op, id=m, pos=p)
        if op == "pol":
            n = r.choice([-1, -1, 0, 1, 2])
            return [op, str(n)], dict(op=op, n=n)
        if op == "att":
            s = r.randrange(self.nw)
            return [op, str(s)], dict(op=op, s=s + 1)
        if op == "det":
            s, d = r.randrange(self.nw), r.random() < .5
            if s == w and inside:
                d = True
            return [op, "%d %d" % (s, d)], dict(op=op, s=s + 1, delay=d)
        if op == "mod":
            n = r.randint(50, 99)
            return [op, str(n)], dict(op=op, n=n)
        if op == "tak":
            return [op], dict(op=op)
        if op == "sta":
            n, d = r.randint(0, 3), r.random() < .3
            return [op, "%d %d" % (n, d)], dict(op=op, n=n, delay=d)
        if op == "tmo":
            i = [r.choice(LET)] * r.randint(0, 1) + [r.randint(1, 4)]
            p, f, q = r.choice([0, 1, 1, 2, 3, 5, 8]) if r.random() < .3 else r.randint(1, 6), int(r.random() < .4), r.choice([2048, 2048, 256, 3])
            self.evplan(w, 1000 + i[-1], level)
            return [op, "%s %d %d %d" % (vec(i), p, f, q)], dict(op=op, id=i, period=p, fl=f, pri=q)
        if op == "rto":
            i = [r.choice(LET)] * r.randint(0, 1) + [r.randint(1, 4)]
            return [op, vec(i)], dict(op=op, id=i)
        if op == "inp":
            fd, fl, one, q = r.choice([20, 21, 22, -1] if r.random() < .1 else [20, 21, 22]), r.randint(0 if r.random() < .1 else 1, 7), int(r.random() < .25), r.choice([2048, 2048, 256, 3])
            self.evplan(w, 2000 + fd, level)
            return [op, "%d %d %d %d" % (fd, fl, one, q)], dict(op=op, fd=fd, fl=[b for b in range(3) if fl >> b & 1], one=bool(one), pri=q)
        if op == "rin":
            fd, fl = r.choice([20, 21, 22, -1]), r.choice([7, 7, 1, 2, 3])
            return [op, "%d %d" % (fd, fl)], dict(op=op, fd=fd, fl=[b for b in range(3) if fl >> b & 1])
        if op == "sig":
            k, fl, q = r.randrange(3), r.choice([0, 0, 0, 1, 2, 3, 4]), r.choice([2048, 2048, 256])
            self.evplan(w, 3000 + k, level)
            return [op, "%d %d %d" % (k, fl, q)], dict(op=op, sg=k, ign=bool(fl & 4), disc=bool(fl & 2), one=bool(fl & 1), pri=q)
        if op == "rsg":
            k = r.choice([0, 1, 2, -1])
            return [op, str(k)], dict(op=op, sg=k)
        raise Exception(op)

    def steps(self, slot, key, kind, level, n=None, res=None):
        r = self.r
        for _ in range(r.choice([1, 1, 1, 2, 3]) if n is None else n):
            A = [self.act(slot, kind, level) for _ in range(r.choice([0, 0, 1, 1, 2, 3]) if kind not in ("ini", "sta") else r.randint(0, 3))]
            if res is not None:
                x = r.choice(res)
            elif kind == "rcv":
                x = r.choice([0, 0, 0, 0, 1, 1, 2, 2] + ([9] if not self.calm else []))
            else:
                x = r.choice([0, 0, 0, 3, 3] + ([9] if not self.calm and r.random() < .3 else []))
            self.pl.append("plan %d %d %d %d %s" % (slot, key, x, len(A), " ".join(
                "%d %s" % (1 + len(" ".join(t[1:]).split()), " ".join(t)) for t, _ in A)))
            self.plans.append(dict(s=slot + 1, u=key, res=x, acts=[a for _, a in A]))

    def plan(self, uid, level):
        for s in range(self.nw):
            if self.r.random() < .45:
                self.steps(s, uid, "rcv", level)

    def evplan(self, w, key, level):
        if level < 3 and self.r.random() < .5:
            self.steps(w, key, "evt", level + 1)

    def doacts(self, w, A):
        return "do %d %d %s" % (w, len(A), " ".join("%d %s" % (1 + len(" ".join(t[1:]).split()), " ".join(t)) for t, _ in A))

    def script(self):
        r, mode = self.r, self.mode
        self.calm = r.random() < .6
        cnt = {}
        for k in range(self.nw):
            c = r.choice(CLS[:2] if mode != "routing" else CLS)
            gw = []
            if mode == "routing" and r.random() < .25:
                gw = r.choice([[7], [7, 8], [8], [6]])
            self.wps.append(dict(s=k + 1, cls=c, auto=r.random() < .5, gw=gw, inst=cnt.get(c, 0)))
            cnt[c] = cnt.get(c, 0) + 1
        body = []        # (line, event)
        early = [k for k in range(self.nw) if r.random() < .85] or [0]
        for k in range(self.nw):
            if r.random() < .35:
                self.steps(k, -1, "ini", 1, n=1, res=[0] if not self.wps[k]["auto"] or self.calm or k not in early else [0, 0, 0, 9])
            if r.random() < .45:
                self.steps(k, -2, "sta", 1, n=1, res=[0, 1] if not self.wps[k]["auto"] or self.calm or k not in early else [0, 1, 0, 9])
            if r.random() < .3:
                self.steps(k, -3, "stp", 1, n=1, res=[0])
        on = []
        for k in early:
            body.append(("attach %d" % k, dict(e="cmd", op="attach", w=k + 1)))
            on.append(k)
            if r.random() < .1:
                w = r.choice(on)
                A = [self.act(w, "stp", 0)]
                body.append((self.doacts(w, A), dict(e="cmd", op="do", w=w + 1, acts=[a for _, a in A])))
        body.append(("start", dict(e="cmd", op="start")))
        for _ in range(r.randint(8, 25)):
            u = r.random()
            if u < .45:
                w = r.randrange(self.nw)
                A = [self.act(w, "", 0) for _ in range(r.randint(1, 4))]
                body.append((self.doacts(w, A), dict(e="cmd", op="do", w=w + 1, acts=[a for _, a in A])))
            elif u < .75 and mode == "events":
                dt = r.choice([0, 0, 1, 1, 2, 3, 7])
                rd = [(fd, r.randint(1, 7)) for fd in (20, 21, 22) if r.random() < .5]
                sg = [k for k in range(3) if r.random() < .4]
                body.append(("ev %d %d %s %d %s" % (dt, len(rd), " ".join("%d %d" % x for x in rd), len(sg), " ".join(map(str, sg))),
                             dict(e="cmd", op="ev", dt=dt, ready=[[fd, [b for b in range(3) if f >> b & 1]] for fd, f in rd], sigs=sg)))
            else:
                n = r.choice([-1, -1, -1, -1, 0, 1, 2, 5])
                body.append(("poll %d" % n, dict(e="cmd", op="poll", n=n)))
        body.append(("poll -1", dict(e="cmd", op="poll", n=-1)))
        if r.random() < .4:
            body.append(("stop", dict(e="cmd", op="stop")))
        s = Script(mode)
        s.add("reset", None)
        s.add("gap %d" % (mode == "events" and r.random() < .5), None)
        for w in self.wps:
            s.add("wp %d %d %d %s" % (w["s"] - 1, w["cls"], w["auto"], vec(w["gw"])), None)
        for p in self.pl:
            s.add(p, None)
        s.events[0] = dict(e="reset", wps=[{k: v for k, v in w.items() if k != "inst"} for w in self.wps], plans=self.plans)
        for l, e in body:
            s.add(l, e)
        return s


CFG = "SPECIFICATION Spec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n"


def go(c, mode, n, label):
    r = random.Random("%s-%d" % (c.pid, c.seed))
    sc = [Gen(r, mode).script() for _ in range(n)]
    while sc and not c.viol:
        c.conform(label, "h_octo", "TraceOcto", CFG, sc[:3000])
        sc = sc[3000:]


MC = "SPECIFICATION Spec\nCONSTANTS NWP=%d NMSG=%d PRIS={%s} RESULTS={%s} ACTS={%s} POLLS={%s} BCAST=%s EVENTS=%s\nINVARIANTS %s\n%sCHECK_DEADLOCK FALSE\n"


def octo(c, nwp, nmsg, pris, results, acts, polls="99,0", bcast="FALSE", events="FALSE", inv="SortedQ Fifo Rest OnceQ Contained", prop="Once Full", **kw):
    c.mc("MCOctopussy", MC % (nwp, nmsg, pris, results, ",".join('"%s"' % a for a in acts), polls, bcast, events, inv,
                              "PROPERTIES %s\n" % prop if prop else ""), **kw)


def wakeup(c, n, t, m):
    c.mc("Wakeup", "SPECIFICATION Spec\nCONSTANTS PENDING=TRUE MARKFIRST=TRUE RECHECK=TRUE NSEND=%d NTIMER=%d MAXT=%d\n"
         "INVARIANTS NoLostMessage NoLostTimer\nPROPERTIES Delivered\nCHECK_DEADLOCK FALSE\n" % (n, t, m), timeout=900)


def run(c):
    c.build("h_octo")
    q = c.quick
    if c.pid == "C11":
        go(c, "queue", 6000 if q else 60000, "queues and polling: histories of sends, polls, holds and requeues")
        octo(c, 2, 2, "0,2", "0,1,2,9", ["none", "empty", "poll", "send"])
        octo(c, 2, 6, "0,3", "0", ["none"], polls="0", inv="SortedQ Fifo Rest OnceQ Contained Patient")
        if not q:
            octo(c, 2, 3, "0,2", "0,1,2,9", ["none", "empty", "poll", "send", "gone"], timeout=3000)
            octo(c, 2, 8, "0,3", "0", ["none"], polls="0", inv="SortedQ Fifo Rest OnceQ Contained Patient", timeout=3000)
    elif c.pid == "C12":
        go(c, "routing", 6000 if q else 60000, "routing, subscriptions, attachment and detachment")
        c.mc("MCSubs", "SPECIFICATION Spec\nCONSTANTS MAXSUBS=%d\nINVARIANTS Exact\nPROPERTIES Unions Told\nCHECK_DEADLOCK FALSE\n" % (2 if q else 3), timeout=900)
        octo(c, 2, 2, "0,2", "0,9", ["none", "empty", "gone"], bcast="TRUE")
        if not q:
            octo(c, 3, 2, "0,2", "0,1,2,9", ["none", "empty"], bcast="TRUE", timeout=3000)
    else:
        go(c, "events", 6000 if q else 60000, "timers, inputs and signals, with the event thread waiting or about to wait")
        wakeup(c, 2, 1, 3)
        octo(c, 2, 3, "1", "0,1", ["none"], events="TRUE", inv="SortedQ OnceQ Contained NoGhosts OnTime", prop="Full")
        if not q:
            wakeup(c, 2, 2, 4)
            octo(c, 2, 4, "1", "0,1", ["none"], events="TRUE", inv="SortedQ OnceQ Contained NoGhosts OnTime", prop="Full", timeout=3000)
