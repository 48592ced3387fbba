"""Shared machinery of the checks: build, drive the harnesses, run TLC, judge traces, report."""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.path.join(V, "build")
VH = os.path.join(B, "rel", "vh")
SPEC = os.path.join(V, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
DEPS = "/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = 8


def log(*a):
    print(*a, flush=True)


class Broken(Exception):
    """the check could not be carried out (not a verdict)"""


def build(*targets):
    t = time.time()
    p = subprocess.run(["bash", os.path.join(V, "lib", "build.sh")] + list(targets),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        log(p.stdout[-6000:])
        raise Broken("build of %s failed" % (targets,))
    log("built %s in %.0fs" % (" ".join(targets), time.time() - t))


def tmpdir(tag):
    d = os.path.join(B, "tmp")
    os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(prefix=tag + "-", dir=d)


def run_proc(cmd, text, timeout, env=None, cwd=None):
    """returns (stdout, stderr, rc); rc None on timeout; the whole process group is killed"""
    e = dict(os.environ)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=e, cwd=cwd, start_new_session=True)
    try:
        o, r = p.communicate(text.encode() if isinstance(text, str) else text, timeout=timeout)
        return o.decode("utf8", "replace"), r.decode("utf8", "replace"), p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, r = p.communicate()
        return o.decode("utf8", "replace"), r.decode("utf8", "replace"), None


def harness(name, lines, timeout=120, env=None):
    """feeds command lines; returns (list of answers, status) with status None or a string"""
    cwd = tmpdir(name)
    try:
        o, e, rc = run_proc([os.path.join(VH, name)], "\n".join(lines) + "\n", timeout, env, cwd)
    finally:
        shutil.rmtree(cwd, ignore_errors=True)
    res = []
    for l in o.split("\n"):
        if l.startswith("{"):
            try:
                res.append(json.loads(l))
            except ValueError:
                pass
    st = None
    if rc is None:
        st = "timeout"
    elif rc == 97:
        raise Broken("harness %s: bad script: %s" % (name, e[-500:]))
    elif rc != 0:
        st = "exit %d: %s" % (rc, e[-400:])
    return res, st


class Tlc:
    pass


def tlc(module, cfg, workers=NCPU, timeout=600, env=None, extra=(), heap="4g", dest=None):
    """cfg: text of the configuration"""
    d = tmpdir(module)
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write(cfg)
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC",
               "-XX:TieredStopAtLevel=1" if workers == 1 and timeout < 0 else "-XX:+TieredCompilation",
               "-cp", JAR + ":" + DEPS, "tlc2.TLC", "-workers", str(workers), "-metadir",
               os.path.join(d, "meta"), "-config", "M.cfg"] + list(extra) + [module + ".tla"]
        t = time.time()
        o, e, rc = run_proc(cmd, "", timeout, env, d)
        r = Tlc()
        r.out, r.err, r.rc, r.wall = o, e, rc, time.time() - t
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", o.replace(",", "").replace(" states generated ", " states generated, "))
        m = re.findall(r"([\d,]+) states generated[^\n]*?, ([\d,]+) distinct", o)
        r.states, r.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        g = re.findall(r"The number of states generated: ([\d,]+)", o)   # simulation
        if g and not r.states:
            r.states = int(g[-1].replace(",", ""))
        r.complete = "Model checking completed. No error has been found." in o
        m = re.search(r"Invariant (\S+) is violated|Temporal properties were violated|Deadlock reached|"
                      r"property (\S+) is violated|Action property (\S+) is violated|POSTCONDITION|Assumption .* is false", o)
        r.violated = m.group(0) if m else None
        r.timeout = rc is None
        if dest:
            for f in os.listdir(d):
                if f.endswith(".json") or f.endswith(".ndjson"):
                    shutil.copy(os.path.join(d, f), dest)
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def mc(module, cfg, timeout=600, workers=NCPU, need_complete=True, extra=(), heap="8g"):
    """model-check the specification itself: any failure here is a broken check, not a verdict on the code"""
    r = tlc(module, cfg, workers=workers, timeout=timeout, extra=extra, heap=heap)
    if r.violated or (not r.complete and not r.timeout) or (r.timeout and need_complete):
        log(r.out[-5000:])
        log(r.err[-2000:])
        raise Broken("%s: the specification itself fails: %s" % (module, r.violated or ("timeout" if r.timeout else "error")))
    log("  %s: %d states, %d distinct, %.0fs%s" % (module, r.states, r.distinct, r.wall, "" if r.complete else " (cut off)"))
    return r


def judge_chunk(module, cfg, events, timeout, env=None):
    d = tmpdir("trace")
    try:
        p = os.path.join(d, "trace.ndjson")
        with open(p, "w") as f:
            for e in events:
                f.write(json.dumps(e) + "\n")
        ev = dict(env or {})
        ev["TRACE"] = p
        r = tlc(module, cfg, workers=1, timeout=timeout, env=ev, heap="3g")
        bad = {}
        for part in re.split(r'(?=<<\s*"MISMATCH",)', r.out)[1:]:
            m = re.match(r'<<\s*"MISMATCH",\s*(\d+),\s*(\d+),\s*(.*?)>>\s*(?:\n(?=[A-Z\d])|$)', part, re.S)
            if m:
                bad.setdefault(int(m.group(1)), (int(m.group(2)), re.sub(r"\s+", " ", m.group(3))))
        r.findings = {}
        for m in re.finditer(r'<<\s*"FINDING",\s*(\d+),\s*"([^"]+)"\s*>>', r.out):
            r.findings.setdefault(int(m.group(1)), m.group(2))
        if "MISMATCH" in r.out and not bad:
            log(r.out[-3000:])
            raise Broken("unreadable mismatch")
        if not r.complete:
            log(r.out[-4000:])
            log(r.err[-1000:])
            raise Broken("%s could not consume the trace" % module)
        return bad, r
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Script:
    """one self-contained experiment: command lines for the harness, and for each the trace event it
    becomes (a dict, completed with the answer under 'obs'), or None"""

    def __init__(self, tag=""):
        self.lines, self.events, self.tag = [], [], tag

    def add(self, line, event=None):
        self.lines.append(line)
        self.events.append(event)

    def key(self):
        return self.tag


SKIPPED = "skipped"


def run_scripts(hname, scripts, timeout=120, env=None, prologue=(), deaths=3):
    """runs the scripts one after another in one harness process; if it dies, the scripts are
    separated (the rest is skipped after a few deaths).  Returns per script (answers, status)"""
    if not deaths:
        return [([], SKIPPED)] * len(scripts)
    lines = list(prologue)
    for s in scripts:
        lines += s.lines
    res, st = harness(hname, lines, timeout, env)
    if st is None and len(res) == len(lines):
        out, k = [], len(prologue)
        for s in scripts:
            out.append((res[k:k + len(s.lines)], None))
            k += len(s.lines)
        return out
    if len(scripts) == 1:
        return [(res[len(prologue):], st or "short output")]
    # find the scripts that completed, isolate the one that did not
    out, k, i = [], len(prologue), 0
    while i < len(scripts) and k + len(scripts[i].lines) <= len(res):
        out.append((res[k:k + len(scripts[i].lines)], None))
        k += len(scripts[i].lines)
        i += 1
    if i >= len(scripts):
        # died on the way out: blame the last script
        out[-1] = (out[-1][0], st)
        return out
    out += run_scripts(hname, [scripts[i]], timeout, env, prologue)
    if i + 1 < len(scripts):
        out += run_scripts(hname, scripts[i + 1:], timeout, env, prologue, deaths - 1)
    return out


def events_of(scripts, answers, base=0):
    ev = []
    for k, (s, (res, st)) in enumerate(zip(scripts, answers)):
        if st is not None:
            continue
        for e, r in zip(s.events, res):
            if e is None:
                continue
            x = dict(e)
            x["s"] = base + k
            x["obs"] = r
            ev.append(x)
    return ev


class Result:
    def __init__(self):
        self.scripts = self.events = 0
        self.bad = []          # (script, what, detail)
        self.sample = []
        self.findings = []     # (script, key): deviations the specification knows by name


def conform(hname, module, cfg, scripts, timeout=120, env=None, prologue=(), nproc=NCPU, tl_timeout=400,
            crash_is_bad=True, confirm=2, prep=None):
    """executes the scripts in the real code and lets TLC judge what was observed"""
    R = Result()
    n = max(1, min(nproc, len(scripts)))
    chunks = [scripts[i::n] for i in range(n)]

    def one(ch, conf=False):
        ans = run_scripts(hname, ch, timeout, env, prologue)
        ev = events_of(ch, ans)
        if prep:
            ev = prep(ev)
        bad = {}
        if ev:
            bad, tr = judge_chunk(module, cfg, ev, tl_timeout)
            if not conf:
                R.findings += [(ch[k], key) for k, key in tr.findings.items()]
        out = []
        for k, s in enumerate(ch):
            if ans[k][1] == SKIPPED:
                pass
            elif ans[k][1] is not None:
                out.append((s, "the code under test died or hung (%s)" % ans[k][1].strip(), None))
            elif k in bad:
                i, exp = bad[k]
                out.append((s, "event %s" % json.dumps(ev[i - 1] if i - 1 < len(ev) else None)[:1500], exp[:1500]))
        return out, len(ev), ans, ev

    with cf.ThreadPoolExecutor(n) as ex:
        for out, ne, ans, ev in ex.map(one, chunks):
            R.events += ne
            R.bad += out
            if ev and len(R.sample) < 3:
                R.sample.append(ev[min(len(ev) - 1, 3)])
    R.scripts = len(scripts)
    # a rejection counts only if it repeats
    kept = []
    if confirm < 0 and R.bad:
        # schedule-dependent: several behaviours rejected, or one of them rejected again in many repetitions
        if len(R.bad) >= 3:
            R.bad = R.bad[:6]
            return R
        for s, what, exp in R.bad:
            with cf.ThreadPoolExecutor(n) as ex:
                if any(o for o, _, _, _ in ex.map(lambda x: one(x, True), [[s] * 25 for _ in range(8)])):
                    kept.append((s, what, exp))
                else:
                    log("  did not show again in 200 repetitions, ignored:", what[:600])
        R.bad = kept
        return R
    for s, what, exp in R.bad[:6]:
        ok = True
        for _ in range(confirm):
            o, _, _, _ = one([s], True)
            if not o:
                ok = False
                break
            what, exp = o[0][1], o[0][2]
        if ok:
            kept.append((s, what, exp))
        else:
            log("  not repeatable, ignored:", what[:300])
    R.bad = kept
    return R


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.states = self.trans = self.traces = 0
        self.samples, self.viol, self.notes = [], [], {}
        self.found = []
        kf = os.path.join(V, "known-findings.txt")
        self.known = []
        if os.path.exists(kf):
            for l in open(kf):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
                if m and m.group(1) == pid:
                    self.known.append((m.group(2), m.group(3).strip()))

    def build(self, *t):
        build(*t)

    def left(self, total):
        return max(5, total - (time.time() - self.t0))

    def mc(self, module, cfg, **kw):
        r = mc(module, cfg, **kw)
        self.states += r.distinct
        self.trans += r.states
        self.notes.setdefault("model", []).append({"module": module, "distinct": r.distinct, "generated": r.states,
                                                   "complete": r.complete})
        return r

    def conform(self, label, hname, module, cfg, scripts, **kw):
        t = time.time()
        R = conform(hname, module, cfg, scripts, **kw)
        self.traces += R.scripts
        self.notes.setdefault("conformance", []).append({"what": label, "scripts": R.scripts, "events": R.events})
        for e in R.sample[:2]:
            self.samples.append({"what": label, "event": e})
        log("  %s: %d scripts, %d events judged, %d rejected, %.0fs" % (label, R.scripts, R.events, len(R.bad), time.time() - t))
        for key in sorted({k for _, k in R.findings}):
            s = next(x for x, k in R.findings if k == key)
            self.violation(key, {"harness": hname, "module": module, "config": cfg, "commands": s.lines,
                           "observed": "the deviation the specification calls " + key, "expected": "no such deviation"})
        for s, what, exp in R.bad:
            self.violation(s.key() if hasattr(s, "key") else "", {"harness": hname, "module": module, "config": cfg,
                           "commands": s.lines, "observed": what, "expected": exp})
        return R

    def violation(self, key, detail):
        for k, txt in self.known:
            if key == k:
                if k not in self.found:
                    self.found.append(k)
                    log("KNOWN-FINDING: property=%s %s" % (self.pid, txt))
                return
        d = os.path.join(B, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.viol) + 1))
        with open(p, "w") as f:
            json.dump(detail, f, indent=1)
        self.viol.append(p)
        log("  observed:", str(detail.get("observed"))[:1500])
        log("  expected:", str(detail.get("expected"))[:1500])

    def finish(self):
        for k, txt in self.known:
            if k not in self.found:
                # the listed history was not exercised in this run, or no longer fails
                log("  (listed finding %s did not show in this run)" % k)
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.trans,
                           "traces_validated_against_impl": self.traces,
                           "samples": self.samples[:6] or [{"none": True}]},
              "wall_s": round(time.time() - self.t0, 1)}
        ev["coverage"].update({"detail": self.notes})
        with open(os.path.join(V, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.viol:
            log("VIOLATION property=%s replay=%s" % (self.pid, self.viol[0]))
            return 1
        log("OK property=%s: %d model states, %d behaviours of the real code judged, %.0fs" %
            (self.pid, self.states, self.traces, time.time() - self.t0))
        return 0
