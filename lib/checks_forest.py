"""C01..C05: the node engine, sequential polling (spec/MeqForest.tla)."""
import random
import forest_gen

INV = dict(C01="Sound", C02="Repeatable KeptByPolicy NeverCaches", C03="Sound FailsTold", C04="AbortQuiet Sound",
           C05="RidersTargeted FailsTold")
POL3 = dict(fpols=[0, 1, 2], mpols=[0, 1, 2])
PROF = dict(
    C01=[({}, 3), (dict(fails=.3, miss=.2, **POL3), 2), (dict(wait=.2, fails=.15, inactive=.3), 2),
         (dict(abrt=.15, abortflag=.08, fails=.1), 1), (dict(n=(6, 9), steps=(20, 40)), 1), (dict(sets=.5, inactive=.3), 1)],
    C02=[({}, 2), (dict(honest=False, ds=.1, nact=.4), 2), (dict(fails=.25, miss=.15, **POL3), 2),
         (dict(pu=.25, types=[1, 2, 3], pert=.7, ignt=.2), 1), (dict(n=(5, 9), steps=(20, 40), step=.9), 1),
         (dict(setpol=.5, sets=.3, clears=.15), 1)],
    C03=[(dict(fails=.4, miss=.3, **POL3), 3), (dict(fails=.5, miss=.5, step=1.2, n=(4, 7), **POL3), 2),
         (dict(fails=.3, miss=.3, wait=.2, order=.9, n=(4, 7), **POL3), 2), (dict(fails=.4, thr=1, honest=False, **POL3), 1)],
    C04=[(dict(abrt=.25, abortflag=.12, fails=.1), 3), (dict(abrt=.15, wait=.25, step=.8, **POL3), 2),
         (dict(wait=.4, inactive=.4), 2), (dict(abrt=.2, riders=.3, honest=False), 1)],
    C05=[(dict(riders=.7, honest=False, ds=.05), 3), (dict(riders=.7, riderset=1, honest=False, fails=.1), 2),
         (dict(riders=.8, honest=False, bad=.6, inactive=.3, **POL3), 2)])
PROJ = dict(C01='"fresh"', C02='"mask","log","cached"', C03='"fresh","exec","log"', C04='"exec","log","abort","cached"',
            C05='"cmd","exec"')
FAMS = dict(C01=[1, 4, 5, 9], C02=[1, 4, 9], C03=[2, 3, 6], C04=[7], C05=[8])
DEEP = dict(C01=[(1, 4), (4, 3), (5, 3), (3, 4), (9, 3)], C02=[(1, 4), (4, 3), (5, 3), (9, 3)], C03=[(2, 4), (3, 4), (6, 3)], C04=[(7, 4), (3, 4)],
            C05=[(8, 3)])


def cfg(fam, lev, ncfg, inv, maxset=1):
    return ("SPECIFICATION Spec\nCONSTANTS MAXSET = %d\nMAXLEV = %d\nFamily = %d\nExecNodes = {1,3}\nNCFG = %d\n"
            "INVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (maxset, lev, fam, ncfg, inv))


def trace_cfg(proj):
    return "SPECIFICATION Spec\nCONSTANT Proj = {%s}\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\n" % proj


def run(c):
    pid = c.pid
    c.build("h_meq")
    if c.quick:
        for f in FAMS[pid]:
            c.mc("MCForest", cfg(f, 3, 8 if f != 8 else 4, INV[pid]), timeout=300, extra=["-seed", str(c.seed)])
    else:
        for f, lev in DEEP[pid]:
            c.mc("MCForest", cfg(f, lev, 0, INV[pid]), timeout=600, need_complete=False)
    r = random.Random("%s-%d" % (pid, c.seed))
    total = 900 if c.quick else 16000
    w = sum(k for _, k in PROF[pid])
    sc = []
    for p, k in PROF[pid]:
        sc += [forest_gen.gen(r, p) for _ in range(total * k // w)]
    r.shuffle(sc)
    while sc:
        c.conform("random forests, histories of requests and state changes", "h_meq", "TraceForest",
                  trace_cfg(PROJ[pid]), sc[:2000])
        if c.viol:
            break
        sc = sc[2000:]
