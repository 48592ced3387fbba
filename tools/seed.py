"""Planting bugs.
  seed.py plant ID PROPERTY HARNESS PKG < edits.json     {"needs":..., "what":..., "edits":[[file,old,new],...], "gen": "python expr giving a list of scripts (lists of lines)"}
      writes /verif/seeded/ID/patch.diff, finds by random search a script of harness commands whose answers differ
      from those of the unchanged tree, shrinks it, and writes demo.sh (stand-alone copy of the harness)
  seed.py try ID      applies it in /repo, builds, runs the stable tests, the demo and the property's quick check, undoes it
"""
import json, os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import vlib
R = "/repo"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def undo():
    sh("git -C /repo checkout -- .")


DEMO = r'''#!/bin/bash
# %(what)s
# compiles the driver beside this file against the libraries built in /repo/build/release and compares its answers
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
B=$PWD/build/release
printf '%%s\n' '#pragma once' '#include <cstdint>' > $W/none.h
g++ -DHAVE_AIPSPP -DHAVE_QDBM -DMAKE_LOFAR_SYMBOLS_GLOBAL -DSTRIP_CUDA -DUSE_STD_COMPLEX -DUSE_THREADS -D_GNU_SOURCE \
  -I$B/%(pkg)s -I"$D" -I$B/include -I/usr/include/casacore -I/usr/lib/python3/dist-packages/numpy/core/include -I/usr/include/python3.12 \
  -include /opt/vp/cmake/compat.h -DIMPLICIT_CTDS_32BIT -DNDEBUG -w -O1 -fPIC -std=c++17 -fpermissive -rdynamic -o $W/demo "$D/%(h)s.cc" \
  -Wl,--no-as-needed %(libs)s || exit 2
cd $W
for k in $(seq %(repeat)s); do
  timeout 100 ./demo < "$D/script.txt" > out0.txt 2>err.txt
  rc=$?
  python3 -c '
import json,re,sys
F=sys.argv[1].split(",") if sys.argv[1] else []
for l in sys.stdin:
    if F and l[:1]=="{":
        j=json.loads(l); print(json.dumps({f:j[f] for f in F if f in j}))
    else: print(re.sub(r"[.]cc:[0-9]+",".cc",l),end="")' "%(fields)s" < out0.txt > out.txt
  diff "$D/expect.txt" out.txt > diff.txt && [ $rc = 0 ] && continue
  echo "answers differ (exit code of the driver: $rc)"; head -5 diff.txt
  exit 1
done
exit 0
'''
LIBS = {"MEQ": ["MEQ/libmeq.so", "OCTOPython/octopython.so", "OCTOPUSSY/liboctopussy.so", "DMI/libdmi.so", "TimBase/libtimbase.so"]}
LIBS["OCTOPUSSY"] = LIBS["MEQ"][2:]
LIBS["DMI"] = LIBS["MEQ"][3:]
LIBS["MeqNodes"] = ["MeqNodes/libmeqnodes.so", "MEQ/libmeq.so", "VisCube/libviscube.so"] + LIBS["MEQ"][1:]
LIBS["MeqServer"] = ["MeqServer/libmeqserver.so", "AppAgent/AppUtils/libapputils.so", "AppAgent/AppAgent/libappagent.so"] + LIBS["MeqNodes"]
CASA = " ".join("-lcasa_" + x for x in "images mirlib coordinates lattices msfits ms fits measures tables scimath scimath_f casa".split())
SYS = {"MEQ": CASA + " -llapack -lqdbm -lpython3.12 -lutil -ldl -lblitz -lpthread", "OCTOPUSSY": "-lpthread -ldl", "DMI": "-lpthread -ldl"}
SYS["MeqNodes"] = SYS["MeqServer"] = SYS["MEQ"]


def libs(pkg):
    return " ".join("-L$B/%s -Wl,-rpath,$B/%s $B/%s" % (os.path.dirname(x), os.path.dirname(x), x) for x in LIBS[pkg]) + " " + SYS[pkg]


def answers(binary, lines, fields=None):
    o, rc = answers0(binary, lines)
    if fields:
        o = "".join(json.dumps({f: j[f] for f in fields if f in j}) + "\n" for j in map(json.loads, filter(None, o.split("\n"))))
    return o, rc


def answers0(binary, lines):
    d = vlib.tmpdir("seed")
    try:
        o, e, rc = vlib.run_proc([binary], "\n".join(lines) + "\n", 60, None, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return o, rc


def keep_binary(tag, h):
    """a private copy of the harness and its libraries"""
    d = "/tmp/seedbin-" + tag
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    b = os.path.join(vlib.VH, h)
    o = sh("ldd " + b).stdout
    for m in re.finditer(r"=> (/verif/build/\S+)", o):
        shutil.copy(m.group(1), d)
    shutil.copy(b, d)
    w = os.path.join(d, "run.sh")
    with open(w, "w") as f:
        f.write("#!/bin/sh\nLD_LIBRARY_PATH=%s exec %s/%s\n" % (d, d, h))
    os.chmod(w, 0o755)
    sh("patchelf --remove-rpath %s/%s" % (d, h))
    for f in os.listdir(d):
        if f.endswith(".so") or f == h:
            pass
    return w


def plant(sid, pid, h, pkg):
    J = json.load(sys.stdin)
    undo()
    d = os.path.join(V, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    for f, old, new in J["edits"]:
        p = os.path.join(R, f)
        s = open(p, encoding="latin1").read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w", encoding="latin1").write(s.replace(old, new))
    open(os.path.join(d, "patch.diff"), "w", encoding="latin1").write(
        subprocess.run("git -C /repo diff", shell=True, stdout=subprocess.PIPE).stdout.decode("latin1"))
    json.dump({"property": pid, "needs": J["needs"], "what_it_breaks": J["what"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    try:
        vlib.build(h)
        mut = os.path.join(vlib.VH, h)
        env = {}
        exec(J["gen"], env)
        scripts = env["scripts"]           # list of lists of lines
        A = []
        scripts = [J.get("prologue", []) + s for s in scripts]
        FI, rep = J.get("fields"), J.get("repeat", 1)
        for s in scripts:
            A.append([answers(mut, s, FI) for _ in range(rep)])
            if "good" in J and A[-1].count(A[-1][0]) < rep:
                scripts = scripts[:len(A)]
                break
    finally:
        undo()
    vlib.build(h)
    good = os.path.join(vlib.VH, h)
    cand = None
    for s, B in zip(scripts, A):
        g, grc = answers(good, s, FI)
        assert grc == 0, "unchanged tree fails: " + str(s)
        d1 = [x for x in B if x != (g, 0)]
        if len(d1) * 5 > rep * 2 or (rep == 1 and d1):
            cand = s
            o, rc = d1[0]
            break
    if cand is None:
        print("NO DIFFERENCE FOUND in", len(scripts))
        return 1
    # cut the script after the first difference
    g, _ = answers(good, cand, FI)
    k = 0
    for a, b in zip(g.split("\n"), o.split("\n")):
        if a != b:
            break
        k += 1
    if rep == 1:
        cand = cand[:k + 1 if rc == 0 else len(cand)]
    g, _ = answers(good, cand, FI)
    open(os.path.join(d, "script.txt"), "w").write("\n".join(cand) + "\n")
    open(os.path.join(d, "expect.txt"), "w").write(g)
    for f in (h + ".cc", "vutil.h", "vexc.h"):
        shutil.copy(os.path.join(V, "harness", f), d)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % dict(repeat=J.get("demo_repeat", 1), fields=",".join(FI or []), what=J["what"].replace("\n", " "), pkg=pkg, h=h, libs=libs(pkg)))
    print("planted", sid, "script of", len(cand), "lines; first difference:")
    print(" good", (g.split("\n")[:k + 1] or [""])[-1][:300])
    print(" bad ", o.split("\n")[k][:300] if k < len(o.split("\n")) else "", rc)


def try_(sid, tests=True):
    d = os.path.join(V, "seeded", sid)
    pid = json.load(open(os.path.join(d, "meta.json")))["property"]
    undo()
    r = sh("git -C /repo apply %s/patch.diff" % d)
    res = {"applies": r.returncode == 0}
    try:
        b = sh("bash /opt/vp/build.sh")
        res["builds"] = b.returncode == 0
        if b.returncode:
            print(b.stdout[-2000:])
        if tests:
            sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            j = json.load(open("/tmp/seedtest.json"))
            st = json.load(open("/opt/vp/BASELINE.json"))["stable"]
            res["lost"] = [x for x in st if x not in j["passed"]]
        res["demo"] = sh("timeout 300 bash %s/demo.sh" % d, cwd=R).returncode
        o = sh("%s/check.sh %s quick" % (V, pid), cwd=V)
        res["check"] = o.returncode
        print("\n".join(o.stdout.split("\n")[-3:])[:300])
    finally:
        undo()
        sh("bash /opt/vp/build.sh")
    res["demo_clean"] = sh("timeout 300 bash %s/demo.sh" % d, cwd=R).returncode
    ok = res["applies"] and res["builds"] and not res.get("lost") and res["demo"] not in (0, None) and res["demo_clean"] == 0
    print(sid, pid, "VALID" if ok else "INVALID", "CAUGHT" if res["check"] == 1 else "MISSED", res)
    open(os.path.join(V, "build", "seedlog.txt"), "a").write("%s %s %s %s %s\n" % (sid, pid, ok, res["check"], res))


if __name__ == "__main__":
    if sys.argv[1] == "plant":
        sys.exit(plant(*sys.argv[2:]))
    else:
        for s in sys.argv[2:]:
            try_(s)
