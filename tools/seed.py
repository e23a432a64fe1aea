#!/usr/bin/env python3
"""seed.py FILE...: (re)creates planted bugs from seed descriptions and tries them.
Each FILE is python: seed(id, property, edits=[(path, old, new)...], demo=gotest source, pkg, helper, needs, breaks)"""
import json, os, subprocess, sys
V = "/verif"; R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
seeds = []
def seed(id, property, edits, demo, pkg="pkg/scsi", helper="scsi_helper.go.txt", needs="", breaks=""):
    seeds.append(dict(id=id, property=property, edits=edits, demo=demo, pkg=pkg, helper=helper, needs=needs, breaks=breaks))
args = sys.argv[1:]
only = None
notest = "--notest" in args
args = [a for a in args if a != "--notest"]
if "--only" in args:
    i = args.index("--only"); only = args[i+1].split(","); del args[i:i+2]
for f in args: exec(open(f).read())
def clean():
    sh("git -C %s checkout -- ." % R)
assert sh("git -C %s status --short" % R).stdout == "", "repo dirty"
base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
try:
  for s in seeds:
    if only and s["id"] not in only: continue
    d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
    lib = os.path.join(V, "tools", "seedlib")
    open(os.path.join(d, "demo.sh"), "w").write(open(os.path.join(lib, "demo.sh")).read().replace("PKG", s["pkg"]))
    open(os.path.join(d, "helper.go.txt"), "w").write(open(os.path.join(lib, s["helper"])).read())
    open(os.path.join(d, "demo.go.txt"), "w").write(s["demo"])
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    p = sh("cd %s && bash %s/demo.sh" % (R, d))
    res = ["clean demo " + ("ok" if p.returncode == 0 else "FAILS\n" + p.stdout[-1500:] + p.stderr[-1500:])]
    for path, old, new in s["edits"]:
        t = open(os.path.join(R, path)).read()
        assert t.count(old) == 1, (s["id"], path, t.count(old), old)
        open(os.path.join(R, path), "w").write(t.replace(old, new))
    g = sh("cd %s && gofmt -l pkg cmd" % R).stdout.split()
    open(os.path.join(d, "patch.diff"), "w").write(sh("git -C %s diff" % R).stdout)
    b = sh("bash /opt/vp/build.sh")
    res.append("build " + ("ok" if b.returncode == 0 else "FAILS " + b.stderr[-800:]))
    if not notest:
        sh("bash /opt/vp/test.sh /tmp/seedt.json")
        got = set(json.load(open("/tmp/seedt.json"))["passed"])
        miss = [x for x in base if x not in got]
        res.append("tests " + ("ok" if not miss else "FAIL %s" % miss[:4]))
    p = sh("cd %s && bash %s/demo.sh" % (R, d))
    res.append("demo " + ("shows it" if p.returncode else "DOES NOT SHOW IT"))
    if "[build failed]" in p.stdout: res.append("DEMO DOES NOT BUILD")
    c = sh("cd %s && bash run.sh %s quick" % (V, s["property"]))
    res.append("check " + ("CATCHES" if c.returncode == 1 and "VIOLATION property=%s " % s["property"] in c.stdout else "misses (rc %d)" % c.returncode))
    v = [l for l in c.stdout.splitlines() if l.startswith("violated")]
    clean()
    print(s["id"], s["property"], "; ".join(res), (v[0] if v else "")[:150], flush=True)
finally:
    clean()
    sh("bash /opt/vp/build.sh")
