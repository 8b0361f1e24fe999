#!/usr/bin/env python3
"""plant.py BUG.py...: makes seeded/<id> from a description (EDITS, PROP, NEEDS, BREAKS, DEMO, FLAGS) and tries it:
   builds, runs the stable tests, the demonstration with and without it, and the property's check.
   plant.py --check ID [PROP...]: runs the checks against an existing planted bug."""
import json, os, re, shutil, subprocess, sys
V, R = "/verif", "/repo"
sh = lambda c, **k: subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    sh("git -C %s checkout -- ." % R)
    assert not sh("git -C %s status --short" % R).stdout.strip()


def demo(d):
    r = sh("bash %s/demo.sh" % d, cwd=R)
    return r.returncode, r.stdout[-600:]


def checks(props):
    for p in props:
        r = sh("python3 %s/check.py %s" % (V, p), env=dict(os.environ, VERIF_TIER="quick", VERIF_SEED="1"))
        hit = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION property=%s " % p)]
        print("   check %s: exit %d, %d violations %s" % (p, r.returncode, len(hit), "CAUGHT" if r.returncode == 1 and hit else "MISSED"))
        for l in r.stdout.split("\n")[:3 if hit else 8]:
            print("      " + l[:260])


def main():
    if sys.argv[1] == "--check":
        d = os.path.join(V, "seeded", sys.argv[2])
        props = sys.argv[3:] or [json.load(open(d + "/meta.json"))["property"]]
        clean()
        try:
            assert sh("git -C %s apply %s/patch.diff" % (R, d)).returncode == 0
            checks(props)
        finally:
            clean()
        return
    for f in sys.argv[1:]:
        g = {}
        exec(open(f).read(), g)
        bid = os.path.basename(f)[:-3]
        d = os.path.join(V, "seeded", bid)
        os.makedirs(d, exist_ok=True)
        clean()
        try:
            for fn, old, new in g["EDITS"]:
                p = os.path.join(R, "include/boost/variant", fn)
                s = open(p).read()
                assert s.count(old) == 1, (fn, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
            open(d + "/demo.cpp", "w").write(g["DEMO"].lstrip("\n"))
            open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: the behaviour is right; 1: it is not\nd=$(cd "$(dirname "$0")" && pwd)\nt=$(mktemp -d)\ntrap \'rm -rf "$t"\' EXIT\n'
                                            'g++ %s -w -I include "$d/demo.cpp" -o "$t/demo" || exit 3\ntimeout 60 "$t/demo"\n' % g.get("FLAGS", "-std=c++14"))
            json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
            print("== %s (%s)" % (bid, g["PROP"]))
            print("   demo with:", demo(d))
            b = sh("bash /opt/vp/build.sh")
            sh("bash /opt/vp/test.sh /tmp/plant_out.json")
            ok = set(json.load(open("/tmp/plant_out.json"))["passed"])
            print("   build", b.returncode, "missing tests", [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in ok])
            if "--nocheck" not in os.environ.get("PLANT", ""):
                checks([g["PROP"]] + g.get("ALSO", []))
        finally:
            clean()
        print("   demo without:", demo(d), flush=True)


main()
