"""helper to write a planted bug /verif/seeded/<id>/ and to try one:
   from mkbug import bug;  bug(id, prop, [(file, old, new)], needs, breaks, demo_cc, flags)
   python3 mkbug.py try <id>...      (build, tests, demo, check with and without the patch)"""
import sys, os, json, subprocess, tempfile, shutil
REPO = "/repo"; SEED = "/verif/seeded"
DEMO = '''#!/bin/bash
# exit 0 when the property holds; run from the repository root
d=$(cd "$(dirname "$0")" && pwd); r=$(pwd)
t=$(mktemp -d); exe=$t/demo
g++ -std=c++14 -DGCC -w %(flags)s "$d/demo.cc" -o "$exe" -llapack -lblas; rc=$?
if [ $rc = 0 ]; then timeout 120 "$exe"; rc=$?; fi
rm -f "$exe"; rmdir "$t"; exit $rc
'''
INC = "-I$r/common/include -I$r/common/src -I$r/Radau5-NG/include -I$r/Rodas-NG/include -I$r/SDIRKL/include -I$r/SDIRKL/test/Lapl -I$r/SymplecticRK/include -I$r/SymplecticRK/sage"
def bug(id, prop, edits, needs, breaks, demo, flags="-O1 " + INC):
    d = os.path.join(SEED, id); os.makedirs(d, exist_ok=True)
    assert subprocess.run(["git", "-C", REPO, "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout == ""
    for f, old, new in edits:
        p = os.path.join(REPO, f); t = open(p).read()
        assert t.count(old) == 1, (id, f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", REPO, "diff"], capture_output=True, text=True).stdout
    subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."], check=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.cc", "w").write(demo)
    open(d + "/demo.sh", "w").write(DEMO % dict(flags=flags)); os.chmod(d + "/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def trybug(id, tests=True, extra=()):
    d = os.path.join(SEED, id); m = json.load(open(d + "/meta.json")); out = [id, m["property"]]
    r = sh("bash %s/demo.sh" % d, cwd=REPO); out.append("demo0=%d" % r.returncode)
    if r.returncode: print(r.stdout[-500:], r.stderr[-800:])
    a = sh("git apply %s/patch.diff" % d, cwd=REPO); assert a.returncode == 0, a.stderr
    try:
        r = sh("bash %s/demo.sh" % d, cwd=REPO); out.append("demo1=%d" % r.returncode); o = r.stdout[-300:]
        if tests:
            b = sh("bash /opt/vp/build.sh"); out.append("build=%d" % b.returncode)
            sh("bash /opt/vp/test.sh /tmp/bug.json"); t = json.load(open("/tmp/bug.json"))
            base = json.load(open("/opt/vp/BASELINE.json")); st = base.get("stable", base.get("passed", [])) if isinstance(base, dict) else base
            bad = [x for x in t["failed"] if x not in ("Radau5-NG/BZ", "SymplecticRK/Kepler2")]
            out.append("tests=%s" % ("ok" if not bad else bad))
        for c in (m["property"],) + tuple(extra):
            if os.path.exists("/verif/props/%s.py" % c):
                r = sh("python3-vt /verif/check.py %s quick" % c, cwd="/verif")
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                out.append("%s=%d %s" % (c, r.returncode, v[:1]))
    finally:
        sh("git checkout -q -- .", cwd=REPO)
    print(*out, flush=True); print("   ", o.strip().replace("\n", " / "))
if __name__ == "__main__":
    if sys.argv[1] == "try":
        a = sys.argv[2:]; t = "--notests" not in a
        for i in [x for x in a if not x.startswith("--")]: trybug(i, t)
