#!/usr/bin/env python3
"""mkseed.py [ID...]: turns the recipes in tools/seeds.py into /verif/seeded/<id>/ (patch, demo kit, meta) and validates them:
the demo passes on the unchanged tree and fails on a scratch copy with the patch.  mkseed.py --checks [ID...] additionally
applies each patch to /repo, runs build, stable tests and the check of its property, and undoes it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(V, "tools/seeds.py")).read(), ns)
SEEDS = ns["SEEDS"]
DEMO = '''#!/bin/bash
# Builds a small program from the sources in the current directory and runs it: exit 0 iff the property held.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp -r "$here" "$tmp/kit" || exit 2
export KV_REPO="$PWD"
exe=$(python3 "$tmp/kit/mc/build_demo.py" "$tmp/kit/unit.json") || exit 3
timeout 250 "$exe" --shard 0/1 --property demo --replay-dir "$tmp" --known /dev/null
rc=$?
[ $rc -eq 0 ] && echo "demo: held"
exit $rc
'''
BUILD_DEMO = '''import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
u = json.load(open(sys.argv[1]))
print(B.Builder(u["variant"]).build("demo.bin", ["demo.cc"], u.get("tus", "auto"), (), u.get("optional", ()), unused=u.get("unused")))
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def scratch_repo():
    d = tempfile.mkdtemp(prefix="kvseed")
    r = os.path.join(d, "repo")
    subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", r])
    return d, r


def make(s):
    d, r = scratch_repo()
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(r, f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "-C", r, "diff"]).stdout
        out = os.path.join(V, "seeded", s["id"])
        if os.path.exists(out):
            shutil.rmtree(out)
        os.makedirs(out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        os.makedirs(out + "/mc")
        for f in ("mc/build.py", "mc/mc.h", "mc/rt.cc"):
            shutil.copy(os.path.join(V, f), os.path.join(out, f))
        shutil.copytree(os.path.join(V, "mc/include"), out + "/mc/include")
        if s.get("variant", "seq").startswith("dist"):
            shutil.copytree(os.path.join(V, "mc/include_mpi"), out + "/mc/include_mpi")
        shutil.copytree(os.path.join(V, "compat"), out + "/compat")
        os.makedirs(out + "/checks")
        for f in os.listdir(os.path.join(V, "checks")):
            if f.endswith(".h"):
                shutil.copy(os.path.join(V, "checks", f), out + "/checks/" + f)
        open(out + "/mc/build_demo.py", "w").write(BUILD_DEMO)
        shutil.copy(os.path.join(V, "tools/demos", s.get("demo", s["id"]) + ".cc"), out + "/demo.cc")
        json.dump({k: s[k] for k in ("variant", "tus", "optional", "unused") if k in s} | {"variant": s.get("variant", "seq")}, open(out + "/unit.json", "w"))
        open(out + "/demo.sh", "w").write(DEMO)
        os.chmod(out + "/demo.sh", 0o755)
        a = sh(["bash", out + "/demo.sh"], cwd="/repo")
        b = sh(["bash", out + "/demo.sh"], cwd=r)
        ok = a.returncode == 0 and b.returncode not in (0, 2, 3, 124)
        print("%s demo: unchanged %d, patched %d %s" % (s["id"], a.returncode, b.returncode, "OK" if ok else "BAD"))
        if not ok:
            print(a.stdout[-1500:], "-----\n", b.stdout[-1500:])
        else:
            print("   ", b.stdout.strip().splitlines()[-1][:200])
        return ok
    finally:
        shutil.rmtree(d)


def check(s):
    p = os.path.join(V, "seeded", s["id"], "patch.diff")
    assert sh(["git", "-C", "/repo", "status", "--porcelain", "-uno"]).stdout.strip() == ""
    subprocess.check_call(["git", "-C", "/repo", "apply", p])
    try:
        b = sh(["bash", "/opt/vp/build.sh"])
        t = sh(["bash", "/opt/vp/test.sh", "/tmp/kvseed.json"])
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        res = json.load(open("/tmp/kvseed.json"))
        passed = set(res.get("passed", res if isinstance(res, list) else []))
        c = sh(["python3", "mc/run.py", s["property"]], cwd=V)
        rp = os.path.join(V, "tools/seed_results.json")
        res = json.load(open(rp)) if os.path.exists(rp) else {}
        res[s["id"]] = (s["property"] + ": " + next((l[7:150] for l in c.stdout.splitlines() if l.startswith("FAILED")), "violation")) if c.returncode == 1 else "MISSED"
        json.dump(res, open(rp, "w"), indent=1, sort_keys=True)
        lines = [l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", "FAILED", "ERROR"))][:3]
        print("%s tests %s; check %s exit %d %s" % (s["id"], "pass" if base <= passed else "FAIL %s" % sorted(base - passed)[:3], s["property"], c.returncode, " | ".join(lines)[:300]))
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])


args = [a for a in sys.argv[1:] if not a.startswith("-")]
for s in SEEDS:
    if args and s["id"] not in args:
        continue
    if "--only-checks" not in sys.argv:
        make(s)
    if "--checks" in sys.argv or "--only-checks" in sys.argv:
        check(s)
if "--checks" in sys.argv or "--only-checks" in sys.argv:
    sh(["bash", "/opt/vp/build.sh"])
