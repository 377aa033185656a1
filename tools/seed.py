#!/usr/bin/env python3
"""seed.py make SPEC.py [id..]: makes /verif/seeded/<id>/ from specs after confirming them in a scratch copy.
   seed.py catch [id..]: applies each seeded patch to /repo, runs its property's check, undoes it; prints who catches.
SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)..], needs, breaks, pkg, test)]; test is a Go test file
(external or internal package) laid into pkg by an overlay; it must define TestDemo."""
import json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENVSH = ". /opt/vp/env.sh; "
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken
. /opt/vp/env.sh
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"; trap 'rm -r "$tmp"' EXIT
printf '{"Replace": {"%%s/%(pkg)s/zz_demo_test.go": "%%s/demo_test.go.txt"}}' "$PWD" "$here" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -count=1 %(flags)s -run '^TestDemo$' ./%(pkg)s
'''
def sh(cmd, cwd, **k):
    return subprocess.run(["bash", "-c", ENVSH + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tests(cwd):
    bad = set(); good = set()
    r = sh("go test -json ./... ; cd codec 2>/dev/null && go test -json ./...", cwd)
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Test") and e.get("Action") in ("pass", "fail"):
            (good if e["Action"] == "pass" else bad).add(e["Package"] + "::" + e["Test"])
    return good, bad
def make(spec, ids):
    g = {}; exec(open(spec).read(), g)
    for s in g["SEEDS"]:
        if ids and s["id"] not in ids: continue
        d = os.path.join(V, "seeded", s["id"]); w = tempfile.mkdtemp(prefix="seedw-"); t = os.path.join(w, "repo")
        try:
            subprocess.check_call(["cp", "-a", "/repo", t])
            subprocess.check_call(["git", "-C", t, "checkout", "-q", "--", "."])
            out = os.path.join(w, "out"); os.mkdir(out)
            ok = True
            with open(out + "/demo.sh", "w") as f: f.write(DEMO % dict(pkg=s["pkg"], flags=s.get("flags", "")))
            with open(out + "/demo_test.go.txt", "w") as f: f.write(s["test"])
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(out + "/meta.json", "w"), indent=1)
            r = sh("timeout 280 bash %s/demo.sh" % out, t)
            if r.returncode != 0:
                print(s["id"], "DEMO FAILS ON CLEAN TREE\n", r.stdout[-1500:]); continue
            for fn, old, new in s["edits"]:
                p = os.path.join(t, fn); x = open(p).read()
                if x.count(old) != 1:
                    print(s["id"], "EDIT", fn, "matches", x.count(old)); ok = False; break
                open(p, "w").write(x.replace(old, new))
            if not ok: continue
            diff = subprocess.run(["git", "-C", t, "diff"], stdout=subprocess.PIPE, text=True).stdout
            # the changed lines must be lines of the original repository
            removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            base = subprocess.run("for f in %s; do git -C %s show ef9a552:$f; done" % (" ".join(sorted({e[0] for e in s["edits"]})), t), shell=True, stdout=subprocess.PIPE, text=True).stdout.splitlines()
            notorig = [l for l in removed if l.strip() and l not in base]
            if notorig: print(s["id"], "note: changes lines not in the base:", notorig[:3])
            if not [l for l in removed if l in base and l.strip()]: print(s["id"], "note: removes no original line")
            r = sh("go build ./... && go vet ./%s" % s["pkg"], t)
            if r.returncode != 0: print(s["id"], "BUILD", r.stdout[-1500:]); continue
            good, bad = tests(t)
            b = json.load(open("/opt/vp/BASELINE.json"))
            base = set(b.get("passed") or b.get("pass") or b.get("stable"))
            if bad: print(s["id"], "TESTS FAIL", sorted(bad)[:5]); continue
            r = sh("timeout 280 bash %s/demo.sh" % out, t)
            if r.returncode == 0: print(s["id"], "DEMO PASSES WITH PATCH"); continue
            if "build failed" in r.stdout: print(s["id"], "DEMO BUILD", r.stdout[-800:]); continue
            open(out + "/patch.diff", "w").write(diff)
            if os.path.isdir(d): shutil.rmtree(d)
            shutil.copytree(out, d)
            print(s["id"], "ok")
        finally:
            shutil.rmtree(w)
def catch(ids):
    sd = os.path.join(V, "seeded")
    for i in sorted(os.listdir(sd)):
        if ids and i not in ids: continue
        m = json.load(open(os.path.join(sd, i, "meta.json")))
        if subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], stdout=subprocess.PIPE, text=True).stdout:
            sys.exit("/repo is not clean")
        try:
            subprocess.check_call(["git", "-C", "/repo", "apply", os.path.join(sd, i, "patch.diff")])
            r = subprocess.run(["python3", os.path.join(V, "check.py"), m["property"], "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = "VIOLATION property=%s " % m["property"] in r.stdout
            print(i, m["property"], "CAUGHT" if r.returncode == 1 and v else "missed rc=%d" % r.returncode, flush=True)
            if os.environ.get("SHOW"): print(r.stdout[-int(os.environ["SHOW"]):])
        finally:
            subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
if sys.argv[1] == "make": make(sys.argv[2], sys.argv[3:])
else: catch(sys.argv[2:])
