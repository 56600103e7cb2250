#!/usr/bin/env python3
# Development helper: plants bugs described in a python file (list BUGS) into /verif/seeded after confirming them.
# Each bug: dict(id, prop, edits=[(file, old, new)], pkg, test (Go source of TestDemo incl. package clause), needs, breaks)
import json, os, re, subprocess, sys, shutil, importlib.util
spec = importlib.util.spec_from_file_location("b", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
only = sys.argv[2:]
WT = "/tmp/plantwt"
env = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local")
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, env=env, **k)
if not os.path.isdir(WT): sh("cp -a /repo " + WT)
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp -d)
trap 'rm -rf "$o"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
echo '{"Replace":{"'"$PWD"'/%s/zz_demo_test.go":"'"$d"'/demo_test.go.txt"}}' > "$o/overlay.json"
go test -overlay "$o/overlay.json" -vet=off -run '^TestDemo$' -count=1 -timeout 120s ./%s
'''
for b in m.BUGS:
    if only and b["id"] not in only: continue
    d = "/verif/seeded/" + b["id"]
    if os.path.exists(d) and not only: continue
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq", cwd=WT)
    tmp = "/tmp/plantd/" + b["id"]; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    open(tmp + "/demo.sh", "w").write(DEMO % (b["pkg"], b["pkg"])); os.chmod(tmp + "/demo.sh", 0o755)
    open(tmp + "/demo_test.go.txt", "w").write(b["test"])
    r = sh("bash %s/demo.sh" % tmp, cwd=WT)
    if r.returncode: print(b["id"], "DEMO FAILS CLEAN", r.stdout[-1500:], r.stderr[-800:]); continue
    bad = False
    for f, old, new in b["edits"]:
        s = open(WT + "/" + f).read()
        if s.count(old) < 1: print(b["id"], "no match", f, old); bad = True; break
        if s.count(old) > 1 and not old.startswith("@"): print(b["id"], "ambiguous", f, s.count(old), old); bad = True; break
        open(WT + "/" + f, "w").write(s.replace(old, new))
    if bad: continue
    r = sh("gofmt -l pkg internal; go build ./...", cwd=WT)
    if r.returncode or r.stdout.strip(): print(b["id"], "BUILD/FMT", r.stdout, r.stderr[-600:]); 
    if r.returncode: continue
    r = sh("go test -vet=off -count=1 ./... 2>&1 | grep -v '^ok\\|no test files'", cwd=WT)
    if r.stdout.strip(): print(b["id"], "TESTS FAIL", r.stdout[:700]); continue
    r = sh("bash %s/demo.sh" % tmp, cwd=WT)
    if r.returncode == 0: print(b["id"], "DEMO PASSES WITH BUG"); continue
    p = sh("git diff", cwd=WT).stdout
    open(tmp + "/patch.diff", "w").write(p)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(tmp + "/meta.json", "w"), indent=1)
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(tmp, d)
    print(b["id"], "planted")
sh("git checkout -q -- .", cwd=WT)
