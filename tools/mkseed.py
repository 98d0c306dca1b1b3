#!/usr/bin/env python3
"""mkseed.py SPEC.py: makes a planted bug in /verif/seeded/<id> from a spec and verifies it in a scratch copy.
The spec is Python defining id, prop, needs, breaks, edits=[(file, old, new)], demo (Go source of package main)."""
import sys, os, subprocess, shutil, json, re
V = "/verif"
DEMO = '''#!/bin/bash
# Builds and runs demo.go against the tree in the current directory: 0 if it behaves, 1 if not.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'cd /; rm -rf "$d"' EXIT
cp "$here/demo.go" "$d/main.go" && cp "$repo/go.sum" "$d/go.sum"
sed 's/^module .*/module demo/' "$repo/go.mod" > "$d/go.mod"
printf '\\nrequire github.com/spdx/tools-golang v0.0.0\\nreplace github.com/spdx/tools-golang => %s\\n' "$repo" >> "$d/go.mod"
cd "$d" && export GOFLAGS=-mod=mod GOWORK=off GOPROXY=off && go build -o demo . || exit 3
timeout 120 ./demo
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def one(spec):
    ns = {}
    exec(open(spec).read(), ns)
    sw = "/tmp/sw_" + ns["id"]
    shutil.rmtree(sw, ignore_errors=True)
    sh("cp -a /repo %s" % sw)
    try:
        out = os.path.join(V, "seeded", ns["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/demo.go", "w").write(ns["demo"])
        open(out + "/demo.sh", "w").write(DEMO)
        os.chmod(out + "/demo.sh", 0o755)
        r0 = sh("bash %s/demo.sh" % out, cwd=sw)
        for f, a, b in ns["edits"]:
            p = os.path.join(sw, f)
            s = open(p).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(p, "w").write(s.replace(a, b))
        d = sh("git diff", cwd=sw).stdout
        # no line added by our own fix commits may be touched
        removed = [l[1:] for l in d.splitlines() if l.startswith("-") and not l.startswith("---")]
        mine = set(l[1:] for l in sh("git diff 8f332b0 HEAD", cwd="/repo").stdout.splitlines() if l.startswith("+") and not l.startswith("+++"))
        warn = [l for l in removed if l in mine and l.strip() not in ("", "}", "{")]
        open(out + "/patch.diff", "w").write(d)
        json.dump(dict(property=ns["prop"], needs=ns["needs"], what_it_breaks=ns["breaks"]), open(out + "/meta.json", "w"), indent=1)
        r1 = sh("bash %s/demo.sh" % out, cwd=sw)
        b = sh(". /opt/vp/env.sh; gofmt -l $(git diff --name-only); go build ./... && go test ./... 2>&1 | grep -v '^ok\\|no test files' | head -20", cwd=sw)
        ok = r0.returncode == 0 and r1.returncode not in (0, 3) and b.stdout.strip() == "" and b.returncode == 0
        print(ns["id"], "OK" if ok else "BAD", "demo:", r0.returncode, r1.returncode, "tests:", b.stdout[:600], b.stderr[:300], "TOUCHES FIX LINES %s" % warn if warn else "")
        if not ok: print(r0.stdout[-500:], r0.stderr[-800:], "----", r1.stdout[-500:], r1.stderr[-800:])
        else:
            env = dict(os.environ, VERIF_REPO=sw, VERIF_DIR="/tmp/vd_" + ns["id"])
            os.makedirs(env["VERIF_DIR"], exist_ok=True)
            shutil.copy(V + "/known-findings.txt", env["VERIF_DIR"])
            c = subprocess.run(["/verif/bin/checker", "-prop", ns["prop"]], capture_output=True, text=True, env=env)
            lines = [l for l in c.stdout.splitlines() if "violated" in l or "VIOLATION" in l]
            print("   check %s: %s" % (ns["prop"], "CAUGHT" if c.returncode == 1 else "MISSED rc=%d" % c.returncode), "; ".join(lines)[:300])
            shutil.rmtree(env["VERIF_DIR"])
    finally:
        shutil.rmtree(sw, ignore_errors=True)
for s in sys.argv[1:]: one(s)
