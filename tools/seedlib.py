"""Plants a bug in a scratch copy of /repo, confirms it and stores it under seeded/."""
import os, shutil, subprocess, json, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# Runs main.go against the package in the current directory; exit 0 when the property holds.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
cp "$here/main.go" "$work/main.go"
cat > "$work/go.mod" <<MOD
module demo

go 1.15

require github.com/ecoshub/jin v0.0.0

replace github.com/ecoshub/jin => $repo
MOD
cd "$work"
GOFLAGS=-mod=mod GOPROXY=off GOWORK=off timeout 120 go run .
'''
PRE = '''package main

import (
	"fmt"
	"os"

	"github.com/ecoshub/jin"
)

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\\n", a...)
	os.Exit(1)
}

var _ = jin.Get

'''
def sh(cmd, cwd, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)
def seed(id, prop, edits, demo, needs, breaks, pre=True, tests=True):
    w = tempfile.mkdtemp(prefix="seed")
    r = os.path.join(w, "repo")
    sh(f"cp -a /repo {r}", "/")
    try:
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            cnt = s.count(old)
            if cnt != 1:
                print(id, "EDIT MATCHES", cnt, "in", f, repr(old[:60])); return False
            open(p, "w").write(s.replace(old, new))
        d = sh("git diff", r).stdout
        b = sh("go build ./... && go vet . 2>&1 | head -3; go build ./...", r)
        if b.returncode: print(id, "BUILD", b.stdout, b.stderr); return False
        dd = os.path.join(ROOT, "seeded", id)
        os.makedirs(dd, exist_ok=True)
        open(dd + "/patch.diff", "w").write(d)
        open(dd + "/demo.sh", "w").write(DEMO_SH); os.chmod(dd + "/demo.sh", 0o755)
        open(dd + "/main.go", "w").write((PRE if pre else "") + demo)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(dd + "/meta.json", "w"), indent=1)
        good = sh(f"bash {dd}/demo.sh", "/repo")
        bad = sh(f"bash {dd}/demo.sh", r)
        ok = good.returncode == 0 and bad.returncode != 0
        t = ""
        if tests:
            # the stable tests, in the scratch copy
            base = json.load(open("/opt/vp/BASELINE.json"))
            x = sh("GOFLAGS=-mod=mod go test -timeout 100s -json -vet=off -count=1 ./... 2>&1", r)
            failed = set()
            for l in x.stdout.splitlines():
                try: e = json.loads(l)
                except Exception: continue
                if e.get("Action") == "fail" and e.get("Test"): failed.add(e["Package"] + "/" + e["Test"])
            failed &= set(base["stable"])
            t = f"tests failed: {sorted(failed)}" if failed else "tests pass"
            if "FAIL" in x.stdout and not failed: t = "TESTS: " + x.stdout[-300:]
            if failed: ok = False
        env = dict(os.environ, VERIF_REPO=r)
        c = subprocess.run(f"./check.sh {prop}", shell=True, cwd=ROOT, capture_output=True, text=True, env=env)
        caught = c.returncode == 1 and f"VIOLATION property={prop}" in c.stdout
        print(f"{id} [{prop}] demo good={good.returncode} bad={bad.returncode} ({bad.stdout.strip()[:80]}{bad.stderr.strip()[-120:] if bad.returncode>1 or not bad.stdout else ''}) {t} -> {'CAUGHT' if caught else 'MISSED rc=%d' % c.returncode}")
        print("    " + "\n    ".join(c.stdout.splitlines()[:3])[:400])
        if good.returncode: print(good.stdout, good.stderr)
        if not ok: print("   *** NOT KEPT"); shutil.rmtree(dd)
        return ok
    finally:
        shutil.rmtree(w)
