#!/usr/bin/env python3
"""Makes and verifies planted bugs: seed.py SPEC.py [ID...]

A spec file defines seeds = [dict(id, prop, edits=[(file, old, new)], needs, breaks, test=Go source,
pkg="."/"./sqlite", replace="gate_test.go")]. Each is confirmed in a scratch copy of /repo: it builds,
the stable tests pass, the demonstration passes without it and fails with it. Then it is written to
/verif/seeded/<id>/. Used by hand only; no check reads the result."""
import json, os, subprocess, sys, shutil, tempfile

ENV = ". /opt/vp/env.sh; "
DEMO = '''#!/bin/bash
# exits 0 if the property holds for the demonstrated history, 1 if not
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
o=$(mktemp -d)
trap 'rm -rf "$o"' EXIT
export TMPDIR="$o"
printf '{"Replace":{"%%s/%s":"%%s/demo_test.go"}}' "$PWD" "$d" > "$o/overlay.json"
go test -vet=off -count=1 -timeout 200s -overlay "$o/overlay.json" -run '^TestDemo$' %s
'''

def sh(cmd, cwd):
    return subprocess.run(["bash", "-c", ENV + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    want = sys.argv[2:]
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    for s in spec["seeds"]:
        if want and s["id"] not in want:
            continue
        w = tempfile.mkdtemp(prefix="seed")
        r = w + "/repo"
        shutil.copytree("/repo", r, symlinks=True)
        d = w + "/demo"
        os.mkdir(d)
        pkg = s.get("pkg", ".")
        rep = os.path.normpath(os.path.join(pkg, s.get("replace", "gate_test.go")))
        open(d + "/demo_test.go", "w").write(s["test"])
        open(d + "/demo.sh", "w").write(DEMO % (rep, s.get("flags", "") + " " + pkg))
        os.chmod(d + "/demo.sh", 0o755)
        def bad(msg, out=""):
            print(s["id"], "REJECTED:", msg); print(out[-1500:])
        try:
            x = sh(f"bash {d}/demo.sh", r)
            if x.returncode != 0:
                bad("demo fails on the clean tree", x.stdout); continue
            for f, old, new in s["edits"]:
                t = open(f"{r}/{f}").read()
                if t.count(old) < 1:
                    raise Exception(f"{s['id']}: {f}: no {old!r}")
                open(f"{r}/{f}", "w").write(t.replace(old, new, 1))
            sh("gofmt -w " + " ".join(f for f, _, _ in s["edits"]), r)
            x = sh("go build -buildvcs=false ./...", r)
            if x.returncode: bad("does not build", x.stdout); continue
            x = sh(f"go test -json -vet=off -count=1 -timeout 10m -exec 'env GOGC=off GOMEMLIMIT=3GiB' ./... > {w}/log 2>/dev/null; python3 /opt/vp/results.py {w}/out.json gojson:{w}/log", r)
            o = json.load(open(w + "/out.json"))
            miss = [t for t in stable if t not in set(o["passed"])]
            if miss: bad(f"tests fail: {miss}"); continue
            n = 0
            fails = [sh(f"bash {d}/demo.sh", r) for _ in range(s.get("tries", 2))]
            if any(x.returncode == 0 for x in fails): bad("demo passes with the patch", fails[0].stdout); continue
            if "FAIL" not in fails[0].stdout or "build failed" in fails[0].stdout: bad("demo does not fail as a test", fails[0].stdout); continue
            diff = sh("git diff", r).stdout
            removed = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            out = f"/verif/seeded/{s['id']}"
            os.makedirs(out, exist_ok=True)
            for f in os.listdir(d): shutil.copy(f"{d}/{f}", out)
            open(out + "/patch.diff", "w").write(diff)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            print(s["id"], "ok")
        finally:
            shutil.rmtree(w)
main()
