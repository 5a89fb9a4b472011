#!/usr/bin/env python3
"""mkseed.py SPEC.py : builds /verif/seeded/<id>/ from a spec and confirms it in a scratch copy of /repo.
A spec defines: id, prop, needs, breaks, edits=[(file, old, new)...], demo (Go test source, package zzdemo)."""
import sys, os, subprocess, json, shutil, tempfile
spec = {}
exec(open(sys.argv[1]).read(), spec)
keep = "--notest" in sys.argv
R = tempfile.mkdtemp(prefix="seed."); W = R + "/repo"
try:
    shutil.copytree("/repo", W, symlinks=True)
    env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off")
    def sh(c, **k): return subprocess.run(c, shell=True, cwd=W, capture_output=True, text=True, env=env, **k)
    base = "c023727"
    for f, old, new in spec["edits"]:
        s = open(f"{W}/{f}").read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(f"{W}/{f}", "w").write(s.replace(old, new))
    r = sh("gofmt -l " + " ".join(f for f, _, _ in spec["edits"])); assert not r.stdout.strip(), "gofmt: " + r.stdout
    diff = sh("git diff").stdout
    # removed lines must come from the original repository
    orig = 0
    for f in {f for f, _, _ in spec["edits"]}:
        bl = sh(f"git blame -s HEAD -- {f}").stdout.splitlines()
        d = sh(f"git diff -U0 -- {f}").stdout
        for l in d.splitlines():
            if l.startswith("@@"):
                a = l.split()[1][1:].split(","); st = int(a[0]); n = int(a[1]) if len(a) > 1 else 1
                for i in range(st, st + n):
                    if bl[i-1].startswith("^" + base[:7]) or bl[i-1].startswith(base): orig += 1
    print("original lines changed:", orig)
    assert orig > 0
    D = os.environ.get("SEEDDIR", "/verif/seeded") + "/" + spec["id"]; os.makedirs(D, exist_ok=True)
    open(D + "/patch.diff", "w").write(diff)
    json.dump({"property": spec["prop"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(D + "/meta.json", "w"), indent=1)
    open(D + "/demo_test.go", "w").write(spec["demo"])
    subprocess.run(["gofmt", "-w", D + "/demo_test.go"])
    open(D + "/demo.sh", "w").write('''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zzdemo/demo_test.go":"%s/demo_test.go"}}' "$R" "$D" > "$T/overlay.json"
GOPROXY=off go test -c -o "$T/demo.test" -overlay "$T/overlay.json" -vet=off ''' + spec.get("goflags", "") + ''' ./zzdemo/ || exit 2
cd "$T" && ./demo.test -test.timeout 200s
''')
    os.chmod(D + "/demo.sh", 0o755)
    r = sh("go build ./..."); assert r.returncode == 0, r.stderr
    if not keep:
        import fcntl
        lk = open("/tmp/mkseed.lock", "w"); fcntl.flock(lk, fcntl.LOCK_EX)  # the tests share a TCP port
        open(R + "/t.sh", "w").write(open("/opt/vp/test.sh").read().replace(". /opt/vp/env.sh", "export HOME=/root; cd " + W).replace("work=/opt/vp/work", "work=" + R + "/work"))
        sh(f"bash {R}/t.sh {R}/out.json")
        res = json.load(open(R + "/out.json")); stable = json.load(open("/opt/vp/BASELINE.json"))
        passed = set(res["passed"]); want = set(stable["stable"] if "stable" in stable else stable["passed"])
        print("tests: missing", want - passed); assert want <= passed
        fcntl.flock(lk, fcntl.LOCK_UN)
    for i in range(3):
        r = sh(f"bash {D}/demo.sh"); print("patched:", r.returncode)
        if i == 0: print(r.stdout[-700:])
        assert r.returncode != 0
    sh("git checkout -- .")
    for i in range(3):
        r = sh(f"bash {D}/demo.sh"); print("clean:", r.returncode)
        assert r.returncode == 0, r.stdout[-3000:]
    print("OK", spec["id"])
finally:
    shutil.rmtree(R)
