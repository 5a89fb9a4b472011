#!/usr/bin/env python3
"""run.py REPO OUT.jsonl N SEED [FILEGLOB]: applies random small mutants to copies of REPO, one at a time, and tells
which of the checks' simulated runs notice. Survivors are worth reading: either the mutant changes nothing a user
sees, or a check is missing."""
import sys, os, subprocess, json, random, base64, shutil, glob, concurrent.futures as cf
repo, out, n, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
pat = sys.argv[5:] or ["conn/*.go", "multiplexer/dialogue.go", "multiplexer/dialogue_mgr.go", "multiplexer/multiplexer.go", "application/*.go", "client/*.go", "server/*.go", "packet/*.go", "pkg/id/*.go", "pkg/net/*.go", "pkg/sync/*.go", "options/*.go"]
here = os.path.dirname(os.path.abspath(__file__)); J = int(os.environ.get("J", "7")); CNT = os.environ.get("CNT", "60")
env = dict(os.environ, GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOMAXPROCS="2")
W = os.environ.get("W", "/tmp/mut"); os.makedirs(W, exist_ok=True)
subprocess.check_call(["go", "build", "-o", W + "/mutate.bin", "."], cwd=here, env=env)
subprocess.check_call(["go", "build", "-o", W + "/instr.bin", "."], cwd=here + "/../../instr", env=env)
ms = []
for p in pat:
    for f in sorted(glob.glob(repo + "/" + p)):
        if f.endswith("_test.go"): continue
        rel = os.path.relpath(f, repo)
        for l in subprocess.check_output([W + "/mutate.bin", f], text=True).splitlines():
            ln, a, b, k, r = (l.split("\t") + [""])[:5]
            ms.append((rel, int(ln), int(a), int(b), k, base64.b64decode(r).decode()))
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); done.add(d["key"])
random.Random(seed).shuffle(ms)
def key(m): return "%s:%d:%d:%d:%s:%s" % (m[0], m[1], m[2], m[3], m[4], m[5][:40])
if os.environ.get("AGAIN"):  # only the survivors of an earlier run
    again = {d["key"] for d in map(json.loads, open(os.environ["AGAIN"])) if d["res"] == "SURVIVED"}
    ms = [m for m in ms if key(m) in again]
ms = [m for m in ms if key(m) not in done][:n]
slots = list(range(J))
def run(m):
    s = slots.pop(); D = f"{W}/{s}"
    try:
        shutil.rmtree(D, ignore_errors=True)
        shutil.copytree(repo, D + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git"))
        f = D + "/repo/" + m[0]; t = open(f, "rb").read()
        open(f, "wb").write(t[:m[2]] + m[5].encode() + t[m[3]:])
        r = {"key": key(m), "file": m[0], "line": m[1], "kind": m[4], "old": t[m[2]:m[3]].decode()[:400], "new": m[5][:400] if m[4] != "nolock" else "..."}
        x = subprocess.run("go build ./conn ./multiplexer ./application ./client ./server ./packet", shell=True, cwd=D + "/repo", env=env, capture_output=True, text=True)
        if x.returncode: r["res"] = "nobuild"; return r
        x = subprocess.run(f"{W}/instr.bin -repo {D}/repo -simrt {here}/../../simrt -harness {here}/../../harness -out {D}/sim >/dev/null && cd {D}/sim/harness && go build -o H .", shell=True, env=env, capture_output=True, text=True)
        if x.returncode: r["res"] = "nobuild-sim"; r["msg"] = x.stderr[-300:]; return r
        try:
            x = subprocess.run(f"ulimit -v 16000000; exec timeout -s KILL {300*int(CNT)//60} ./H all -count {CNT}", shell=True, cwd=D + "/sim/harness", env=env, capture_output=True, text=True, timeout=400 * int(CNT) / 60)
        except subprocess.TimeoutExpired:
            r["res"] = "timeout"; return r
        if x.returncode in (137, -9): r["res"] = "timeout"
        elif x.returncode == 0: r["res"] = "SURVIVED"
        elif x.stdout.startswith("VIOL"): r["res"] = "killed"; r["msg"] = x.stdout.strip()[:300]
        else: r["res"] = "crash"; r["msg"] = (x.stdout + x.stderr)[:300]
        return r
    except Exception as e:
        return {"key": key(m), "res": "error", "msg": repr(e)}
    finally:
        slots.append(s)
with cf.ThreadPoolExecutor(J) as ex, open(out, "a") as o:
    for r in ex.map(run, ms):
        o.write(json.dumps(r) + "\n"); o.flush()
