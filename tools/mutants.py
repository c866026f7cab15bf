#!/usr/bin/env python3
"""mutants.py guard N seed relations: changes that take effect only when values are in a relation (tools/guard).
Mutation campaign: mutants.py [N sampled] [seed] [file-substring]; results in /tmp/mut.jsonl.
Every mutant that builds and passes the tests of agentx and oid is run against the
checks (reduced counts, stop at the first alarm); survivors again at full counts."""
import json, os, random, shutil, subprocess, sys, tempfile, glob, concurrent.futures, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off")
CODEC = ["C05","C03","C04","C02","C01","C08","C07","C24","C11","C10","C23","C26","C21","C22","C25","C06","C09"]
def order(f):
    if f.startswith("agentx/encoding_dbg"): return ["C07","C08","C26","C24","C09"]
    if f.startswith("agentx/flags") or f.startswith("agentx/close"): return ["C22","C23"]+CODEC
    if f.startswith("agentx"): return CODEC
    if f.startswith("hex"): return ["C19","C20","C24"]
    if f.startswith("asn"): return ["C21","C22","C23","C05","C24"]
    if f.startswith("ipa"): return ["C21","C23","C24"]
    if f.startswith("internal"): return ["C23","C27","C24"]
    if f.startswith("pduerror"): return ["C22"]
    if f.startswith("logger"): return ["C24"]
    if f.startswith("generics"): return ["C13","C20","C27","C24","C08"]
    if f.startswith("oid/name"): return ["C25"]
    if f.startswith("oid/oid"): return ["C13","C14","C15","C16","C17"]
    return ["C16","C17"]
def sh(cmd, cwd, t=600):
    try: return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    except subprocess.TimeoutExpired: return subprocess.CompletedProcess(cmd, 124, "timeout")
def one(m):
    tmp = tempfile.mkdtemp(prefix="mut"); w = tmp + "/w"
    try:
        shutil.copytree("/repo", w, ignore=shutil.ignore_patterns(".git"))
        p = os.path.join(w, m["File"]); b = open(p, "rb").read()
        open(p, "wb").write(b[:m["Off"]] + m["New"].encode() + b[m["End"]:] + m.get("Append", "").encode())
        if sh(["go", "build", "./..."], w).returncode: return "nobuild"
        if sh(["go", "test", "-vet=off", "-count=1", "-timeout", "60s", "./agentx", "./oid"], w).returncode: return "tests"
        open(tmp + "/go.mod", "w").write(open(V + "/harness/go.mod").read().replace("=> /repo", "=> " + w).replace("=> ../bridge", "=> " + V + "/bridge"))
        r = sh(["go", "build", "-modfile", tmp + "/go.mod", "-o", tmp + "/h", "."], V + "/harness")
        if r.returncode: return "harness does not build: " + r.stdout[-300:]
        for scale in ("0.1", "0.5"):
            for c in order(m["File"]):
                r = sh([tmp + "/h", "-prop", c, "-tier", "quick", "-seed", "1", "-verif", tmp, "-repo", w, "-scale", scale, "-noevidence"], tmp, 900)
                if r.returncode == 1: return "killed " + c
                if r.returncode: return "EXIT %d %s %s" % (r.returncode, c, r.stdout[-300:])
        if m["File"] in ("oid/tree.go", "oid/node.go"):
            r = subprocess.run([V + "/check.sh", "C18"], env=dict(os.environ, VERIF_REPO=w, VERIF_NOEVIDENCE="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1: return "killed C18"
        return "SURVIVED"
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
if __name__ == "__main__":
    guard = sys.argv[1:2] == ["guard"]
    if guard:
        n, seed, rels = sys.argv[2:5]
        subprocess.check_call(["go", "build", "-o", "/tmp/guard", "."], cwd=V + "/tools/guard", env=ENV)
        ms = [json.loads(l) for l in subprocess.check_output(["/tmp/guard", seed, n, rels] + "agentx asn hex internal ipa oid generics".split(), cwd="/repo", text=True).splitlines()]
        sys.argv[1:] = []
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 0
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    sub = sys.argv[3] if len(sys.argv) > 3 else ""
    if not guard:
        files = [f for f in sorted(glob.glob("/repo/*/*.go")) if not f.endswith("_test.go") and "slice_string" not in f and "system.go" not in f]
        files = [os.path.relpath(f, "/repo") for f in files if sub in f]
        subprocess.check_call(["go", "build", "-o", "/tmp/mutate", "."], cwd=V + "/tools/mutate", env=ENV)
        ms = [json.loads(l) for l in subprocess.check_output(["/tmp/mutate"] + files, cwd="/repo", text=True).splitlines()]
        def noise(m):
            return m["File"].startswith("agentx") and m["New"] in ('""', "") and ("log.Write" in m["Desc"] or m["New"] == '""' and not any(x in m["File"] for x in ("flags", "close", "tag")))
        import re
        conv = re.compile(r"^\S+ (u?int\d*|byte)\((.*)\) => ")
        ms = [m for m in ms if not noise(m) and not conv.match(m["Desc"]) and not m["Desc"].startswith("pduerror/error_string.go:") and not re.search(r"\(\d+\) => ", m["Desc"]) and not (m["File"] == "oid/name.go" and hash(m["Off"]) % 20)]
    print(len(ms), "mutants", flush=True)
    if n and n < len(ms): random.Random(seed).shuffle(ms); ms = ms[:n]
    tally = {}
    with open("/tmp/mut.jsonl", "w") as out, concurrent.futures.ThreadPoolExecutor(4) as ex:
        for m, r in zip(ms, ex.map(one, ms)):
            k = " ".join(r.split()[:2]); tally[k] = tally.get(k, 0) + 1
            out.write(json.dumps(dict(m, result=r)) + "\n"); out.flush()
            if not r.startswith(("killed", "nobuild", "tests")): print(r, m["Desc"], flush=True)
    print(tally)
