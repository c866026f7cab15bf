#!/usr/bin/env python3
"""Builds and confirms planted bugs.

seedlib.py make SPEC.py [ID...]   write /verif/seeded/<id>/ from a spec module (list BUGS)
seedlib.py confirm [ID...]        apply + build + stable tests + demo on both trees
seedlib.py catch [-a] [ID...]     run the property's check (-a: all checks) against each patched copy
Everything happens in scratch copies under /tmp.
"""
import json, os, re, shutil, subprocess, sys, tempfile, importlib.util, concurrent.futures
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off")
DEMO = '''#!/bin/bash
# Exits 0 if the behaviour is right, nonzero if not. Run with cwd = repository.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
cp "$here/main.go" "$d/"
printf 'module demo\\n\\ngo 1.18\\n\\nrequire github.com/alexispb/mygosnmp v0.0.0\\n\\nreplace github.com/alexispb/mygosnmp => %s\\n' "$repo" > "$d/go.mod"
cd "$d" && timeout 200 go run RACE. || exit 1
'''
DEMO_INTERNAL = '''#!/bin/bash
# Exits 0 if the behaviour is right, nonzero if not. Run with cwd = repository.
# The program is laid over the repository (which it does not change), because it uses an internal package.
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GOWORK=off
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
printf '{"Replace": {"%s/zzdemo/main.go": "%s/main.go"}}' "$repo" "$here" > "$d/overlay.json"
timeout 200 go run -overlay "$d/overlay.json" ./zzdemo || exit 1
'''
def sh(cmd, cwd=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
def copy(dst):
    shutil.copytree("/repo", dst, symlinks=True)
    sh(["git", "checkout", "-q", "--", "."], dst)
def ids(args):
    return args or sorted(d for d in os.listdir(S) if os.path.isdir(os.path.join(S, d)))
def make(spec, only):
    m = importlib.util.module_from_spec(importlib.util.spec_from_file_location("spec", spec)); m.__spec__.loader.exec_module(m)
    for b in m.BUGS:
        if only and b["id"] not in only: continue
        tmp = tempfile.mkdtemp(); w = os.path.join(tmp, "w"); copy(w)
        for e in b["edits"]:
            f, old, new = e[:3]; n = e[3] if len(e) > 3 else 1
            p = os.path.join(w, f); t = open(p).read()
            if t.count(old) != n: print(b["id"], "EDIT: %d matches in %s of %r" % (t.count(old), f, old)); break
            open(p, "w").write(t.replace(old, new))
        d = os.path.join(S, b["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        for f in {e[0] for e in b["edits"]}:
            if f.endswith(".go"): sh(["gofmt", "-w", f], w)
        diff = sh(["git", "diff"], w).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write((DEMO_INTERNAL if b.get("internal") else DEMO).replace("RACE", "-race " if b.get("race") else ""))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "main.go"), "w").write(b["main"].lstrip())
        sh(["gofmt", "-w", os.path.join(d, "main.go")])
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        shutil.rmtree(tmp)
def stable(w):
    base = json.load(open("/opt/vp/BASELINE.json"))
    r = sh(["go", "test", "-json", "-vet=off", "-count=1", "./..."], w)
    passed = set()
    for l in r.stdout.splitlines():
        try: j = json.loads(l)
        except ValueError: continue
        if j.get("Action") == "pass" and j.get("Test"): passed.add(j["Package"] + "." + j["Test"])
    return passed
import threading
TL = threading.Lock()
CLEAN = None
def confirm1(i):
    d = os.path.join(S, i); tmp = tempfile.mkdtemp(); w = os.path.join(tmp, "w"); copy(w); out = []
    dd = os.path.join(tmp, "demo"); shutil.copytree(d, dd)
    for f in os.listdir(dd):
        if f.endswith(".diff") or f == "meta.json": os.remove(os.path.join(dd, f))
    r = sh(["bash", os.path.join(dd, "demo.sh")], w)
    if r.returncode != 0: out.append("demo fails on the clean tree: " + r.stdout[-400:])
    r = sh(["git", "apply", os.path.join(d, "patch.diff")], w)
    if r.returncode: out.append("does not apply: " + r.stdout)
    r = sh(["go", "build", "./..."], w)
    if r.returncode: out.append("does not build: " + r.stdout[-600:])
    else:
        with TL: miss = CLEAN - stable(w)
        if miss: out.append("tests fail: " + ", ".join(sorted(miss)))
        r = sh(["bash", os.path.join(dd, "demo.sh")], w)
        if r.returncode == 0: out.append("demo passes with the patch")
        elif re.search(r"main\.go:\d+:\d+: ", r.stdout): out.append("demo does not compile: " + r.stdout[-400:])
    shutil.rmtree(tmp)
    return i, out
def confirm(l):
    global CLEAN
    tmp = tempfile.mkdtemp(); w = os.path.join(tmp, "w"); copy(w); CLEAN = stable(w); shutil.rmtree(tmp)
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        for i, out in ex.map(confirm1, l):
            if out: bad += 1; print(i, "BAD", "; ".join(out))
    print("%d confirmed, %d bad" % (len(l) - bad, bad))
def catch(l, allchecks):
    props = [json.loads(x)["id"] for x in open(os.path.join(V, "properties.jsonl"))]
    missed = []
    for i in l:
        d = os.path.join(S, i); prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        tmp = tempfile.mkdtemp(); w = os.path.join(tmp, "w"); copy(w); sh(["git", "apply", os.path.join(d, "patch.diff")], w)
        res = {}
        for p in (props if allchecks else [prop]):
            r = subprocess.run([os.path.join(V, "check.sh"), p], env=dict(os.environ, VERIF_REPO=w, VERIF_NOEVIDENCE="1"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            res[p] = r.returncode
            if p == prop and r.returncode == 1:
                m = re.search(r"replay=(\S+)", r.stdout)
                if m and os.path.exists(m.group(1)): os.remove(m.group(1))
            if r.returncode not in (0, 1): print(i, p, "EXIT", r.returncode, r.stdout[-600:])
        ok = res[prop] == 1
        if not ok: missed.append(i)
        print(i, prop, "caught" if ok else "MISSED", " ".join(p for p in res if res[p] == 1 and p != prop), flush=True)
        shutil.rmtree(tmp)
    print("%d of %d caught; missed: %s" % (len(l) - len(missed), len(l), " ".join(missed)))
if __name__ == "__main__":
    cmd, a = sys.argv[1], sys.argv[2:]
    if cmd == "make": make(a[0], a[1:])
    elif cmd == "confirm": confirm(ids(a))
    elif cmd == "catch":
        al = "-a" in a; catch(ids([x for x in a if x != "-a"]), al)
