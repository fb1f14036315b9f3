#!/usr/bin/env python3
"""Confirms planted bugs and prints which checks catch them.

  seeds.py verify [id...]   builds/tests/demonstrates each seed in a scratch copy of /repo
  seeds.py matrix [id...]   runs every claimed check on each seed (own property only with -o)
  seeds.py quiet [-c C01,C02] [name...]   runs the checks on the refactorings of /verif/refactors, all must be quiet
  seeds.py diff id          makes patch.diff out of the edits in /tmp/seedwork (a copy of /repo)
"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", TZ="Asia/Shanghai")
def sh(cmd, cwd, env=ENV, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
def copy():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    r = os.path.join(d, "repo")
    subprocess.check_call(["cp", "-a", "/repo", r])
    return d, r
def ids(a):
    return a or sorted(os.listdir(S))
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable_tests", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()
def verify(i):
    d, r = copy()
    try:
        demo = os.path.join(d, "demo"); shutil.copytree(os.path.join(S, i), demo)
        for f in os.listdir(demo):
            if f.endswith(".diff") or f == "meta.json": os.remove(os.path.join(demo, f))
        c, o = sh("bash %s/demo.sh" % demo, r)
        if c != 0: return i, "demo fails on the clean tree: " + o[-600:]
        c, o = sh("git apply --check %s/patch.diff && git apply %s/patch.diff" % ((os.path.join(S, i),)*2), r)
        if c != 0: return i, "does not apply: " + o
        c, o = sh("go build ./... && go vet ./... >/dev/null 2>&1; go test -vet=off -count=1 ./...", r)
        if c != 0: return i, "build or tests fail: " + o[-800:]
        c, o = sh("bash %s/demo.sh" % demo, r)
        if c == 0: return i, "demo passes with the patch: " + o[-300:]
        if "build failed" in o or "[setup failed]" in o: return i, "demo does not build: " + o[-500:]
        return i, "ok   demo: " + (o.strip().splitlines() or ["?"])[0][:150]
    finally:
        shutil.rmtree(d)
def claimed():
    return [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
def matrix(i, own, bin):
    d, r = copy()
    try:
        c, o = sh("git apply %s/patch.diff" % os.path.join(S, i), r)
        if c != 0: return i, "does not apply", ""
        p = json.load(open(os.path.join(S, i, "meta.json")))["property"]
        hit = []
        detail = ""
        for ch in ([p] if own else claimed()):
            ev = os.path.join(d, "v"); os.makedirs(ev + "/evidence", exist_ok=True)
            c, o = sh("%s %s" % (bin, ch), "/tmp", dict(ENV, CHECK_REPO=r, CHECK_VERIF=ev, GOGC="400"))
            if c == 1: hit.append(ch)
            elif c != 0: hit.append(ch + "(rc %d)" % c)
            if c != 0 and ch == p: detail = "\n".join(o.splitlines()[:4])
        return i, ("CAUGHT " if p in hit else "MISSED ") + p + " by " + " ".join(hit), detail
    finally:
        shutil.rmtree(d)
def quiet(n, checks, bin):
    d, r = copy()
    try:
        c, o = sh("git apply %s/refactors/%s.diff" % (V, n), r)
        if c != 0: return n, ["does not apply " + o]
        out = []
        ev = os.path.join(d, "v"); os.makedirs(ev + "/evidence", exist_ok=True)
        if os.path.exists(V + "/KNOWN_FINDINGS.txt"): shutil.copy(V + "/KNOWN_FINDINGS.txt", ev)
        for ch in checks:
            c, o = sh("%s %s" % (bin, ch), "/tmp", dict(ENV, CHECK_REPO=r, CHECK_VERIF=ev, GOGC="400"))
            if c != 0: out.append(ch + ": " + "\n      ".join(o.splitlines()[:3])[:900])
        return n, out
    finally:
        shutil.rmtree(d)
def main():
    a = sys.argv[1:]
    if a[0] == "verify":
        with cf.ThreadPoolExecutor(6) as ex:
            for i, m in ex.map(verify, ids(a[1:])): print(i, m, flush=True)
    elif a[0] == "matrix":
        own = "-o" in a; verbose = "-v" in a
        l = [x for x in a[1:] if not x.startswith("-")]
        bin = "/tmp/seed-checker"
        c, o = sh("go build -o %s ." % bin, os.path.join(V, "checker"))
        assert c == 0, o
        with cf.ThreadPoolExecutor(5) as ex:
            for i, m, dt in ex.map(lambda i: matrix(i, own, bin), ids(l)):
                print(i, m, flush=True)
                if verbose and dt: print("    " + dt.replace("\n", "\n    "))
    elif a[0] == "quiet":
        l = a[1:]; checks = claimed()
        if l and l[0] == "-c": checks = l[1].split(","); l = l[2:]
        bin = "/tmp/seed-checker"
        c, o = sh("go build -o %s ." % bin, os.path.join(V, "checker"))
        assert c == 0, o
        names = l or sorted(x[:-5] for x in os.listdir(V + "/refactors"))
        with cf.ThreadPoolExecutor(5) as ex:
            for n, out in ex.map(lambda n: quiet(n, checks, bin), names):
                print(n, "ALARMS\n    " + "\n    ".join(out) if out else "quiet", flush=True)
    elif a[0] == "diff":
        os.makedirs(os.path.join(S, a[1]), exist_ok=True)
        c, o = sh("git diff", "/tmp/seedwork")
        open(os.path.join(S, a[1], "patch.diff"), "w").write(o); print(o)
        sh("git checkout -- .", "/tmp/seedwork")
main()
