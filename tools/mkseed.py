#!/usr/bin/env python3
"""Make and verify /verif/seeded/<id>/ from the list of planted bugs in seeds.py.

usage: mkseed.py [id...]     (all when none is given)
"""
import json, os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from seeds import SEEDS
verif = os.path.dirname(here)
demo = os.path.join(here, "demo")

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def make(s):
    out = os.path.join(verif, "seeded", s["id"])
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        repo = os.path.join(tmp, "repo")
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        for f, scope, old, new, *which in s["edits"]:
            p = os.path.join(repo, f)
            t = open(p).read()
            lo, hi = 0, len(t)
            if scope:
                lo = t.find("\n" + scope)
                if lo < 0:
                    return "no scope: %s %r" % (f, scope)
                hi = t.find("\n}\n", lo) + 3
            n = t[lo:hi].count(old)
            if n != 1 and not which:
                return "edit found %d times: %s %s %r" % (n, f, scope, old)
            i = lo - 1
            for _ in range(which[0] if which else 1):
                i = t.find(old, i + 1)
                if i < 0:
                    return "edit not found: %s %r" % (f, old)
            t = t[:i] + new + t[i + len(old):]
            open(p, "w").write(t)
        sh(["gofmt", "-w", "."], repo)
        # lines changed must be lines of the original repository
        own = sh(["git", "log", "--format=%h", "-20"], repo).stdout.split()
        base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], repo).stdout.strip()
        orig = mine = 0
        for f in sorted({e[0] for e in s["edits"]}):
            for h in re.findall(r"^@@ -(\d+)(?:,(\d+))? ", sh(["git", "diff", "-U0", "--", f], repo).stdout, re.M):
                a, c = int(h[0]), int(h[1] or 1)
                if c:
                    for l in sh(["git", "blame", "-l", "--root", "-L", "%d,+%d" % (a, c), "HEAD", "--", f], repo).stdout.strip().split("\n"):
                        if l.startswith(base):
                            orig += 1
                        else:
                            mine += 1
        if not orig or mine:
            return "changes %d original lines and %d of my own" % (orig, mine)
        diff = sh(["git", "diff"], repo).stdout
        os.makedirs(out, exist_ok=True)
        for f in os.listdir(out):
            os.remove(os.path.join(out, f))
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        d = s["demo"]
        main = d.get("main", "main")
        shutil.copy(os.path.join(demo, main + ".go.txt"), os.path.join(out, "main.go.txt"))
        if d.get("weak", main == "main"):
            shutil.copy(os.path.join(demo, "maphash.go.txt"), out)
            if main == "misc":
                shutil.copy(os.path.join(demo, "weak.go.txt"), out)
        t = open(os.path.join(demo, "demo.sh.txt")).read().replace("@ARGS@", d.get("args", "")).replace("@BUILD@", d.get("build", ""))
        open(os.path.join(out, "demo.sh"), "w").write(t)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        r = sh(["gofmt", "-l", "."], repo)
        if r.stdout.strip():
            return "gofmt " + r.stdout
        r = sh("go build ./... && go vet . && go test -count=1 .", repo, shell=True)
        if r.returncode:
            return "tests fail:\n" + r.stdout[-600:]
        bad = sh([os.path.join(out, "demo.sh")], repo)
        sh(["git", "checkout", "-q", "--", "."], repo)
        good = sh([os.path.join(out, "demo.sh")], repo)
        if good.returncode:
            return "demo fails on the unchanged tree: %d %s" % (good.returncode, good.stdout[-600:])
        if bad.returncode == 0:
            return "demo passes with the patch: " + bad.stdout[-300:]
        return "ok   (%d) %s" % (bad.returncode, bad.stdout.strip().split("\n")[0][:120])
    finally:
        shutil.rmtree(tmp)

if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor
    todo = [s for s in SEEDS if not sys.argv[1:] or s["id"] in sys.argv[1:]]
    with ThreadPoolExecutor(4) as ex:
        for s, r in zip(todo, ex.map(make, todo)):
            print("%-28s %s" % (s["id"], r), flush=True)
