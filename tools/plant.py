#!/usr/bin/env python3
"""Development tool: plants bugs, and tries checks on them.

  plant.py make SPECS.py [ID...]   make /verif/seeded/ID from specs, confirming
                                   that each builds, passes the tests, and that
                                   its demonstration tells it from the original
  plant.py try [-j N] [ID...]      run the checks of the properties on planted
                                   bugs, with the changed tree mounted over /repo
  plant.py diff PATCH PROP...      the same for any patch and properties

A spec is a dict: id, property, edits [(file, old, new)], package, demo (the Go
test file's text), needs, breaks.
"""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
BASE = "c33084a"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]

DEMO = """#!/bin/bash
# Runs demo_test.go beside this file as a test of ./%(package)s in the current
# directory, a gringo tree. Exit 0: the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s": "%%s"}}' "$PWD/%(package)s/zz_demo_test.go" "$here/demo_test.go" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 240s -overlay "$tmp/overlay.json" -run '^TestDemo' %(flags)s ./%(package)s
"""


def sh(cmd, cwd=None, env=None, timeout=3600):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def tree():
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    sh("cp -a /repo %s/repo" % d)
    return d


def mounted(repo, cmd, timeout=3600):
    """Runs cmd with repo in place of /repo, and scratch in place of the results."""
    e = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    try:
        os.makedirs(e + "/e"), os.makedirs(e + "/r")
        # checks run from the working /verif, or from a copy of it
        copy = os.environ.get("VERIF_COPY")
        script = ("mount --bind %s %s && " % (copy, HERE) if copy else "") + "mount --bind %s /repo && mount --bind %s/e %s/evidence && mount --bind %s/r %s/replays && cd %s && %s" % (repo, e, HERE, e, HERE, HERE, cmd)
        return subprocess.run(["unshare", "-mn", "bash", "-c", "ip link set lo up && " + script], text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    finally:
        shutil.rmtree(e, ignore_errors=True)


def make(spec):
    d = tree()
    try:
        repo = d + "/repo"
        for f, old, new in spec["edits"]:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "edit of %s: %d matches of %r" % (f, s.count(old), old)
            base = sh("git show %s:%s" % (BASE, f), cwd=repo).stdout
            changed = [l for l in old.split("\n") if l not in new.split("\n")]
            fresh = [l for l in changed if l.strip() and l not in base.split("\n")]
            if fresh:
                print(spec["id"], "changes lines that aren't original:", fresh)
            open(p, "w").write(s.replace(old, new))
        if sh("gofmt -l .", cwd=repo).stdout.strip() != sh("gofmt -l .", cwd="/repo").stdout.strip():
            print(spec["id"], "isn't formatted:", sh("gofmt -l .", cwd=repo).stdout.split())
        out = os.path.join(SEEDED, spec["id"])
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        patch = sh("git diff", cwd=repo).stdout
        open(out + "/patch.diff", "w").write(patch)
        open(out + "/demo_test.go", "w").write(spec["demo"].lstrip())
        open(out + "/demo.sh", "w").write(DEMO % {"package": spec["package"], "flags": spec.get("flags", "")})
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        r = mounted(repo, "bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/t.json" % d)
        if r.returncode and not os.path.exists(d + "/t.json"):
            return "build: " + r.stdout[-2000:]
        passed = json.load(open(d + "/t.json"))
        bad = [t for t in STABLE if t not in passed["passed"]]
        if bad:
            return "tests: %s" % bad
        good = sh("bash %s/demo.sh" % out, cwd="/repo", timeout=400)
        if good.returncode:
            return "demo fails on the original: " + good.stdout[-3000:]
        broken = mounted(repo, "cd /repo && bash %s/demo.sh" % out, timeout=400)
        if broken.returncode == 0:
            return "demo passes on the change"
        return "ok: " + " ".join(broken.stdout.split())[:200]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def attempt(patch, props):
    d = tree()
    try:
        r = sh("git apply %s" % patch, cwd=d + "/repo")
        if r.returncode:
            return "patch: " + r.stdout
        res = []
        for p in props:
            r = mounted(d + "/repo", "VERIF_SEED=%s timeout 900 python3 check.py %s %s" % (os.environ.get("VERIF_SEED", "1"), p, os.environ.get("TIER", "quick")))
            v = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
            res.append("%s: exit %d %s" % (p, r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED" if r.returncode == 0 else "BROKEN " + r.stdout[-1500:]))
            if os.environ.get("SHOW"):
                res.append(r.stdout[-3000:])
        return "; ".join(res)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = sys.argv[1:]
    if args[0] == "make":
        g = {}
        exec(open(args[1]).read(), g)
        specs = [s for s in g["SPECS"] if not args[2:] or s["id"] in args[2:]]
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for s, r in zip(specs, ex.map(make, specs)):
                print(s["id"], r, flush=True)
    elif args[0] == "try":
        jobs = 1
        if args[1:2] == ["-j"]:
            jobs, args = int(args[2]), args[:1] + args[3:]
        ids = args[1:] or sorted(os.listdir(SEEDED))
        def one(i):
            return attempt("%s/%s/patch.diff" % (SEEDED, i), [json.load(open("%s/%s/meta.json" % (SEEDED, i)))["property"]])
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            for i, r in zip(ids, ex.map(one, ids)):
                print(i, r, flush=True)
    elif args[0] == "diff":
        print(attempt(os.path.abspath(args[1]), args[2:]))


main()
