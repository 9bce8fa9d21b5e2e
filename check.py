#!/usr/bin/env python3
"""Runs the check of one property: builds its test binary against /repo's
working tree in a scratch directory, runs it, and writes the evidence.

  check.py ID [quick|thorough]     check a property
  check.py --replay FILE           run the failing case of a replay file again
  check.py --setup                 compile every check once, to fill Go's cache

Exit codes: 0 the property held, 1 it didn't (a VIOLATION line says which
replay file), 3 the check itself failed.
"""
import glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
PACKAGES = {
    "cons": "C01 C06 C07 C09 C10 C11 C12 C15 C16",
    "wire": "C02 C03 C04 C05",
    "pow": "C08",
    "crypt": "C13 C14 C32",
    "chn": "C17 C18 C19 C20 C21",
    "net": "C22 C23 C24 C25 C26 C27 C28 C29 C30 C33 C34",
    "mix": "C31",
}
PACKAGE = {i: p for p, l in PACKAGES.items() for i in l.split()}
# checks that run the program itself
PROGRAM = {"C34"}
# cases that mostly wait run many at a time
PARALLEL = {"net": 96}
GRINGO = "github.com/dblokhin/gringo/"
LIMIT = {"quick": 820, "thorough": 6 * 3600}
# seconds that a failure may take to be minimised
MINIMISE = {"quick": 150, "thorough": 900}
MEMORY = 24 << 30


def environment():
    e = dict(os.environ)
    e.update(GOENV="off", GOTOOLCHAIN="local", GOWORK="off", GO111MODULE="on", GOPROXY="off",
             GOSUMDB="off", GOFLAGS="-mod=mod")
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/go/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def fail(msg):
    print("check failed:", msg, file=sys.stderr)
    sys.exit(3)


def build(pkg, scratch):
    """Compiles the package's tests; the module files are copies, so that
    nothing in /verif or /repo can be rewritten."""
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(HARNESS, f), scratch)
    out = os.path.join(scratch, "check.test")
    # without vet: it would look at /repo's code too
    cmd = ["go", "test", "-vet=off", "-modfile", os.path.join(scratch, "go.mod"), "-c", "-o", out, "./" + pkg]
    r = subprocess.run(cmd, cwd=HARNESS, env=environment(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        fail("the build failed:\n" + r.stdout[-6000:])
    return out


def program(scratch):
    """Compiles cmd/node as it is in /repo."""
    out = os.path.join(scratch, "node")
    e = dict(environment(), GOFLAGS="-mod=readonly")
    r = subprocess.run(["go", "build", "-o", out, "./cmd/node"], cwd="/repo", env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        fail("the build of cmd/node failed:\n" + r.stdout[-6000:])
    return out


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    os.setsid()


def run(binary, scratch, prop, tier, seed, pattern, extra_env=(), args=()):
    e = environment()
    e.update(VERIF_OUT=scratch, VERIF_TIER=tier, VERIF_SEED=seed, VERIF_KNOWN=os.path.join(HERE, "known_findings.json"))
    e.update(extra_env)
    if prop in PROGRAM:
        e["VERIF_NODE"] = program(scratch)
    limit = LIMIT[tier]
    cmd = [binary, "-test.run", pattern, "-test.count=1", "-test.timeout", "%ds" % (limit + 60), "-test.v=false"]
    if PACKAGE[prop] in PARALLEL:
        cmd += ["-test.parallel", str(PARALLEL[PACKAGE[prop]])]
    cmd += list(args)
    log = os.path.join(scratch, "log")
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, cwd=scratch, env=e, stdout=f, stderr=subprocess.STDOUT, preexec_fn=limits)
        code, end, first = None, time.time() + limit, os.path.join(scratch, "first.json")
        while code is None and time.time() < end:
            try:
                code = p.wait(timeout=2)
            except subprocess.TimeoutExpired:
                # a failure that takes long to minimise is reported as it is
                if os.path.exists(first) and time.time() > os.path.getmtime(first) + MINIMISE[tier]:
                    break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    with open(log, errors="replace") as f:
        out = f.read()
    return code, out


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def journals(scratch):
    out = []
    for f in sorted(glob.glob(os.path.join(scratch, "journal-*"))):
        with open(f, errors="replace") as h:
            out.append(h.read()[:20000])
    return out


def crash(out):
    """The part of the output about a crash of the process in gringo's code."""
    m = re.search(r"^(panic: |fatal error: |SIGSEGV|unexpected fault)", out, re.M)
    if not m or "panic: test timed out" in out:
        return None
    text = out[m.start():]
    # the goroutine that crashed comes first; a crash of the runtime (memory,
    # say) may print the running goroutines only
    first = text.split("\n\ngoroutine ")
    head = "\n\ngoroutine ".join(first[:3])
    return text if GRINGO in head else None


def replay_file(prop, tier, seed, what):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d-%d.json" % (prop, int(time.time()), os.getpid()))
    what.update(property=prop, tier=tier, seed=seed)
    with open(path, "w") as f:
        json.dump(what, f, indent=1)
    return path


def violation(prop, tier, seed, what, text):
    path = replay_file(prop, tier, seed, what)
    print(text[-6000:])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()


def failfiles(scratch, test):
    out = []
    for f in sorted(glob.glob(os.path.join(scratch, "testdata", "rapid", "**", "*.fail"), recursive=True)):
        with open(f, errors="replace") as h:
            out.append({"path": os.path.relpath(f, scratch), "text": h.read()})
    want = re.sub(r"[^A-Za-z0-9]", "", test)
    return [f for f in out if want in re.sub(r"[^A-Za-z0-9]", "", os.path.dirname(f["path"]))] or out[:4]


def output_of(out, test):
    """The part of the log about one test."""
    i = out.find("--- FAIL: " + test + " ")
    return out[i:i + 8000] if i >= 0 else out[-8000:]


def check(prop, tier):
    seed = os.environ.get("VERIF_SEED") or "1"
    scratch = tempfile.mkdtemp(prefix="gringo-verif-")
    start = time.time()
    try:
        binary = build(PACKAGE[prop], scratch)
        built = time.time() - start
        code, out = run(binary, scratch, prop, tier, seed, "^Test%s$" % prop)
        result = load(os.path.join(scratch, "result.json"))
        hang = load(os.path.join(scratch, "hang.json"))
        evidence = (result or {}).get("evidence") or {
            "property": prop, "tier": tier, "seed": int(seed) if seed.lstrip("-").isdigit() else 0, "level": "exploration",
            "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "the process ended before it could report",
                         "samples": journals(scratch)[:3]},
            "assumptions": [], "violations": 0}
        bad = 0
        end = 0
        if code == 0 and result is not None and not result["failed"]:
            for k in result.get("known") or []:
                print("KNOWN-FINDING: property=%s %s: %s" % (prop, k["key"], k["what"]))
        elif hang is not None:
            bad, end = 1, 1
            violation(prop, tier, seed, {"kind": "hang", "what": hang["what"], "cases": hang["cases"], "stacks": hang["stacks"]},
                      "%s\nrunning cases:\n%s" % (hang["what"], "\n".join(hang["cases"] or [])[:4000]))
        elif code is not None and result is not None and result.get("violations"):
            for v in result["violations"]:
                bad, end = bad + 1, 1
                text = output_of(out, v["Test"])
                if bad <= 3:
                    violation(prop, tier, seed, {"kind": "case", "part": v["Part"], "test": v["Test"], "case": v["Case"],
                                                 "rapid_seed": v["Seed"], "failfiles": failfiles(scratch, v["Test"]), "output": text},
                              "%s failed on\n%s\n%s" % (v["Test"], v["Case"][:2000], text[:3500]))
        elif code is None and load(os.path.join(scratch, "first.json")):
            bad, end = 1, 1
            v = load(os.path.join(scratch, "first.json"))
            violation(prop, tier, seed, {"kind": "case", "part": v["part"], "test": v["test"], "case": v["case"],
                                         "rapid_seed": v["seed"], "failfiles": [], "output": v["message"]},
                      "%s failed on\n%s\n%s" % (v["test"], v["case"][:2000], v["message"][:3500]))
        elif code is not None and crash(out):
            bad, end = 1, 1
            violation(prop, tier, seed, {"kind": "crash", "cases": journals(scratch), "output": crash(out)[:20000]},
                      "the process crashed:\n%s" % crash(out)[:4000])
        else:
            print(out[-6000:], file=sys.stderr)
            print("check failed: exit code %s, result %s" % (code, "missing" if result is None else "there"), file=sys.stderr)
            end = 3
        evidence["violations"] = bad
        evidence["wall_s"] = round(time.time() - start, 3)
        evidence["coverage"]["build_s"] = round(built, 3)
        evidence["assumptions"] = (evidence.get("assumptions") or []) + \
            ["logrus.Fatal is observed instead of ending the process"]
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
        c = evidence["coverage"]
        print("%s %s: %d cases, %d distinct non-trivial, %.1f s" % (prop, tier, c["evaluations"], c["distinct_nontrivial"], evidence["wall_s"]))
        return end
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(path):
    r = load(path)
    if not r:
        fail("no replay file " + path)
    prop, tier = r["property"], r["tier"]
    scratch = tempfile.mkdtemp(prefix="gringo-verif-")
    try:
        binary = build(PACKAGE[prop], scratch)
        pattern, args, env = "^Test%s$" % prop, [], {}
        if r["kind"] == "case":
            pattern = "/".join("^%s$" % re.escape(x) for x in r["test"].split("/"))
            env["VERIF_PART"] = r["part"]
            if len(r["failfiles"]) >= 1:
                # rapid tries the file before it generates cases
                f = os.path.join(scratch, "case.fail")
                with open(f, "w") as h:
                    h.write(r["failfiles"][0]["text"])
                args = ["-rapid.failfile", f]
        code, out = run(binary, scratch, prop, tier, str(r["seed"]), pattern, env, args)
        print(out[-8000:])
        if code == 0:
            print("the case passes now")
            return 0
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    scratch = tempfile.mkdtemp(prefix="gringo-verif-")
    try:
        for pkg in PACKAGES:
            build(pkg, scratch)
        program(scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a == ["--setup"]:
        sys.exit(setup())
    if len(a) == 2 and a[0] == "--replay":
        sys.exit(replay(a[1]))
    if not a or a[0] not in PACKAGE:
        fail(__doc__)
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMIT:
        fail("unknown tier " + tier)
    sys.exit(check(a[0], tier))


main()
