#!/usr/bin/env python3
"""Development tool: mutation testing of the checks.

  run.py [-j N] [-n SAMPLE] [-s SEED] OUT.jsonl FILE[:FROM-TO]...

Takes small changes of the files (all, or a random sample of each file), leaves
out those that don't build or that the tests find, and runs the checks that are
responsible for the file until one finds it. OUT gets a line for every change.
"""
import concurrent.futures, json, os, random, shutil, subprocess, sys, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import plant

CHECKS = {
    "consensus/block.go": "C01 C03 C09 C06 C12 C11 C10 C13 C04 C31",
    "consensus/difficulty.go": "C15 C16",
    "consensus/consensus.go": "C15 C11 C12 C10 C17 C01",
    "consensus/id.go": "C07 C06 C09",
    "consensus/locator.go": "C02 C03 C17",
    "consensus/network.go": "C02 C05 C04 C25 C17 C22 C03 C23",
    "consensus/proof.go": "C01 C10 C16 C09 C03 C04",
    "consensus/transaction.go": "C01 C06 C03 C04",
    "cuckoo/cuckoo.go": "C08 C10 C31",
    "cuckoo/siphash24.go": "C08",
    "secp256k1zkp/pedersen.go": "C01",
    "secp256k1zkp/schnorr.go": "C13 C14 C32 C12",
    "p2p/handshake.go": "C22 C34",
    "p2p/helpers.go": "C02 C03 C04 C22",
    "p2p/messages.go": "C02 C03 C05 C04 C30 C23",
    "p2p/peer.go": "C23 C22 C30 C27 C24 C33 C28 C26",
    "p2p/pool.go": "C25 C26 C24 C29 C28 C23 C33",
    "p2p/protocol.go": "C05 C27 C31",
    "p2p/sync.go": "C23 C24 C29 C30",
    "chain/chain.go": "C21 C17 C18 C20 C19 C30",
    "cmd/node/main.go": "C34",
}
lock = threading.Lock()


def one(m, out):
    d = plant.tree()
    try:
        p = d + "/repo/" + m["file"]
        s = open(p, "rb").read()
        open(p, "wb").write(s[:m["Start"]] + m["New"].encode() + s[m["End"]:])
        r = plant.sh(". /opt/vp/env.sh; cd %s/repo && timeout 300 go build ./... && timeout 300 go test -vet=off ./... 2>&1" % d)
        if r.returncode != 0:
            m["result"] = "tests" if "FAIL" in r.stdout or "panic" in r.stdout else "build"
        else:
            m["result"], m["tried"] = "SURVIVED", []
            for c in CHECKS[m["file"]].split():
                r = plant.mounted(d + "/repo", "VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py %s quick" % c)
                m["tried"].append([c, r.returncode])
                if r.returncode == 1 and "VIOLATION property=" + c in r.stdout:
                    m["result"] = c
                    break
                if r.returncode not in (0, 1):
                    m["result"] = "BROKE " + c
                    m["out"] = r.stdout[-2000:]
                    break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    with lock:
        out.write(json.dumps(m) + "\n"), out.flush()


def main(a):
    n, j, seed = None, 3, 1
    while a[0].startswith("-"):
        k, v, a = a[0], int(a[1]), a[2:]
        n, j, seed = (v if k == "-n" else n), (v if k == "-j" else j), (v if k == "-s" else seed)
    out, todo = open(a[0], "a"), []
    done = {json.dumps([m["file"], m["Start"], m["End"], m["New"]]) for m in map(json.loads, open(a[0]))}
    for f in a[1:]:
        f, _, r = f.partition(":")
        ms = [json.loads(l) for l in subprocess.run(["/tmp/mutate", f], cwd="/repo", text=True, stdout=subprocess.PIPE, check=True).stdout.splitlines()]
        if r:
            lo, hi = map(int, r.split("-"))
            ms = [m for m in ms if lo <= m["Line"] <= hi]
        random.Random(seed).shuffle(ms)
        todo += ms[:n]
    todo = [m for m in todo if json.dumps([m["file"], m["Start"], m["End"], m["New"]]) not in done]
    print(len(todo), flush=True)
    with concurrent.futures.ThreadPoolExecutor(j) as ex:
        list(ex.map(lambda m: one(m, out), todo))


if __name__ == "__main__":
    main(sys.argv[1:])
