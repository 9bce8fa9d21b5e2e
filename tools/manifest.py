#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# how each property is decided, and what the decision rests on
T = {
 "C01": ("property-based testing: generated objects against an independent wire-format model, both ways", "Random and boundary objects; trusts the reference encoder in harness/ref, which real testnet data confirms."),
 "C02": ("property-based testing: generated messages against an independent wire-format model, both ways", "Random and boundary fields; addresses inside messages are seen through the peers table only."),
 "C03": ("structured mutation fuzzing, differential against an independent parser", "Near-valid bytes for all twelve message kinds; sign-vector padding of range proofs, list order in blocks and mapped IPv4 addresses are not judged."),
 "C04": ("structured mutation fuzzing with panic, exit, hang and allocation oracles", "Random, corrupted, truncated and length-inflated encodings; memory is measured as allocated bytes."),
 "C05": ("property-based testing of generated frame streams with injected faults against a framing model", "Generated streams, fragmentations and write faults up to the message size limit."),
 "C06": ("property-based testing: permutation metamorphic relation and sortedness oracle", "Generated lists up to 20 items with duplicates, nearly sorted ones included."),
 "C07": ("property-based differential testing against a reference SipHash", "Random hashes; the reference is checked against the repository's own constants."),
 "C08": ("property-based differential testing against a brute-force cycle enumerator on small graphs", "All cycles of a bounded search in graphs of up to 4096 edges, with near-misses; bigger graphs through mined cycles."),
 "C09": ("property-based differential testing against Blake2b of reference encodings", "Generated headers and items."),
 "C10": ("mutation testing of real mined headers: any change must invalidate them", "Bit and range changes of headers mined offline for this purpose; assumes no hash collisions."),
 "C11": ("property-based testing of mined headers under a simulated clock against a rule model", "Headers mined for versions, sizes and times around every limit; times in whole seconds."),
 "C12": ("property-based single-fault testing of fully valid blocks against a rule model", "Range proofs come from a fixed list made offline; rules that gringo leaves out (sums, weight, roots) aren't judged."),
 "C13": ("property-based differential testing against reference Schnorr arithmetic, with forged kernels", "Trusts the reference curve arithmetic in harness/ref."),
 "C14": ("property-based testing: algebraic laws and reference curve arithmetic", "Trusts the reference curve arithmetic in harness/ref."),
 "C15": ("property-based differential testing against a big-integer reference of the difficulty rule", "Histories where nothing overflows 64 bits."),
 "C16": ("property-based differential testing against big-integer arithmetic", "Random and boundary hashes."),
 "C17": ("model-based testing of generated chains and locators", "Storage is a model of one; chains of up to 600 blocks."),
 "C18": ("model-based testing of mined blocks on generated chains, with single faults", "Storage is a model of one; heights limited by what was mined offline. One known finding is suppressed by its key."),
 "C19": ("model-based fault injection into chains of mined blocks", "Storage is a model of one; chain length limited by what was mined offline."),
 "C20": ("property-based testing of header lists against a rule model", "Lists of mined headers, wall clock between 2019 and 2099."),
 "C21": ("property-based testing against a model of the storage", "Generated genesis and last blocks."),
 "C22": ("model-based testing over loopback TCP with generated handshakes and faults", "Real sockets; timeouts are judged with a wide margin."),
 "C23": ("stateful model-based testing of message histories over loopback TCP", "Histories of generated messages against a model of the node."),
 "C24": ("stateful testing of generated misbehaviour over loopback TCP against a ban model", "Real sockets; what must not happen is watched for a short while after it could have."),
 "C25": ("stateful model-based testing of the peers table", "Generated operation sequences, also from several goroutines."),
 "C26": ("fault-sequence testing of the connection manager over loopback TCP", "Real sockets and the real one-second pace of connecting."),
 "C27": ("concurrency stress testing of generated schedules with deadlock and framing oracles", "Real schedules, not exhaustive; a stuck call is one that takes over two minutes."),
 "C28": ("fault-sequence testing: stopping the node at generated points over loopback TCP", "Real sockets and schedules."),
 "C29": ("model-based testing of block propagation over loopback TCP", "Peers whose claimed state is generated; ping round trips separate what was sent from what wasn't."),
 "C30": ("fuzzing of a running node over loopback TCP with a liveness oracle", "Structured corruptions of frames; a crash ends the process and is caught by the supervisor."),
 "C31": ("stateful and concurrent property-based testing of mixed operations against the results each has alone", "Real schedules, not exhaustive."),
 "C32": ("property-based testing of the nonces recovered from signatures, across goroutines and processes", "Relations and biases that are looked for; other predictability isn't noticed."),
 "C33": ("fault-sequence testing over loopback TCP with a leak oracle on goroutines and sockets", "Real sockets and schedules; what must go may take 25 seconds."),
 "C34": ("stateful fuzzing of the compiled node program over loopback TCP", "Needs the loopback port 13414, which is fixed in the program."),
}
NA = []
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                 "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                 "evidence_file": "evidence/%s.json" % p["id"],
                 "technique": T[p["id"]][0], "level": "exploration", "level_note": T[p["id"]][1]} for p in props],
     "not_applicable": NA,
     "notes": "No hooks: every check uses exported API, logrus' exit handlers and loopback sockets. check.py --replay FILE runs a reported case again."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
