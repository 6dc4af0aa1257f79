#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after adding a check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Generated-input search: no counterexample among the generated cases, whose number and classes the "
        "evidence file states; it proves nothing beyond them. Trusted: the reference codecs and models in "
        "harness/, the Go runtime, gorilla/websocket as the peer's WebSocket implementation, and the in-memory "
        "network and HTTP driver that stand in for TCP and net/http. ")
T = {
 "C01": ("rapid-generated packet lists, reference payload encoder, posted in generated chunks; round trip through the payload codec", ""),
 "C02": ("rapid-generated messages polled in generated encodings, reference decoders as oracle", ""),
 "C03": ("generated, mutated and truncated bodies and frames; status, containment, allocation and liveness oracle", ""),
 "C04": ("model-based generation of handshake requests, sequential and concurrent", ""),
 "C05": ("stateful generated traffic on one session against two FIFO queues; virtual-time stalls", ""),
 "C06": ("stateful generated interleavings of upgrade steps and traffic against two FIFO queues", "Schedules are constructed with gates and stalls and repeated, not enumerated."),
 "C07": ("stateful generated upgrade failures (fault injection at every step) against two FIFO queues", "Schedules are constructed with gates and stalls and repeated, not enumerated."),
 "C08": ("generated timing histories on virtual time against an exact expiry model", ""),
 "C09": ("stateful generated lifecycle histories against an automaton per session and namespace", ""),
 "C10": ("generated populations of sessions with a stalled subset against an exact routing model", ""),
 "C11": ("generated packets: encoder against a reference decoder, reference encoder variants against the decoder", ""),
 "C12": ("generated packets: msgpack encoder against a reference decoder and back; frame counts on the wire", ""),
 "C13": ("generated and mutated frame histories followed by valid packets", ""),
 "C14": ("generated handler signatures and argument lists against a reference conversion", ""),
 "C15": ("stateful generated acknowledgement histories against an id-indexed model", ""),
 "C16": ("stateful generated namespace histories against a registration model", ""),
 "C17": ("generated concurrent emitters, frames checked by a reference reassembler", "Schedules are sampled."),
 "C18": ("generated concurrent API histories under the race detector", "Only races on executed schedules are seen."),
 "C19": ("stateful generated emit histories with failing arguments against a model of what must arrive", ""),
 "C20": ("generated server scripts against the client, in memory, over TCP and on virtual time", ""),
 "C21": ("stateful generated header histories against a map model", ""),
 "C22": ("generated session endings with pending requests; goroutine, connection and memory leak oracle", ""),
 "C23": ("stateful generated histories on one polling connection against a queue model, on virtual time", ""),
}
done = set(open(os.path.join(V, "tools", "claimed.txt")).read().split())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    if p not in done:
        m["not_applicable"].append({"property": p, "reason": "its check is still being built"})
        continue
    t, n = T[p]
    m["checks"].append({"property": p, "quick_cmd": f"./check.py {p} --tier quick", "thorough_cmd": f"./check.py {p} --tier thorough",
                        "evidence_file": f"evidence/{p}.json", "technique": "property-based testing: " + t,
                        "level": "exploration", "level_note": NOTE + n})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
