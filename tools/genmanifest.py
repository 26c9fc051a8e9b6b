#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("hostile-input execution with panic, consumption, allocation and CPU-time monitors", "Random, mutated and structural inputs through seven buffer types with overflow checks on; sampling, not enumeration."),
 "C02": ("round-trip oracle over generated packets", "Generated packets of all types incl. boundary lengths; encode/decode compared with what was put in."),
 "C03": ("differential execution against an independent MQTT 5.0 reference codec", "Reference encoder/decoder written from the specification; both directions, all packet types, properties and reason codes."),
 "C04": ("differential execution against an independent reference decoder on mutated frames", "All tiny frames exhaustively, all one-byte substitutions of base frames, structural mutants; three listed deviations are known findings."),
 "C05": ("framing oracle on streams, prefixes and trailing bytes", "Every prefix of generated frames, streams of frames, trailing garbage."),
 "C06": ("shadow-model monitor over random builder call sequences", "Random legal and illegal calls; frame compared with the shadow model after every call."),
 "C07": ("oracle comparison over enumerated and random strings at every entry point", "All strings up to length 7 over the relevant alphabet, random longer ones."),
 "C08": ("metamorphic monitor: same bytes under many buffer layouts", "Verdict, contents and consumption compared between layouts."),
 "S01": ("model-based monitor: every delivery of random histories against a reference broker", "Random histories of clients on both listeners under scheduling noise; each delivered and missing packet is compared with the model."),
 "S02": ("stress with an online order/loss/duplication checker", "Concurrent publishers and subscribers over all queue sizes with forced yields; sequence numbers checked per publisher."),
 "S03": ("model-based monitor of acknowledgements and of their effect", "Random SUBSCRIBEs of all shapes against the model; the effect is probed by publications after the SUBACK."),
 "S04": ("hostile-input stress with panic, liveness and isolation monitors", "Concurrent attackers of ten kinds; panics of server tasks, bystanders, registrations and new connections are watched."),
 "S05": ("hostile-input execution with effect and registration monitors", "Wrong first packets, malformed and unsupported CONNECTs with pipelined requests."),
 "S06": ("oracle comparison of every CONNACK with the request and configuration, sequential and concurrent connects", "Random supported CONNECTs; uniqueness within the connections of one broker."),
 "S07": ("boundary-value stress with a size and delivery oracle at every receiver", "Packets around all configured and announced limits on both listeners."),
 "S08": ("fault injection at connection ends with registration, table, socket and CPU-time monitors", "Ten ways of ending a connection in different states."),
 "S09": ("stress of identifier takeovers with delivery and registration monitors", "Sequential chains and simultaneous storms of connections under one identifier."),
 "S10": ("model-based monitor in both permeability modes", "Random histories with both kinds of clients; every delivery compared with the model."),
 "S11": ("fault injection: shutdown in random client states with completion, close and panic monitors", "Random mixes of client states, floods and connections arriving during the shutdown."),
 "S12": ("oracle over executions of unsupported requests with effect monitors", "All kinds of unsupported requests with random properties and preceding traffic."),
 "S13": ("active attacks on the Noise channel with effect, closing and wire-secrecy monitors", "Tampering, replay, reordering, truncation, plaintext, wrong keys in handshake and transport."),
 "S14": ("metamorphic monitor: same packets under many segmentations against a deterministic model", "Random scripts, five segmentations and pipelining depths, both listeners."),
 "S15": ("offline history checker over recorded operations, seeded scheduler and real threads", "Each lookup compared with what must and may be in force; deadlocks detected exactly by the seeded scheduler."),
 "S16": ("model-based monitor of No Local and re-subscription", "Random histories concentrating on options; every delivery compared with the model."),
 "S17": ("stress with stalled and slow clients, delivery and latency monitors", "Stalled subscribers, half packets and half handshakes while others exchange messages."),
 "M01": ("undefined-behaviour interpreter (Miri) on codec and subscription table, AddressSanitizer on codec and broker, ThreadSanitizer on the broker", "Generated and broken inputs and the workloads of the other checks; a report counts when the access was made by code under /repo."),
 "R01": ("heap accounting per broker (counting allocator) and socket monitor over long histories of clients that come and go", "Eighteen kinds of history; live bytes and blocks are read after every round with the same clients connected and have to stop growing; growth counts when three series of rounds in a row show it."),
 "R02": ("heap accounting per broker (counting allocator: live and peak) under hostile announcements and dense packets", "Connections at every stage on both listeners; at rest three packet sizes plus 128 KB each, on the way a hundred packet sizes plus 1 MB."),
 "D01": ("trace monitors around the running server process: hostile clients, stops, a scaled clock (LD_PRELOAD), descriptor limits, odd output and log settings", "26 starts of the real binary with random environments; one hour of its clock; descriptor exhaustion down to one processor."),
 "B01": ("trace monitor at a recording broker stand-in, with segmentation, delays and connection faults injected", "Random configurations of the real tool as a process; every packet, close and exit status is judged; a timing deviation counts when it shows three times in a row."),
 "B02": ("oracle comparison of the printed report with timings controlled and recorded by a broker stand-in", "Held publications, stalled publishers and all delay options; upper bounds on times count when exceeded three times in a row."),
 "S18": ("timed monitor of connections that never complete", "Silent, partial and trickling connections with a keep alive of one second; the bound allows three times the keep alive and scales with machine load."),
}
checks = []
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l)["id"]
    if p not in T:
        continue
    checks.append({"property": p, "quick_cmd": f"./run.py {p} quick", "thorough_cmd": f"./run.py {p} thorough",
                   "technique": T[p][0], "level": "exploration", "level_note": T[p][1]})
m = {"version": 1, "setup_cmd": "./run.py setup", "checks": checks, "not_applicable": []}
HOOKS = os.path.join(V, "tools/hooks.json")
if os.path.exists(HOOKS):
    m["hooks"] = json.load(open(HOOKS))
# every property without a check yet
for l in open(f"{V}/properties.jsonl"):
    p = json.loads(l)["id"]
    if p not in T:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
