#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, subprocess
NOTE = {
 "C01": "All handshake interfaces against each other and against the reference peer, under fragmentation, delay, stalls, short transfers and preemption.",
 "C02": "The reference peer (independent ChaCha20/Poly1305/HKDF and framing; only the curve arithmetic is shared) decodes every byte and compares with the plan.",
 "C03": "History of writes and reads in both directions compared with the plan; bounded completion after the last byte was deliverable.",
 "C04": "Attacker in the transport; returned payloads must be a prefix ending before the first modified byte.",
 "C05": "Attacker in the transport during the handshake, mirrors, wrong roles, networks and secrets; the handshake may succeed only on an untouched stream.",
 "C06": "Session bytes sent early and grouped with the handshake; bytes recovered after into_inner compared with those sent.",
 "C07": "Read futures dropped at seeded awaits of the simulated transport, compared with the written payloads.",
 "C08": "Stream cut or failing at seeded offsets; promptness and classification of the error.",
 "C09": "Hostile reference peer and raw noise, allocator observed for every call.",
 "C10": "EINTR, short transfers, write-zero-free partial transfers and spurious Pending at every transport call.",
 "C11": "Worker thread or task, application and back-pressure interleaved by the seeded scheduler.",
 "C12": "The reference peer decodes garbage, decoys and packets and compares with the configuration.",
 "C13": "Simulated minutes to hours of idle time with transport stalls, late timers and clock steps; gaps between decoys measured in simulated time.",
 "C14": "Drops at seeded moments, including stalled transports; worker threads, transport release and later bytes observed.",
 "C15": "Write, flush and partial-write failures at seeded calls of the transport, including inside background decoys.",
 "C16": "Preemption between single instructions of the recording threads and stepped clocks; ratio and age compared with the records.",
 "C17": "Simulated OS entropy; keys, terminators, session ids and shaping material compared within and across processes.",
 "C18": "Seeded sequences of refused and accepted calls checked against the reference ciphers.",
 "C19": "Faults confined to one direction, the other is held to the full delivery guarantee.",
 "C20": "Hooked session age up to beyond 2^32 messages, against the reference ciphers at the same age; long real sessions across many rotations.",
 "C21": "The same plan run through the three interfaces and compared.",
 "C22": "Up to seven connections per process, some in trouble, async ones often sharing one runtime; the healthy ones are held to the full guarantees.",
 "C23": "Live heap bytes of the code under test followed through long sessions, long handshakes, failures, cancellations and abandoned handshakes; transports and memory released at the end.",
}
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
hook = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H", "--grep=^Add simulation hooks"], text=True).split()
checks = []
for p in props:
    i = p["id"]
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with seeded fault injection",
        "level": "exploration",
        "level_note": NOTE[i] + " Seeded search: it shows the property on the runs explored, not on all. Trusts the simulator kernel, the transport model, the reference peer and the oracle in /verif/harness, and secp256k1.",
    })
json.dump({
    "version": 1,
    "setup_cmd": "bash build.sh",
    "hooks": {
        "guard": "cfg(bip324_sim)",
        "enable": 'RUSTFLAGS="--cfg bip324_sim" (build.sh); falls back to a build without it if the guarded lines do not compile',
        "source_commits": hook,
    },
    "checks": checks,
    "not_applicable": [],
    "notes": "One harness crate decides all properties; see DESIGN.md. Replay a violation with: bash replay.sh <file>.",
}, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
