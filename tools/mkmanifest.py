#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
T = {
 "C01": ("round-trip property over generated frame sequences", ""),
 "C02": ("differential fuzzing against an independent SPOP codec", "trusts the reference codec written from the SPOP specification"),
 "C03": ("boundary-biased generation against a 128-bit reference codec", ""),
 "C04": ("round-trip and conversion-law properties over generated values", ""),
 "C05": ("generated and coverage-guided (libFuzzer, thorough tier) fuzzing of byte streams with crash, progress and memory oracles", "termination judged by a 100 s CPU watchdog per case"),
 "C06": ("structural mutation and coverage-guided (libFuzzer, thorough tier) fuzzing, accept iff the strict reference decoder accepts", "trusts the reference decoder's reading of the specification"),
 "C07": ("boundary-directed generation of limits and sizes, codec and conversations", ""),
 "C08": ("generated transport schedules and faults over a scripted stream", ""),
 "C09": ("model-based testing of fragment interleavings, single and multi-threaded", "thread interleavings are sampled, not enumerated"),
 "C10": ("model-based operation histories with observed wake-ups", "thread interleavings are sampled, not enumerated"),
 "C11": ("model-based operation histories on acknowledgement handles", ""),
 "C12": ("generated hello/configuration pairs against a negotiation oracle", ""),
 "C13": ("model-based conversations over an in-memory transport with a virtual clock", "trusts the connection model in conv.rs"),
 "C14": ("model-based conversations with generated service outcomes under a virtual clock", "delays within 5 % of the limit are not generated"),
 "C15": ("generated readiness scripts against an instrumented service asserting the contract", ""),
 "C16": ("model-based conversations with a generated protocol violation at any position, and coverage-guided fuzzing of conversation bytes (thorough tier)", "where the specification leaves the status open, any status naming the cause is accepted"),
 "C17": ("generated codes and nested errors against the status table", ""),
 "C18": ("generated crowds of good and bad TCP peers against per-connection models", "real sockets on loopback: schedules are sampled"),
 "C19": ("generated connection states at shutdown, virtual-clock and TCP", "real sockets on loopback: schedules are sampled"),
 "C20": ("generated listener modes and descriptor-exhaustion scripts in a child process", "accept failures other than exhausted descriptors are not injected"),
 "C21": ("generated, mutated and (thorough tier) coverage-guided header blocks against an independent encoder/parser", ""),
 "C22": ("generated constructor arguments and texts against structural and wire oracles", ""),
 "C23": ("metamorphic comparison with and without a verbose tracing subscriber", ""),
 "C24": ("invariant over long generated histories: bytes held by the serving thread, services and descriptors do not grow with repetitions", "retention below 8 to 64 bytes per repetition is not seen"),
}
checks = []
for k, (t, n) in T.items():
    checks.append({
        "property": k,
        "quick_cmd": f"./check.sh {k}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {k}",
        "evidence_file": f"evidence/{k}.json",
        "technique": "property-based testing: " + t,
        "level": "exploration",
        "level_note": "Holds on every generated case of the run (counts in the evidence file); absence of violations beyond them is not established" + (f"; {n}" if n else "") + ".",
    })
m = {"version": 1, "setup_cmd": "./check.sh C17", "checks": checks, "not_applicable": [],
     "notes": "No hooks: everything is observed through the public API, the wire and an instrumented service."}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
