#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).parent.parent
sys.path.insert(0, str(ROOT))

TECHNIQUE = "deterministic simulation with fault injection: "
CHECKS = {
    "C01": (
        "seeded bytecode-level thread schedules, each call compared with the same call alone in a process of its own",
        "Seeded search over interleavings of 2-4 threads; trusts CPython's GIL semantics (a bytecode instruction is atomic).",
    ),
    "C02": (
        "seeded bytecode-level thread schedules, each call compared with the same call alone in a process of its own",
        "Seeded search over interleavings of 2-4 threads; trusts CPython's GIL semantics (a bytecode instruction is atomic).",
    ),
    "C03": (
        "asynchronous exceptions, stack exhaustion, re-entrant signal handlers and failing hooks injected at seeded bytecodes; "
        "later calls compared with a process without the abort",
        "Seeded search over abort points; asynchronous exceptions arrive where CPython 3.12 checks for them.",
    ),
    "C04": (
        "seeded histories of calls with changing options, contexts and data; each call compared with the call alone and, for "
        "unions and unknown members, with a reference model",
        "Seeded search over call histories and thread schedules.",
    ),
    "C05": (
        "seeded life cycles of same-named classes (created, discarded, collected, re-created) with controlled collection; "
        "compared with the same call in a process that never saw the others",
        "Seeded search over histories; address re-use is provoked, not guaranteed.",
    ),
    "C06": (
        "writer processes, a record log on a simulated device (short and torn writes, I/O errors, crashes), restart and "
        "concurrent readers; decoded records compared with what was written",
        "Seeded search over faults, crash points and schedules; the reference model covers the supported types.",
    ),
    "C07": (
        "seeded damage of messages in a simulated channel, outcome compared with an executable reference model",
        "Seeded search; the model leaves the contents of formatted strings unspecified in places (see DESIGN.md).",
    ),
    "C08": (
        "real text stream over a simulated device with write faults, interrupts, crashes and concurrent writers; stream "
        "contents checked after every run",
        "Seeded search over fault placements and schedules; json and io of the standard library are real.",
    ),
    "C09": (
        "seeded thread schedules and interrupts, recorded history checked for linearizability against a write-once register",
        "Seeded search over interleavings of 2-4 threads.",
    ),
    "C10": (
        "seeded thread schedules, aborted requests and destructive callers; schemas compared text for text with the request "
        "made alone in a process of its own",
        "Seeded search over interleavings and histories.",
    ),
    "C11": (
        "simulated sender, damaging channel and schema gateway, verdicts compared with an executable reference model",
        "Seeded search; two known findings (integers in int | float) are listed in KNOWN_FINDINGS.json.",
    ),
    "C12": (
        "the same seeded case run under eight hash seeds and class hash codes, outcomes compared",
        "Seeded search; eight hash seeds per case.",
    ),
    "C13": (
        "seeded iteration orders of nodes and edges, failing and re-entrant dependency functions, concurrent callers; results "
        "checked against a reference dependency relation",
        "Seeded search over graphs, class structures and hash codes.",
    ),
    "C14": (
        "seeded thread schedules, interrupts and a competing party; recorded history checked against a write-once register",
        "Seeded search over interleavings of 1-4 threads.",
    ),
    "C15": (
        "seeded thread schedules with callers that destroy inputs and results between and during calls; identity and value "
        "checks over the recorded history",
        "Seeded search over schedules and histories.",
    ),
    "C16": (
        "seeded histories and thread schedules of queries with aborts, failing callbacks and scrambled answers; each answer "
        "compared with the same query alone in a process of its own",
        "Seeded search over histories, schedules and abort points; shows independence of history, not correctness of an answer.",
    ),
    "C17": (
        "simulated relays (threads with modules of their own, several hops, aborts) between a sender and a receiver over a "
        "channel that damages messages; compared with a reference model of the receiver",
        "Seeded search over schemas, messages, schedules and damage; the reference model covers the supported subset.",
    ),
}

PURE = "pure function of its argument: no schedule, clock, I/O, randomness, failure or other party takes part; "
NOT_APPLICABLE = {
    "C20": PURE + "whether parsing and printing a documentation string agree is a question about inputs only",
    "C21": PURE + "whether the text of a type denotes it is a question about inputs only",
    "C22": PURE + "whether a type built from a schema has that schema is a question about inputs only",
    "C23": PURE + "conformance of a schema to its dialect is a question about inputs only (its repeatability under schedules and faults is C10)",
    "C24": PURE + "flattening works on the single document given",
    "C25": PURE + "the checks walk the single object given",
    "C26": PURE + "answers depend on the type expression only",
}

if __name__ == "__main__":
    doc = {
        "version": 1,
        "setup_cmd": "./check --selftest",
        "checks": [
            {
                "property": p,
                "quick_cmd": f"./check {p} quick",
                "thorough_cmd": f"./check {p} thorough",
                "evidence_file": f"evidence/{p}.json",
                "technique": TECHNIQUE + t,
                "level": "exploration",
                "level_note": n,
            }
            for p, (t, n) in CHECKS.items()
        ],
        "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE.items()],
        "notes": "No hooks in /repo: the seams are those of the interpreter (sys.monitoring instruction events, thread and lock "
        "primitives, clocks, hash seed) and of the code's own interfaces (streams, hooks, callbacks, options). "
        "'./check PROPERTY --replay FILE' replays a violation.",
    }
    (ROOT / "MANIFEST.json").write_text(json.dumps(doc, indent=1) + "\n")
