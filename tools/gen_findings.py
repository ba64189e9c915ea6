#!/usr/bin/env python3
"""Writes /verif/KNOWN_FINDINGS.json (genuine defects: those recorded here and those repaired in /repo)."""
import json
import pathlib

ROOT = pathlib.Path(__file__).parent.parent


def c11(finding, members, value):
    spec = {"modules": [{"name": "simu_0", "classes": [{"name": "Alpha", "kind": "dataclass", "fields": members}]}]}
    return {
        "prop": "C11",
        "hashseed": 0,
        "run": ["finding", 0, 0],
        "finding": finding,
        "u": spec,
        "register": [],
        "threads": [[{"t": ["cls", "Alpha"], "v": ["obj", "simu_0.Alpha", value]}]],
        "plan": {"mode": "replay", "decisions": [], "faults": []},
    }


known = [
    {
        "property": "C11",
        "signature": "integer in int | float",
        "what": "schema of Union[int, float] is oneOf [integer, number]: an intact message with an integer matches both and is stopped",
        "case": c11("integer in int | float", [{"name": "x", "type": ["union", ["int"], ["float"]]}], [["x", ["int", 1]]]),
    },
    {
        "property": "C11",
        "signature": "integer in JsonType",
        "what": "schema of JsonType is oneOf [..., integer, number, ...]: an intact message with an integer matches both and is stopped",
        "case": c11("integer in JsonType", [{"name": "x", "type": ["json"]}], [["x", ["int", 1]]]),
    },
]

fixed = [
    "fixed: property=C05 acfd47f engine cache keyed by the name of classes: same-named classes got each other's engines",
    "fixed: property=C04 755fbc3 options were not part of the cache key, and later changes of the caller's options object took effect",
    "fixed: property=C01 b942851 engines were visible to other threads before they were complete (also C03: an aborted build stayed in the cache)",
    "fixed: property=C14 b517d3a two threads could both create a module of the same name",
    "fixed: property=C10 e5c7c9f a caller that changed the examples in a schema changed later schemas",
    "fixed: property=C13 896e7dd type ordering lost dependencies of types that a dependency function reports, changed its argument, iterated a one-shot iterator twice",
    "fixed: property=C09 0c619d9 a registration was visible by type before it was visible by name, two registrations of a type could both succeed",
    "fixed: property=C04 f80c0f8 a union did not try later member types after a value error (also C06)",
    "fixed: property=C12 d43dec9 the discriminator of tagged unions depended on the order of a set (also C07: unhashable or missing discriminators raised TypeError, KeyError)",
    "fixed: property=C07 ae0683c numbers, dates and durations out of range raised OverflowError",
    "fixed: property=C07 2b52e52 booleans were read as numbers (also C06)",
    "fixed: property=C11 821f0cb schema listed Python names of members in place of JSON names",
    "fixed: property=C11 6dbeda4 no schema for members of type IPv4Address and IPv6Address",
    "fixed: property=C06 bf85f10 named tuples with optional, defaulted or renamed members could not be read back",
    "fixed: property=C06 eef920e negative durations could not be read back",
    "fixed: property=C06 2241606 aliases under string annotations were ignored",
    "fixed: property=C06 e72ecd8 objects of classes recursive through containers could not be serialized",
    "fixed: property=C08 f68da46 a record was written in several steps: records of concurrent callers were mixed, a failed dump left a part of a value",
    "fixed: property=C06 845b2c3 annotated types in the context of a class could not be serialized",
    "fixed: property=C06 d42fd81 tagged unions with a renamed discriminator could not be read back",
    "fixed: property=C11 4827358 schema had a dangling reference to a registered type that is mentioned by name",
    "fixed: property=C06 6eac307 annotated forward references could not be read back",
    "fixed: property=C11 36d6fa0 intact messages with a time of day were stopped (format check of an unrelated dialect)",
    "fixed: property=C11 3d5943e schema had a dangling reference to a registered type that a builtin generic mentions by name",
    "fixed: property=C15 f22fcab objects of classes that inherit a recursive member could not be serialized (found by C15, concerns C06)",
    "fixed: property=C11 e8a6cc1 members of large enumerations were used as regular expressions for dictionary keys (messages with keys such as c++ were stopped, keys such as axb for a.b passed)",
    "fixed: property=C17 4bc9798 no type could be made from a schema whose definitions refer to themselves or to later ones",
    "fixed: property=C17 03cb84b values of enumerations in schemas were lost or refused because of their member names (a-b and a_b, mro, the empty string)",
    "fixed: property=C05 ef77609 classes named like local variables of the reader (typ, module) were taken for these variables (also C13: order of such types raised RecursionError or TypeError)",
]

if __name__ == "__main__":
    p = ROOT / "KNOWN_FINDINGS.json"
    p.write_text(json.dumps({"known": known, "fixed": fixed}, indent=1) + "\n")
