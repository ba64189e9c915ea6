"Writes the table of planted bugs into DESIGN.md."

import json
import pathlib
import re

root = pathlib.Path(__file__).resolve().parent.parent

# bugs that the check of the property missed when they were planted, and what was added to it
MISSED = {
    "b31": "C16: answers scrambled between calls, docstrings of several owners",
    "b32": "C16: the same type with its members in another order",
    "b33": "C16: a second module",
    "b34": "C16: storms of failing queries",
    "b35": "C16: objects that are discarded and made anew",
    "b38": "C17: twin enumerations and classes that use them",
    "b40": "C17: choices of inline types",
    "b44": "C03: storms of aborted calls",
    "b47": "C06: time zones that are off by seconds",
    "b49": "C08: devices that fail once and then go on; more error numbers",
    "b51": "C10: more kinds of types",
    "b63": "C06: long texts and binary data, large collections",
    "b64": "C07: values replaced by words that the types use",
    "b66": "C09: attempts with the data of another attempt",
    "b70": "C13: enumerations",
    "b74": "C16: questions asked again with one argument changed",
    "b100": "C17: senders with other names for the same types",
    "b103": "C07: longer and shorter words in every text",
    "b105": "C07: texts with something added in front or behind",
    "b120": "C14: modules of packages, looked up in the package",
    "b134": "C06: text in decomposed form, with marks and spaces at its ends",
    "b135": "C07: words for special numbers",
    "b136": "C08: files that can be positioned (caught before, but for want of such files)",
    "b139": "C12: classes with equal hash codes",
    "b142": "C16: names of classes that are discarded and made anew",
    "b144": "C05: special forms that mention redefined classes by name",
    "b146": "C16: classes compared with what they were; annotations as text",
    "b121": "C16: functions whose annotations their owner changes",
    "b152": "C08: streams of another encoding, records that the application writes itself",
    "b155": "C03: options objects used for several schemas, classes described as such",
    "b158": "C14: modules that only sys.modules refers to",
    "b162": "C02: bare dictionaries with members of an enumeration as keys",
    "b171": "C16: nodes that are flattened more than once",
    "b172": "C12: documents whose discriminators contradict each other",
}


def rows():
    yield "| planted bug | breaks | needs | missed at first; added since |"
    yield "|---|---|---|---|"
    for d in sorted((root / "seeded").iterdir()):
        m = json.loads((d / "meta.json").read_text())
        k = d.name.split("-")[0]
        cell = [x.replace("|", "/").replace("\n", " ") for x in (m["what_it_breaks"], m["needs"])]
        yield f"| {d.name} | {m['property']}: {cell[0]} | {cell[1]} | {MISSED.get(k, '')} |"


path = root / "DESIGN.md"
text = path.read_text()
table = "\n".join(rows())
text = re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)", lambda m: m.group(1) + table + "\n" + m.group(2), text, flags=re.S)
path.write_text(text)
