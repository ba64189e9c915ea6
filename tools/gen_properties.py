#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, pathlib

D = "strong_typing/deserializer.py"
S = "strong_typing/serializer.py"
SZ = "strong_typing/serialization.py"
SC = "strong_typing/schema.py"
I = "strong_typing/inspection.py"
T = "strong_typing/topological.py"
M = "strong_typing/mapping.py"
DS = "strong_typing/docstring.py"
N = "strong_typing/name.py"
C = "strong_typing/classdef.py"
A = "strong_typing/auxiliary.py"
X = "strong_typing/exception.py"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=list(over), text=text),
            why_tests_cant=why,
            anchors=dict(
                files=list(files),
                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                mechanism=[dict(name=n, where=w) for n, w in mechanism],
                observe_at=list(observe),
                hook_needed=hook,
            ),
        )
    )


prop(
    "C01",
    "Concurrent deserialization gives what each call gives alone",
    "However threads are interleaved, every deserialization call made concurrently with others (same or different types, "
    "mutually recursive types, first use of a type or not, separate calls or one shared engine, calls made from inside "
    "from_json hooks) returns the same value, or fails with the same kind of error, as that call made alone in a fresh "
    "process. No call ever observes a partly prepared type, sees data of another call, or blocks for ever.",
    ["schedules", "inputs"],
    "every interleaving of any number of threads, for every supported type and every JSON document",
    "The tests are single-threaded: no test ever has two deserialization calls in progress, and the process-wide engine "
    "cache is filled in one fixed order.",
    [D, SZ],
    [("engine cache filled on first use of a type", D + ": _get_deserializer"), ("stateless parse methods", D + ": *.parse")],
    [("engine cache", "prepared de-serializers shared by all calls of the process", D + ": _CACHE")],
    ["json_to_object, json_to_generic, create_deserializer(...).parse called from several threads"],
)
prop(
    "C02",
    "Concurrent serialization gives what each call gives alone",
    "However threads are interleaved, every serialization call made concurrently with others (same or different types, first "
    "use of a type or not, separate calls or one shared engine, calls made from inside to_json hooks) returns the same JSON "
    "representation, or fails with the same kind of error, as that call made alone in a fresh process. No call ever sees "
    "data of another call, and none blocks for ever.",
    ["schedules", "inputs"],
    "every interleaving of any number of threads, for every supported type and every value of it",
    "The tests are single-threaded; they never overlap two serialization calls nor race the first use of a type.",
    [S, SZ],
    [("memoized engine per class", S + ": _fetch_serializer"), ("stateless generate methods", S + ": *.generate")],
    [("engine cache", "prepared serializers shared by all calls of the process", S + ": _fetch_serializer")],
    ["object_to_json, create_serializer(...).generate called from several threads"],
)
prop(
    "C03",
    "A failed or interrupted call leaves no trace",
    "Abort a deserialization, serialization, schema-generation or type-ordering call at any point (keyboard interrupt, memory "
    "exhaustion, call-stack exhaustion, a type name that cannot be resolved yet, an exception from a user hook, malformed "
    "data): the abort never turns into a wrong result, and every later call in the process gives the same result as in a "
    "process where the aborted call was never made.",
    ["crash_points", "fault_sequences", "inputs"],
    "every point at which a call can be aborted, every kind of abort, and every later call, including calls that re-enter the "
    "library from a signal handler at that point",
    "The tests provoke errors only with malformed data and never reuse the affected types afterwards; no test aborts a call "
    "in the middle.",
    [D, S, SC, T],
    [
        ("engines become visible to other calls only when complete", D + ": create_deserializer / _get_deserializer"),
        ("per-call generator state is reset in a finally block", SC + ": JsonSchemaGenerator.classdef_to_schema"),
    ],
    [
        ("engine cache", "prepared de-serializers", D + ": _CACHE"),
        ("types_used", "types pending definition in a schema generator", SC + ": JsonSchemaGenerator.types_used"),
    ],
    ["json_to_object / object_to_json / classdef_to_schema after an aborted call"],
)
prop(
    "C04",
    "A deserialization call depends on its own arguments only",
    "The outcome of deserializing a document depends only on the type, the document, the context and the options of that "
    "call, never on which calls were made before it, with which options, contexts or data, or on what callers later did to "
    "the options objects they passed. In particular, unknown members are ignored exactly when that call asks for it, at "
    "every nesting level, and a union yields the first member type in declared order that accepts the document.",
    ["histories", "inputs", "configurations"],
    "every sequence of calls over any mix of types, documents, contexts and options",
    "Each test calls with default options in a fixed order; the option to skip unknown members is never exercised, and no "
    "test repeats a call after a different one.",
    [D, SZ],
    [("engine cache keyed by everything that determines an engine", D + ": _get_deserializer")],
    [("engine cache", "prepared de-serializers", D + ": _CACHE")],
    ["json_to_object / json_to_generic with DeserializerOptions(skip_unassigned=...)"],
)
prop(
    "C05",
    "Types are told apart by identity, never by name",
    "Two distinct classes are never confused even if they share name and module: local classes of different functions, nested "
    "classes of different owners, a class redefined or re-created after the earlier one was discarded, same-named classes or "
    "forward-referenced names of different modules. Deserialization into a class yields instances of exactly that class with "
    "its own fields, and serialization and schema generation use exactly that class's own members.",
    ["histories", "programs"],
    "every history of defining, using, redefining, discarding and re-using classes, in any order",
    "All test classes have unique names and live for the whole test run, so a lookup by name and a lookup by identity are "
    "indistinguishable.",
    [D, S, SC],
    [("engine lookup by type", D + ": _get_deserializer"), ("engine lookup by type", S + ": _fetch_serializer")],
    [("engine caches", "map types to prepared engines", D + ": _CACHE")],
    ["json_to_object, object_to_json, classdef_to_schema on same-named classes"],
)
prop(
    "C06",
    "Acknowledged records survive a faulty stream, crash and restart intact",
    "Let processes serialize objects of supported types and append them as records to a stream that suffers short and torn "
    "writes, I/O errors, crashes, duplicated and reordered delivery. Every record whose write was acknowledged is later "
    "decoded, by a freshly started process, in any order and from any thread, to an object equal to the one written (an "
    "absent optional member counting as its default); a torn record is recognisably incomplete and never decodes to a value.",
    ["crash_points", "fault_sequences", "schedules", "inputs"],
    "every value of every supported type (scalars, enumerations, literals, containers, unions with distinguishable members, "
    "data classes, named tuples, typed classes, custom converters, recursive types), every point of failure",
    "The tests round-trip a handful of fixed values in memory, through one process, and never through a stream that fails.",
    [SZ, S, D, M],
    [
        ("matching pairs of serializer and de-serializer classes", S + ", " + D),
        ("property name mapping used on both sides", M + ": python_field_to_json_property"),
        ("newline-terminated compact records", SZ + ": json_dump"),
    ],
    [],
    ["object_to_json + json_dump on a simulated device, json.loads + json_to_object in another process"],
)
prop(
    "C07",
    "A damaged message is rejected or read exactly as it stands",
    "If a message is damaged between sender and receiver (members lost, added, renamed, nulled or swapped, values of another "
    "JSON type, arrays cut or extended, strings or bytes altered), deserialization either raises JsonKeyError, JsonTypeError, "
    "JsonValueError or ValueError, or returns a value of exactly the declared type that says what the damaged message says. "
    "It never accepts a missing required or an unrequested unknown member, never coerces between JSON types, never raises any "
    "other error (exhaustion of memory or call stack apart), and the receiver then reads intact messages correctly.",
    ["fault_sequences", "inputs"],
    "every type, every intact message of it and every sequence of damages",
    "The tests feed a few hand-written malformed values of a few types.",
    [D, X],
    [("type checks at the head of every parse method", D + ": *.parse"), ("unknown member check", D + ": ClassDeserializer.parse")],
    [],
    ["json_to_object / json_to_generic on damaged documents"],
)
prop(
    "C08",
    "A dumped record reaches the stream whole or is detectably absent",
    "A dump call that returns has handed the stream exactly one compact JSON record ended by one newline and containing no "
    "other newline, which parses back to the same JSON value. Whatever write, flush or encoding step fails or is interrupted, "
    "the error reaches the caller, and the stream then holds the earlier records and at most the failed one, whole (interrupted "
    "after its write) or as an unterminated beginning; a value that cannot be represented leaves the stream untouched, and records of concurrent callers of one "
    "stream are never mixed.",
    ["crash_points", "fault_sequences", "schedules", "inputs"],
    "every JSON value, every failing or crashing write, every interleaving of writers",
    "json_dump and json_dump_string are not called by any test.",
    [SZ],
    [("dump followed by a newline", SZ + ": json_dump"), ("compact separators", SZ + ": json_dump_string")],
    [],
    ["json_dump on a text stream over a simulated raw device"],
)
prop(
    "C09",
    "Schema registration is atomic and happens at most once per type",
    "However threads register types for schema generation, look them up and generate schemas, each type is registered by at "
    "most one call; every other registration of it fails with ValueError and changes nothing. Every lookup, by type or by "
    "name, and every reference to a type in a generated schema sees a registration either entirely or not at all, in an order "
    "consistent with real time, also when a registration is interrupted.",
    ["schedules", "histories", "crash_points"],
    "every interleaving and every history of registrations, lookups and schema generations",
    "The tests register types once, at import time, in one thread.",
    [SC],
    [("duplicate check on registration", SC + ": TypeCatalog.add"), ("lookup", SC + ": TypeCatalog.get, __contains__")],
    [("type catalog", "association of types and names with schemas", SC + ": JsonSchemaGenerator.type_catalog")],
    ["register_schema, json_schema_type, get_schema_identifier, classdef_to_schema"],
)
prop(
    "C10",
    "Schema generation is repeatable and isolated",
    "The schema generated for a type is the same document, member for member and in the same order, however often, in whatever "
    "order, from however many threads, and with whatever other types, options, failing description callbacks or dialects it "
    "was generated before or is being generated meanwhile (a generator object being used by one thread at a time). Nothing a caller does to a returned schema affects any other "
    "result.",
    ["schedules", "histories", "inputs"],
    "every type, every interleaving and every history of schema requests and caller mutations",
    "Each test generates a schema once per type and compares it with one expected literal; none runs two generations at once "
    "or modifies a result.",
    [SC, DS],
    [("new generator state per call", SC + ": classdef_to_schema"), ("copy of registered schemas", SC + ": _type_to_schema_with_lookup")],
    [("type catalog", "registered schemas and examples", SC + ": JsonSchemaGenerator.type_catalog")],
    ["classdef_to_schema, JsonSchemaGenerator.classdef_to_schema"],
)
prop(
    "C11",
    "A schema gateway passes intact messages and stops damaged ones",
    "A receiver that checks messages against the schema generated from the sender's type accepts every intact serialized "
    "message of that type, and rejects a message damaged in transit so that a member without default that is not optional is "
    "lost, an unknown member is added to an object of a class with members, a value has the wrong JSON type, a tuple has the wrong length, or an enumeration, literal or range "
    "constraint is broken.",
    ["fault_sequences", "inputs", "histories"],
    "every type whose union members have distinguishable JSON representations, every message, every such damage",
    "The tests validate four fixed objects and no damaged one.",
    [SC, S, M],
    [("schema derivation mirrors serialization", SC + ": JsonSchemaGenerator.type_to_schema"), ("validation", SC + ": validate_object")],
    [],
    ["validate_object on intact and damaged documents"],
)
prop(
    "C12",
    "Outcomes do not depend on hash randomization",
    "In processes that differ only in hash seed and in the hash codes of classes, the same deserialization call has the same "
    "outcome (value or kind of error), the same serialization call gives the same representation up to the order of elements "
    "of sets, and the same schema request gives byte-identical schema text.",
    ["configurations", "inputs"],
    "every pair of hash seeds, every type and document, in particular tagged unions with several discriminators and documents "
    "on which the discriminators disagree or are malformed",
    "The test suite runs under one fixed hash seed.",
    [D, SC, S],
    [
        ("discriminator lookup", D + ": TaggedUnionDeserializer.parse"),
        ("definitions sorted by name", SC + ": JsonSchemaGenerator.classdef_to_schema"),
    ],
    [("disambiguating_properties", "a set of property names iterated while parsing", D + ": TaggedUnionDeserializer")],
    ["json_to_generic, object_to_json, classdef_to_schema in several interpreters"],
)
prop(
    "C13",
    "Dependency order is valid under every traversal order",
    "Whatever order the members of a dependency graph happen to be iterated in, the sort returns every node exactly once, each "
    "after all nodes it depends on, and raises RuntimeError exactly when there is a cycle other than a self-reference (chains "
    "longer than the call stack apart). "
    "Ordering types additionally includes every type they reference and every dependency reported by the caller's dependency "
    "function, which constrains the order whether or not the reported type is already known; inputs are left unchanged.",
    ["schedules", "inputs", "fault_sequences"],
    "every graph, every iteration order of its node and edge sets, every dependency function including failing and "
    "re-entrant ones, and every way of passing the types (list, set, one-shot iterator)",
    "The tests check three small graphs, each under the one iteration order their hash codes give, and one dependency "
    "function that reports an otherwise unknown type.",
    [T, I],
    [("depth-first traversal with temporary marks", T + ": topological_sort"), ("type graph collection", I + ": TypeCollector")],
    [],
    ["topological_sort, type_topological_sort"],
)
prop(
    "C14",
    "A dynamic module has exactly one creator",
    "Of any number of concurrent attempts to create a module of the same name, exactly one succeeds and the others fail with "
    "KeyError; the registered module is the one the successful caller received, and it is never replaced. A failed or "
    "interrupted attempt leaves a module registered by someone else untouched.",
    ["schedules", "crash_points"],
    "every interleaving of creators, interrupts and readers",
    "No test creates the same module twice or from two threads.",
    [I],
    [("check for an existing module", I + ": create_module")],
    [("module table", "modules by name", "sys.modules")],
    ["create_module"],
)
prop(
    "C15",
    "Calls share no mutable data with each other or with their input",
    "Deserialization never changes the document it reads nor keeps a part of it in its result, serialization never changes the "
    "object nor keeps a mutable part of it, and results of separate calls share no mutable part with each other or with any "
    "internal state. Hence no mutation by one party, before, between, during or after calls, changes what another call "
    "returned or will return; default factories run anew for each object. (A default given as an object instead of a factory, such "
    "as the default of a named tuple's member, is one object for all, as everywhere in Python.)",
    ["histories", "schedules", "inputs"],
    "every type, document and history of calls interleaved with mutations of inputs, results and defaults, from any thread",
    "The tests compare fresh results with literals and never modify an input or a result afterwards.",
    [D, S, SC],
    [
        ("containers rebuilt element by element", D + ": ListDeserializer, DictDeserializer, ..."),
        ("factory invoked per object", D + ": DefaultFactoryFieldDeserializer"),
    ],
    [],
    ["json_to_object, json_to_generic, object_to_json"],
)

prop(
    "C16",
    "Answers about types, documentation and schemas depend on the question only",
    "The answers of the query functions (parsed and checked documentation of classes, functions and texts; text and name of a "
    "type; types referred to; members of classes and modules; whether an object is an instance of a type or passes a "
    "recursive check; unwrapped special forms; flattened schemas; types made from a schema; extended enumerations) depend on "
    "their arguments only, and on classes and functions themselves rather than their names: they are the same at any time and "
    "from any thread, whatever was asked before, whichever earlier query failed or was aborted, and whatever callers did to "
    "answers they got. No query changes what it asks about.",
    ["histories", "schedules", "crash_points", "inputs"],
    "every sequence of queries about any types, functions, objects, texts and schemas, from any number of threads, with "
    "queries aborted at any point and answers modified by callers",
    "The tests ask each question once, in one thread, and never modify an answer.",
    [DS, I, N, C, SC],
    [
        ("documentation parsed anew for each query", DS + ": parse_type, parse_text"),
        ("collector with a graph of its own per query", I + ": get_referenced_types, TypeCollector"),
        ("formatter", N + ": TypeFormatter"),
        ("copies of schema nodes", C + ": SchemaFlattener, schema_to_type"),
    ],
    [],
    ["parse_type, parse_text, python_type_to_str, python_type_to_name, get_referenced_types, get_class_properties, "
     "is_generic_instance, check_recursive, flatten_schema, schema_to_type, extend_enum"],
)
prop(
    "C17",
    "A relay that knows only a schema passes messages on unchanged",
    "A program that has only the JSON schema published for a class, makes a type from it in a module of its own, parses a "
    "message with this type and serializes the result, passes on what the receiver decodes to the same object as the original "
    "message; it refuses no intact message, and passes on no message with missing required or unknown members, or with members "
    "of another JSON type or outside an enumeration. This holds for classes that refer to registered classes (recursively, too), "
    "for any number of relays at the same time, for types with the same names in different modules, for relays that learn from "
    "the schema of another relay's type, and after relays were aborted. (Types that can be made from schemas have no tuples, "
    "dictionaries, sets, binary data, unrestricted JSON members or decimal numbers, and member names are identifiers.)",
    ["schedules", "histories", "inputs", "crash_points"],
    "every class in the supported subset, every message, any number of relays and hops, every damage listed",
    "The tests compare a few types made from fixed schemas with expected classes, and parse no message with them.",
    [C, SC, D, S],
    [("types made from schema nodes", C + ": schema_to_type, node_to_typedef"), ("schema of a class", SC + ": classdef_to_schema")],
    [],
    ["classdef_to_schema, schema_to_type, json_to_object, object_to_json"],
)

# ---- pure functions of their input: deterministic simulation cannot address these ----
prop(
    "C20",
    "Documentation strings survive a parse and print cycle",
    "Parsing a documentation string built from a description, parameters, returns, raises and see-also items yields exactly "
    "those items, and printing the parsed form and parsing it again gives an equal structure.",
    ["inputs"],
    "every documentation string made of the supported items",
    "The tests parse a few fixed documentation strings.",
    [DS],
    [("regular-expression parser", DS + ": parse_text"), ("printer", DS + ": Docstring.__str__")],
)
prop(
    "C21",
    "The text of a type denotes that type",
    "Evaluating the string produced for a type, in a scope that defines the names it mentions, gives back an equal type.",
    ["inputs", "programs"],
    "every type built from the supported special forms",
    "The tests compare a fixed list of types with expected strings.",
    [N],
    [("type formatter", N + ": TypeFormatter")],
)
prop(
    "C22",
    "Types built from a schema have that schema",
    "For every schema in the supported subset, generating a type from it and generating the schema of that type gives an "
    "equivalent schema.",
    ["inputs", "programs"],
    "every schema in the supported subset",
    "The tests convert a handful of fixed schemas.",
    [C, SC],
    [("schema to type conversion", C + ": node_to_typedef")],
)
prop(
    "C23",
    "Generated schemas conform to their declared dialect",
    "For every supported type, the generated schema is a valid schema document of the dialect it declares, and every reference "
    "in it resolves inside the document.",
    ["inputs", "programs"],
    "every supported type and dialect",
    "The tests generate schemas for a fixed list of types.",
    [SC],
    [("meta-schema check", SC + ": classdef_to_schema")],
)
prop(
    "C24",
    "Flattening a schema keeps its leaf properties",
    "Flattening keeps every leaf property and its required status, adds none, and leaves the source schema unchanged.",
    ["inputs"],
    "every object schema and both naming options",
    "The tests flatten two fixed schemas.",
    [C],
    [("flattener", C + ": SchemaFlattener")],
)
prop(
    "C25",
    "Recursive checks visit every nested member",
    "A recursive predicate check returns true exactly if the predicate holds on every nested member of the object, and the "
    "generic instance test is true exactly if every nested item conforms to the type.",
    ["inputs"],
    "every object and predicate",
    "The tests use a few fixed objects and predicates.",
    [I],
    [("recursive checker", I + ": RecursiveChecker")],
)
prop(
    "C26",
    "Type inspection answers match how the type was written",
    "For every annotated type expression the inspection predicates (optional, union, literal, generic container, annotated) "
    "and their unwrapping counterparts agree with the expression, with and without annotations wrapped around it.",
    ["inputs", "programs"],
    "every type expression",
    "The tests check a fixed list of type expressions.",
    [I, A],
    [("predicates and unwrap functions", I)],
)

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P), "properties;", max(len(p["title"]) for p in P))
