#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property, from the notes below."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = (" Assumes the harness's own schema model (engine/model.rs, val.rs), which is written from the documented "
         "format and semantics and shares no code with steit; explores generated cases, so no proof for the rest.")
ZOO = "127 types (42 derived definitions plus built-ins and their compositions)"

CHECKS = {
    "C01": ("property-based round-trip testing over generated types and values",
            "Round trips of random values of " + ZOO + ", bare and nested, with and without trailing bytes and field numbers."),
    "C02": ("stateful property-based testing of sizes against bytes written",
            "Sizes and length prefixes compared with the bytes written after random histories of operations, merges, replays, clones and pokes."),
    "C03": ("property-based differential testing against an independent encoder and decoder",
            "Output compared byte by byte with a reference encoder, and decoded back by a reference decoder."),
    "C04": ("structured fuzzing of decoders against a reference decoder, with allocation accounting",
            "Random, mutated and hand-shaped byte strings into every type; verdict and value compared with a reference decoder, memory bounded by a counting allocator, panics and crashes caught."),
    "C05": ("metamorphic testing: unknown and mistyped fields injected, versions crossed",
            "Injection of unknown and mistyped fields at every level of real encodings, permutations of fields, and decoding across differing versions of definitions."),
    "C06": ("property-based differential testing of merge against a reference merge",
            "Merges of encodings (also concatenated, truncated or damaged) into random values compared with the reference semantics."),
    "C07": ("fault injection into generated readers and writers",
            "Generated chunkings, interruptions and failures at every position of the stream, compared with the undisturbed run."),
    "C08": ("property-based testing of varints and tags against a bit-level model",
            "Boundary-biased integers of all widths, padded encodings and tags compared with a bit-level reference; every field number boundary."),
    "C09": ("model-based stateful testing of Reader against a byte-window model",
            "Random sequences of probes, reads, nested readers and skips compared with a model of byte windows."),
    "C10": ("stateful differential testing: log replayed on a replica after random histories",
            "Random histories on every state type; entries replayed one by one and in batches on a replica that must agree."),
    "C11": ("model-based stateful testing of the entries each operation logs",
            "Every operation's entries compared with those a reference state machine derives from the same operation."),
    "C12": ("stateful testing with recording loggers around non-mutating calls",
            "Loggers that record everything around every kind of non-mutating call, on attached, detached and replayed states."),
    "C13": ("model-based stateful testing of pause counting",
            "Random interleavings of pauses, unpauses and mutations through several runtimes of one logger compared with a counter model."),
    "C14": ("stateful testing of the wiring invariant over every reachable node",
            "After every step of random histories, the path and logger of every reachable node compared with its position."),
    "C15": ("stateful testing of re-attachment across several loggers",
            "States moved between loggers and positions by set_runtime, setters, pushes and inserts; later mutations must reach the new log only."),
    "C16": ("stateful differential testing of snapshot plus log tail",
            "Snapshots at random points of random histories plus the later log compared with the live state."),
    "C17": ("structured fuzzing of replay with damaged logs against a reference replay",
            "Damaged and hand-shaped logs replayed on random states; verdict, contents and later usability compared with a reference replay."),
    "C18": ("property-based testing of replay on roots and children",
            "replay, is_root and is_child on every root type and on every reachable child."),
    "C19": ("model-based testing of loggers and entry framing",
            "Random entries and logger calls compared with a vector model; failing writers injected."),
    "C20": ("property-based testing of equality and hashing against content equality of the model",
            "Pairs and triples of values that differ in one place, in history, in runtime or not at all; equality, hash and Maybe/Option comparison compared with the model."),
    "C21": ("model-based stateful testing against a vector and a key-value map",
            "Random operation sequences on List and Map of many item types compared with Vec and BTreeMap."),
    "C22": ("model-based testing of constructors, defaults and setters",
            "Every constructor, default and chains of setters with random values compared with the model's value."),
    "C23": ("property-based testing over randomly generated definitions, compiled and driven through every behavioural check",
            "Zoos of random well-formed definitions (shapes, generics, recursion, tags, attributes, names, derive combinations) must compile; then 21 of the other checks run over each zoo against the schema model."),
    "C24": ("fault injection into generated definitions, with faultless twins",
            "Random well-formed definitions and the same with one of 23 kinds of fault are given to the compiler; the twin must be accepted and the fault rejected with an error located in that definition."),
    "C25": ("property-based testing of the set of generated files over random message graphs",
            "Generation runs over every root of the zoo and over random link graphs (recursive, shared, boxed, builtin, skipped names) compared with a reference reachability; repeated runs and runs from other roots compared file by file."),
    "C26": ("property-based testing: random schemas generated to C#, the text parsed and compared with the schema",
            "The C# text of random structs and enums (and of every derived type) is tokenized and parsed; each member, its type and each dispatch arm compared with the schema. Names which collide with generated members are the application's to avoid and are passed over."),
    "C27": ("property-based walks over type metadata compared with the definitions",
            "Random walks along the metadata links from every type of the zoo, each step compared with the definition the derive macro was given."),
    "C28": ("stress testing of shared loggers with generated per-thread programs",
            "Random programs run by several threads on one logger, the log checked for exactly-once, per-thread order, contiguity and replayability. Schedules are those the machine happens to produce."),
    "C29": ("stateful differential testing of the C# client against the Rust state it follows",
            "Random histories on generated states; snapshot and log are given to the generated classes and the client library, whose text is executed by an interpreter of C# written for this check (cs/, run by node), one entry at a time or in batches, also torn, with noise, and by an older client. State and events compared with the model. Trusts the interpreter's reading of C#; texts it cannot execute are counted, not judged."),
    "C30": ("structured fuzzing of the C# client's decoding against the Rust encoder and model",
            "Encodings of random values of the zoo, plain, with unknown and mistyped fields, or truncated, decoded by the generated classes and the client library under the interpreter of C#. Trusts the interpreter's reading of C#."),
}

NA = {}


def main():
    done = set(CHECKS)
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks = []
    for p in props:
        if p in CHECKS:
            t, n = CHECKS[p]
            checks.append({
                "property": p,
                "quick_cmd": f"python3 run.py {p}",
                "thorough_cmd": f"python3 run.py {p} thorough",
                "evidence_file": f"evidence/{p}.json",
                "technique": t,
                "level": "exploration",
                "level_note": n + TRUST,
            })
    na = [{"property": p, "reason": NA.get(p, "No check yet.")} for p in props if p not in done]
    m = {
        "version": 1,
        "setup_cmd": "python3 run.py setup",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks: the harness uses only the public API of steit and steit-derive.",
    }
    open(os.path.join(HERE, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")


main()
