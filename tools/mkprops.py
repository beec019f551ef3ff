#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list, one JSON object per line)."""
import json, os
S = "steit/src/"
D = "steit-derive/src/derive/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None}})

prop("C01", "Serialization round-trips every value",
  "For every serializable and deserializable type and every value of it, deserializing the value's serialized bytes yields an equal value and consumes exactly those bytes, both for the bare form and for the nested form (with or without a field number). "
  "Map keys and field numbers range over 0..=2^29-1, the documented maximum.",
  ["inputs", "programs"], "all values (extremes of every integer width, empty and nested containers, every enum variant) of primitives, strings, Bytes, Option, Vec, arrays, tuples, HashMap, Box, List, Map, Maybe and derived structs/enums, recursively composed",
  "The tests round-trip a few dozen hand-picked small values per impl; integers near the width limits, deep compositions and most type combinations are never tried.",
  [S+"impls/varint.rs", S+"impls/bool.rs", S+"impls/string.rs", S+"impls/option.rs", S+"impls/vec.rs", S+"impls/array.rs", S+"impls/tuple.rs", S+"impls/hash_map.rs", S+"impls/box.rs", S+"types", S+"ser.rs", S+"de/de.rs", D+"struct.rs", D+"enum.rs", D+"field.rs"],
  [("Serialize::{compute_size,serialize_cached,serialize_nested} paired with Deserialize::{merge,merge_nested}", S+"ser.rs, "+S+"de/de.rs")],
  ["Serialize::to_bytes", "Serialize::serialize_nested", "Deserialize::deserialize", "Deserialize::deserialize_nested"])

prop("C02", "Computed and cached sizes always equal the bytes written",
  "At any point in the life of a value, the size it reports equals the number of bytes it then writes, in bare and nested form, and every length prefix in the output equals the length of the payload it precedes. "
  "This holds whatever mutations, merges, replays, earlier serializations or clones preceded, so no stale cached size is ever used by a complete serialization.",
  ["inputs", "histories"], "all values and all interleavings of mutation (direct, setter, merge, replay, container operation) with serialization and size queries",
  "Tests check sizes of fresh small values; nothing mutates a value between two serializations or crosses the 128/16384-byte prefix boundaries inside nested messages.",
  [S+"ser.rs", S+"rt/size_cache.rs", S+"impls", S+"types", D+"struct.rs", D+"enum.rs"],
  [("size cache written by cache_size, read back by serialize_nested", S+"ser.rs"), ("size_cache field added by the derive", D+"struct.rs")],
  ["Serialize::{compute_size,cache_size,cached_size,compute_size_nested,steit_serialize,serialize_nested}"],
  [{"name": "size_cache", "meaning": "last computed payload size of a message", "where": S+"rt/size_cache.rs"}])

prop("C03", "The wire format is exactly the documented encoding",
  "The bytes written for a value are a function of its schema and contents only: minimal little-endian base-128 varints (zigzag for signed), a tag varint of field-number<<3|wire-type with wire types 0 (varint) and 2 (length-prefixed), fields in declaration order with zero/false primitives and empty length-prefixed payloads omitted, enums as the variant tag varint followed by that variant's fields, sequence elements back to back without tags, options as nothing or one nested element, and map entries always tagged by key. "
  "Peers in other languages decode these bytes, so every conforming decoder of that grammar recovers the value.",
  ["inputs", "programs"], "all types and values of the serializable universe, including tags above 15 and 2047, sizes above 127 and nested composition",
  "Tests compare bytes for isolated impls and values; the composed format (omission inside nested messages, multi-byte tags and lengths, every wrapper inside every other) is not covered.",
  [S+"wire_fmt.rs", S+"ser.rs", S+"impls", S+"types", D+"field.rs", D+"enum.rs", "steit-csharp/src/Codec/Reader.cs"],
  [("Serialize::serialize_nested (tag, length, payload, omission)", S+"ser.rs"), ("variant tag prefix", D+"enum.rs")],
  ["Serialize::to_bytes", "Serialize::serialize_nested"])

prop("C04", "Decoding arbitrary bytes is total, bounded and memory-safe",
  "Deserializing or merging any byte string into any type (with nesting of the input bounded by the stack) returns a value or an error: it never panics, aborts or loops, and uses memory proportional to the input rather than to lengths claimed inside it. "
  "On every input that is well-formed for the schema the value is exactly the one the wire format defines; invalid UTF-8, unknown wire types, unknown enum variants, out-of-range map keys, input ending inside a varint and input ending before an announced length are reported as errors.",
  ["inputs"], "all byte strings: random, valid encodings with flips/truncations/insertions/splices, hostile length prefixes and over-long varints, for every type",
  "No existing test feeds malformed input; decoders are only exercised on a handful of valid encodings.",
  [S+"de/reader.rs", S+"de/de.rs", S+"wire_fmt.rs", S+"impls", S+"types", D+"struct.rs", D+"enum.rs"],
  [("Reader::{read_tag,skip_field,nested,eof}", S+"de/reader.rs"), ("varint decoding", S+"impls/varint.rs"), ("io::Result error paths of merge", S+"de/de.rs")],
  ["Deserialize::{merge,merge_nested,deserialize,deserialize_nested}"])

prop("C05", "Schema evolution: unknown and mistyped fields are skipped exactly",
  "A message decoder ignores fields it does not know and fields whose wire type differs from the declared one, of any size, and reads all other fields as if the ignored ones were absent; absent fields keep their previous (or default) value, and the order of fields with distinct tags does not matter. "
  "Hence data written by a newer or older version of a struct or variant is read with exactly the common fields preserved.",
  ["inputs", "programs"], "all pairs of writer/reader message versions, all field values, all positions and sizes of unknown fields (varints up to 64 bits, sized payloads of any length), at every nesting level",
  "One or two tests merge an unknown field with a one-byte payload; no test uses a large unknown varint, a changed wire type in a nested message, or reordered fields.",
  [D+"struct.rs", D+"field.rs", S+"de/reader.rs", S+"de/de.rs"],
  [("merger: match on field number, skip_field otherwise", D+"struct.rs"), ("wire type mismatch branch of merge_nested", S+"de/de.rs")],
  ["Deserialize::merge on derived messages"])

prop("C06", "Merge follows the documented per-type semantics",
  "Merging bytes into an existing value equals the reference semantics: scalars and strings are replaced; Vec, List and Bytes append; an array overwrites its prefix; a tuple is replaced; Option merges into the present value or a default one; Map merges per key and inserts missing keys; a struct merges field by field; an enum merges into the same variant and otherwise restarts from that variant's defaults. "
  "For messages, merging a concatenation of encodings equals merging them one after another.",
  ["inputs", "histories"], "all pairs (existing value, encoded update) and all sequences of merges, on every type and nesting",
  "Merge tests are a few literal cases per impl on flat values; sequences and nested container merges (list in map in enum) are untested.",
  [S+"impls", S+"types", S+"de/de.rs", D+"struct.rs", D+"enum.rs"],
  [("Deserialize::merge of every impl", S+"de/de.rs")],
  ["Deserialize::merge followed by inspection"])

prop("C07", "Serialization and decoding are robust to the I/O they are given",
  "The result of decoding does not depend on how the reader chunks its data (short reads, interrupted reads), an error from the reader or writer is returned as an error and never turned into a success or a panic, and a failed or partial serialization leaves the value and its later serializations unaffected. "
  "A successful decode of a nested value reads only that value's bytes from the underlying stream, apart from at most one byte of end-of-input look-ahead.",
  ["fault_sequences", "inputs"], "all values, all chunkings of the stream, an I/O error or interruption injected at every byte offset of reading and writing",
  "Tests use in-memory slices only: no short read, no interrupted call, no failing reader or writer.",
  [S+"de/reader.rs", S+"ser.rs", S+"impls", S+"types", D+"struct.rs", D+"enum.rs"],
  [("io::Result propagation with ?", S+"ser.rs"), ("read_exact / read_to_end / Eof look-ahead", S+"de/reader.rs")],
  ["Serialize::steit_serialize with a faulty writer", "Deserialize::merge with a faulty reader", "State::replay with a faulty reader"])

prop("C08", "Varints, tags and field numbers obey their algebra",
  "Every integer of every width encodes to its minimal-length varint whose length equals the reported size and decodes back, zigzag maps small magnitudes to small encodings, and a decoder reads a non-minimal encoding of a value that fits to the same value. "
  "tag and parse_tag are inverse on field numbers 0..=2^29-1 with wire types 0 and 2, and larger field numbers or other wire types are rejected with an error.",
  ["inputs"], "all integers of 8, 16, 32 and 64 bits, signed and unsigned; all u32 tags and field numbers; all zero-padded varints",
  "Tests check around a dozen integers, none near the limits of the signed types, and no non-minimal varint except for bool.",
  [S+"impls/varint.rs", S+"impls/bool.rs", S+"wire_fmt.rs"],
  [("size_32/size_64, encode/decode zigzag", S+"impls/varint.rs"), ("tag, parse_tag, validate_field_number", S+"wire_fmt.rs")],
  ["Serialize/Deserialize of integers", "wire_fmt::{tag,parse_tag,validate_field_number,WireType}"])

prop("C09", "Reader never loses, duplicates or crosses data",
  "Whatever sequence of end-of-input probes, raw reads, tag reads, nested readers and field skips is performed, a Reader delivers the bytes of the underlying stream in order, each exactly once: probing for end of input consumes nothing, a nested reader exposes exactly the announced number of bytes and then reports end of input, and skipping a field consumes exactly that field. "
  "End of input is reported exactly when no byte remains in the current (nested) window. Recovering the underlying stream gives up at most the one byte of look-ahead that a preceding probe took.",
  ["inputs", "histories"], "all byte streams and all interleavings of Reader operations, including arbitrarily deep nesting and partially consumed nested readers",
  "The Reader has no direct tests at all; derived code only exercises the one pattern it generates.",
  [S+"de/reader.rs"],
  [("Eof look-ahead wrapper, Take-limited nested readers", S+"de/reader.rs")],
  ["Reader::{eof,nested,read_tag,skip_field,as_mut_read} and io::Read for Reader"])

prop("C10", "Replaying the log reproduces the state at every step",
  "Starting from equal states, after any sequence of mutations through the state API (setters, variant setters, list and map operations, nested access) replaying the entries logged so far on the other copy makes it equal to the mutated one in every replicated field, whether entries are replayed one at a time or in batches. "
  "Fields marked no_state are outside replication.",
  ["histories", "programs"], "all root types (structs, enums, List, Map, Maybe and compositions), all initial states, all operation histories and all batchings of the log",
  "Tests replay one or two hand-written logs on flat states; long histories, nested containers, variant switches and swap_remove under enums are not covered.",
  [S+"state.rs", S+"rt/runtime.rs", S+"log", S+"types", D+"field.rs", D+"struct.rs", D+"enum.rs"],
  [("log_* before applying each mutation; State::handle dispatch on the path", S+"rt/runtime.rs, "+S+"state.rs")],
  ["logger bytes", "State::replay", "contents of both replicas"])

prop("C11", "Each mutation logs exactly the entries that describe it",
  "Every mutating call appends, before returning, exactly the entries for its effect in order: a field setter or map insert one update at that field's path with the serialized new value, a variant setter on another variant one update of the enum followed by the field's update, push one list push, a pop or last-element swap_remove one list pop, any other swap_remove a list pop and an update of the index, and a map removal one removal with the key. "
  "Calls that change nothing (popping an empty list, swap_remove out of bounds, removing an absent key) append nothing.",
  ["histories", "inputs"], "all operations at all positions of all state shapes, after any history",
  "Tests pin the log bytes of a few single operations on root-level lists, maps and structs; nested positions after a history, and no-op calls, are mostly unpinned.",
  [S+"rt/runtime.rs", S+"log/entry.rs", S+"types/list.rs", S+"types/map/map.rs", D+"field.rs"],
  [("Runtime::{log_update_child,log_list_push,log_list_pop,log_map_remove,log_multi}", S+"rt/runtime.rs")],
  ["entries received by the logger after each call"])

prop("C12", "Everything that is not a mutation by the application is silent",
  "Constructing, defaulting, building from iterators, cloning, comparing, serializing, sizing, reading, deserializing, merging, replaying, rewiring a runtime, and building a value inside a *_with closure append nothing to any log. "
  "In particular a replica that only replays never produces log entries of its own.",
  ["histories", "inputs"], "all states and histories, all non-mutating operations interleaved at any point, including mutations of fresh sub-states inside *_with closures",
  "No test attaches a logger that detects entries during replay, merge, construction or closures beyond one or two flat cases.",
  [S+"state.rs", S+"rt/runtime.rs", S+"rt/logger.rs", S+"types", D+"field.rs", D+"struct.rs", D+"enum.rs"],
  [("pause_logger/unpause_logger around closures; merge and handle never log", S+"types/list.rs, "+D+"field.rs")],
  ["entries received by the logger"])

prop("C13", "Logger pausing nests and loses nothing else",
  "An entry reaches the logger exactly when no pause is outstanding on it: pauses count, each unpause undoes one pause and is ignored when none is outstanding, both return the outstanding count, and all runtimes sharing the logger share the count. "
  "Entries that do reach the logger keep the order of the calls that produced them, and mutations made while paused still take effect.",
  ["histories"], "all interleavings of pause, unpause, log calls and state mutations (including nested *_with closures) over any number of runtimes sharing a logger, and replacement of the inner logger",
  "Pausing has no direct test; only the implicit pause in push_with and setters is touched.",
  [S+"rt/logger.rs", S+"rt/runtime.rs"],
  [("paused counter in RuntimeLogger", S+"rt/logger.rs")],
  ["Runtime::{pause_logger,unpause_logger,log}", "LoggerHandle"],
  [{"name": "paused", "meaning": "outstanding pauses of the shared logger", "where": S+"rt/logger.rs"}])

prop("C14", "Every nested state is wired to its position and its root's logger",
  "After any history of construction, mutation, container operations, merge, replay and updates, each nested state reachable from a root reports a path equal to its actual position (field tags, variant tags, list indices, map keys) and shares the root's logger. "
  "Consequently a later mutation through any reachable reference is logged at the right path of the right log. Runtimes obtained as nested, sibling or parent ones address those positions of the same log.",
  ["histories", "programs"], "all histories over all compositions of structs, enums, List, Map, Maybe and Box, inspected after every step",
  "Tests look at paths only through a few log-byte literals; positions after swap_remove, map insert, variant switches, merges into existing entries and replays are not inspected.",
  [S+"rt/runtime.rs", S+"rt/node.rs", S+"types/list.rs", S+"types/map/map.rs", S+"types/maybe.rs", S+"impls/box.rs", D+"struct.rs", D+"enum.rs", D+"field.rs"],
  [("set_runtime / with_runtime / Runtime::nested at every child creation", D+"struct.rs, "+S+"types/list.rs, "+S+"types/map/map.rs")],
  ["State::runtime().path() and logger() of every reachable node"],
  [{"name": "runtime", "meaning": "logger handle and path of a state node", "where": S+"rt/runtime.rs"}])

prop("C15", "Re-attaching a state moves its whole subtree",
  "Calling set_runtime (or moving a value, with whatever runtime it had, into a setter, a push or a map insert) re-attaches the value and everything below it: all later mutations of it are logged only through the new runtime, at paths under its new position, and never to the old log. "
  "The contents of the value do not change.",
  ["histories"], "all values with any previous wiring (other logger, other path, popped or removed from the same tree, clones), moved to any position, then mutated at any depth",
  "Tests insert only freshly built values and do not mutate them afterwards under a different logger.",
  [S+"types/list.rs", S+"types/map/map.rs", S+"types/maybe.rs", S+"impls/box.rs", D+"struct.rs", D+"enum.rs", D+"field.rs"],
  [("recursive set_runtime", D+"struct.rs, "+S+"types/list.rs, "+S+"types/map/map.rs")],
  ["old and new loggers after later mutations"])

prop("C16", "A snapshot plus the later log equals the live state",
  "Serializing the state at any moment and replaying only the entries logged after that moment on a fresh state deserialized from the snapshot yields the live state in every replicated field; so a late joiner or a restart from snapshot and log tail loses nothing. "
  "The same holds when the snapshot is shipped as an update of the whole root.",
  ["histories", "crash_points"], "all histories, every cut point between snapshot and tail, every root type",
  "No test combines a snapshot with a log tail.",
  [S+"state.rs", S+"ser.rs", S+"de/de.rs", S+"types", D+"struct.rs", D+"enum.rs"],
  [("deserialize with runtime wiring, then State::replay", S+"state.rs")],
  ["Serialize::to_bytes", "Deserialize::merge", "State::replay"])

prop("C17", "Replaying a malformed log fails cleanly",
  "Replaying any byte string on any state returns Ok or an error without panicking or looping; an entry that cannot apply (unknown tag or variant, index or key out of range, operation the target does not support, pop from an empty list, removal of an absent key, unparsable entry, entry cut off by the end of the log) is reported as an error and does not change the state, and entries before it stay applied. A payload that does not decode is also reported as an error, and damages at most the value it was to replace: nothing is inserted and nothing else changes. "
  "Whatever happened, the state can still be read, serialized, mutated and replayed onto afterwards.",
  ["inputs", "fault_sequences"], "arbitrary bytes, valid logs with corrupted, truncated, duplicated, reordered or foreign entries, and every (path, kind, key, payload) entry against every state shape",
  "Tests replay only valid logs.",
  [S+"state.rs", S+"types/list.rs", S+"types/map/map.rs", S+"impls/macros.rs", D+"struct.rs", D+"enum.rs"],
  [("State::handle validation on each level", S+"state.rs")],
  ["State::replay result and the state afterwards"])

prop("C18", "Replay is accepted by every root and refused by every child",
  "Replaying succeeds on any state attached at the root of a runtime, whatever its type (struct, enum in any variant, List, Map, Maybe or a boxed one), and calling it on a state attached below the root is refused with an error without reading the log or changing the state. "
  "is_root and is_child agree with that distinction.",
  ["histories", "programs"], "all state types and every node of every reachable tree",
  "One test checks a struct root; boxed roots, enum roots in a non-default variant and child nodes of each kind are untested.",
  [S+"state.rs", S+"impls/box.rs", D+"enum.rs", S+"types"],
  [("is_root check in State::replay, overridden for enums", S+"state.rs, "+D+"enum.rs")],
  ["State::{replay,is_root,is_child}"])

prop("C19", "Loggers keep entries faithfully, framed and in order",
  "A log entry of any kind, path, key and payload survives serialization and parsing; a buffer logger returns exactly the entries logged since the last clear or pluck, in order, as entries and as the concatenation of their length-prefixed encodings, clearing forgets exactly those, and plucking returns and clears. "
  "A writer logger writes every entry once and in order and propagates write errors; a no-op logger keeps nothing and never fails.",
  ["histories", "inputs"], "all entries (long paths, large keys and payloads, multi-byte lengths) and all sequences of log, log_multi, bytes, clear, pluck and pluck_bytes",
  "Buffer logger bytes are asserted for tiny logs only; clear/pluck sequences, the writer logger and large entries are untested.",
  [S+"log/entry.rs", S+"log/logger.rs", S+"log/loggers/buffer.rs", S+"log/loggers/writer.rs", S+"log/loggers/noop.rs"],
  [("length-prefixed framing in BufferLogger::bytes", S+"log/loggers/buffer.rs")],
  ["BufferLogger::{bytes,pluck,pluck_bytes,clear}", "WriterLogger output", "LogEntry serialize/deserialize"])

prop("C20", "Equality and hashing follow contents only",
  "Derived and built-in equality is an equivalence relation that depends on exactly the compared contents (variant and every field not marked no_eq_hash; list items in order; map entries irrespective of order) and never on runtimes, loggers, size caches or histories; equal values hash equally, fields marked no_hash or no_eq_hash do not influence the hash, and a clone equals its original. "
  "Maybe compares with Option accordingly.",
  ["inputs", "programs"], "all pairs and triples of values of every type, including values equal up to one field, differently ordered maps, different runtimes and different cached sizes",
  "Tests compare values for equality as a by-product; symmetry, hash agreement and the no_hash/no_eq_hash exclusions are not tested.",
  [D+"struct.rs", D+"enum.rs", D+"field.rs", S+"rt/size_cache.rs", S+"rt/runtime.rs", S+"types"],
  [("eq/hash generators honouring no_hash and no_eq_hash", D+"field.rs")],
  ["PartialEq and Hash of derived types, List, Map, Maybe, Bytes"])

prop("C21", "List and Map behave like their reference collections",
  "Any sequence of List operations (push, push_with, pop, swap_remove, get, get_mut, indexing, iteration, from_iter) and Map operations (insert, insert_with, remove, get, get_mut, contains, indexing, iteration, len, from_iter) returns the same results and leaves the same contents as a plain vector and a plain key-value map. "
  "Iteration yields every element exactly once with its key.",
  ["histories", "inputs"], "all operation sequences over lists and maps of primitive and nested element types with u8, u16 and u32 keys",
  "Tests run two or three operations on lists and maps of small integers.",
  [S+"types/list.rs", S+"types/map/map.rs", S+"types/map/iter.rs", S+"types/map/key.rs"],
  [("Vec-backed List, IndexMap-backed Map", S+"types")],
  ["return values and contents of List and Map"])

prop("C22", "Constructors, defaults and setters produce exactly the stated value",
  "A default or newly constructed value has every field at its type's default (enums: the requested variant, by default the one tagged 0), and a setter call changes the targeted field to the given value and nothing else, switching an enum to the setter's variant with its other fields at default only when it was in another variant. "
  "Chained setters apply in order, and *_with setters store exactly what the closure returns and give it the field's own runtime.",
  ["inputs", "histories"], "all derived structs and enums (named, tuple and unit shapes, any tags, State or plain), all starting values and setter sequences",
  "Tests call one setter on one struct; enum setters from other variants, tuple fields and *_with are barely covered.",
  [D+"struct.rs", D+"enum.rs", D+"field.rs", D+"variant.rs", S+"types/maybe.rs"],
  [("ctor and setter generation", D+"struct.rs, "+D+"field.rs")],
  ["contents after constructor and setter calls"])

prop("C23", "Any well-formed definition compiles and follows its schema",
  "For every well-formed struct or enum definition (named, tuple and unit shapes; generics; recursion through containers; any distinct tags up to 2^29-1; reserved tags not used; all attribute combinations; Serialize/Deserialize/State and standard derives) the derive macro produces code that compiles. "
  "The resulting type's wire format, decoding, merging, logging, replay, wiring, equality, hashing and constructors follow the definition, independently of field names, tag values, declaration order and attributes not meant to affect them.",
  ["programs", "inputs"], "all definitions in the supported grammar, with generated values and histories for each",
  "The test crate contains about fifteen fixed definitions.",
  ["steit-derive/src", D+"derive.rs", D+"struct.rs", D+"enum.rs", D+"field.rs", D+"variant.rs", "steit-derive/src/attr.rs", "steit-derive/src/impl.rs"],
  [("derive macro code generation", "steit-derive/src")],
  ["rustc on generated definitions; behaviour of the compiled types against the schema model"])

prop("C24", "Ill-formed definitions are rejected at compile time",
  "A definition with a duplicate field or variant tag, a tag listed in reserved_tags, a missing or non-integer tag, a tag above 2^29-1, an enum without variants or without a variant tagged 0, a duplicated, unknown or ill-typed steit attribute, a union, a const generic parameter or an unsupported field type is rejected by the compiler with an error at that definition. "
  "An otherwise identical definition without the fault is accepted.",
  ["programs"], "all definitions obtained from well-formed ones by injecting one fault at any place",
  "There are no compile-fail tests.",
  ["steit-derive/src/attr.rs", "steit-derive/src/ctx.rs", D+"derive.rs", D+"struct.rs", D+"enum.rs", D+"field.rs", D+"variant.rs", D+"tag.rs"],
  [("Context::error accumulation, tag validation, reserved_tags check", "steit-derive/src/ctx.rs, "+D+"struct.rs")],
  ["rustc diagnostics"])

prop("C25", "C# generation emits exactly the reachable messages, once each",
  "Generating C# for a root type writes one file per message reachable from it (through fields, variants, containers and boxes, recursively, terminating on recursive types), excluding builtins when skip_builtins is on and names in skip_names, named by the configured naming, and returns exactly those names. "
  "Output is deterministic: regenerating gives identical files, and a message's file does not depend on the root it was reached from.",
  ["programs", "configurations"], "all type graphs (diamonds, cycles, generics, boxes, containers) and all settings",
  "One test generates from one root and compares nothing by itself.",
  [S+"gen/gen_util.rs", S+"gen/generator.rs", S+"gen/setting.rs", S+"meta/meta.rs", S+"impls/box.rs", D+"struct.rs", D+"enum.rs"],
  [("visit_link traversal over MetaLink", S+"gen/gen_util.rs")],
  ["files in out_dir and the returned names"])

prop("C26", "Generated C# classes agree with the Rust schema",
  "Every generated C# class declares, for each field of the Rust definition, a property of the corresponding type with the right name and a dispatch on exactly that field's tag and wire type in merging, wire-type lookup and nested access, and an enum class declares every variant with its tag and default, so that the client decodes and routes what the Rust side writes. "
  "The text is balanced, and nothing is declared that the schema does not contain.",
  ["programs"], "all definitions: any tags, primitive/message/container/generic field types, renamed fields and types",
  "Existing generated files are compared with nothing in the Rust tests.",
  [S+"gen/generators/csharp.rs", S+"gen/writer.rs", S+"gen/str_util.rs", S+"meta"],
  [("CSharpGenerator::{gen_struct,gen_enum}", S+"gen/generators/csharp.rs")],
  ["text of generated files"])

prop("C27", "Type metadata mirrors the definition",
  "The metadata of every derived type lists exactly its fields or variants in declaration order with their tags, Rust and C# names, type parameters, builtin flag and field types (including nested type arguments and type parameters), and links to the metadata of every field type. "
  "Metadata of built-in types states their wire type, type arguments and C# names.",
  ["programs"], "all derived definitions and all compositions of field types",
  "No test inspects metadata.",
  [S+"meta", S+"impls", S+"types", D+"field.rs", D+"struct.rs", D+"enum.rs"],
  [("HasMeta consts emitted by the derive", D+"struct.rs, "+D+"enum.rs")],
  ["HasMeta::{NAME,TYPE,LINK}"])

prop("C28", "States sharing a logger across threads log atomically",
  "When several threads mutate states attached to one logger (by any mutator except the *_with closures, which pause the logger for everybody), every entry reaches the logger exactly once and whole, each thread's entries keep their program order, and the two entries of a swap_remove are contiguous, so replaying the log reproduces every state. "
  "Serializing a shared state from several threads at once gives each the same correct bytes.",
  ["schedules"], "all interleavings of mutations by up to eight threads on disjoint subtrees of one logger, and of concurrent serializations of one value",
  "All tests are single-threaded.",
  [S+"rt/runtime.rs", S+"rt/logger.rs", S+"rt/size_cache.rs", S+"types/list.rs"],
  [("Arc<Mutex<..>> logger, log_multi under one lock, atomic size cache", S+"rt/runtime.rs, "+S+"rt/size_cache.rs")],
  ["log contents after joining the threads"])

prop("C29", "The C# client follows the Rust server's log",
  "Replaying on the C# client the log produced by the Rust side, from the same snapshot, one entry at a time or in batches, makes the client's state equal to the server's after every entry, and every state the client holds keeps the path of its position, also below a root which has a path itself. "
  "Listeners get exactly one event per change applied below the root, with the path, tag, old and new values of that change, unless their handlers were cleared. "
  "A client generated from older definitions, which lack some fields, ignores the changes of those fields and follows the others. A torn log raises an error instead of passing as complete, after applying the entries which are whole, and so does an entry which does not apply: a pop of an empty list, an item past the end of a list, the removal of an absent key.",
  ["histories", "programs"], "all histories of the Rust side, all batchings and truncations of the log, all well-formed definitions and the C# classes generated from them, current and older",
  "The C# runtime has no tests in this repository; the generator is tested by comparing a few texts, which nobody executes.",
  ["steit-csharp/src", S+"gen/generators/csharp.rs"],
  [("StateReplayer.Replay over Reader, StateList, StateMap and generated classes", "steit-csharp/src/State/StateReplayer.cs"), ("GetNested/GetWireType/ReplaceAt of generated classes", S+"gen/generators/csharp.rs")],
  ["C# state and events after replay"])

prop("C30", "The C# client decodes what the Rust side encodes",
  "Every encoding the Rust side writes is decoded by the generated C# classes and the client library (Reader, Option, Vector, StateList, StateMap, Bytes, ...) to the same value, at every nesting, with the defaults of absent fields. "
  "Fields with unknown tags or another wire type are skipped without a trace, at every level; varints longer than they need be and primitive fields which come repeatedly are read as the Rust side reads them; and an encoding which is cut short inside a field raises an error.",
  ["inputs", "programs"], "all values of all well-formed definitions, all placements of unknown and mistyped fields, all truncations",
  "No C# is executed by any test here.",
  ["steit-csharp/src", S+"gen/generators/csharp.rs", S+"gen/gen_util.rs"],
  [("Deserialize of generated classes", S+"gen/generators/csharp.rs"), ("varints, signed varints, nested readers, SkipField", "steit-csharp/src/Codec/Reader.cs"), ("StateFactory.Construct, GetWireType, IsStateType", "steit-csharp/src/State/StateFactory.cs")],
  ["fields of the decoded C# object", "exceptions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
