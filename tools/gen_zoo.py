#!/usr/bin/env python3
"""The fixed zoo: hand-designed definitions covering the grammar of the derive macro."""
import os
from zoogen import *
KMAX = 0x1fffffff
M, T, MT = [], [], []

def add(m, targets=None, meta=True):
    M.append(m)
    for t in (targets if targets is not None else [m.name]):
        T.append((t, m.state))
        if meta and not m.no_meta:
            MT.append(t)

EQH = ("PartialEq", "Eq", "Hash")

# ---------------------------------------------------------------- states
add(struct("Leaf", [F("a", "u8", 0), F("b", "i64", 1), F("c", "bool", 2)], derives=EQH))
add(struct("Wide", [F("hi", "u64", 16), F("k", "u32", KMAX), F("lo", "i8", 1), F("h", "i16", 2047), F("w", "i32", 15),
                    F("m", "u16", 2048), F("q", "i64", 0), F("z", "bool", 262144), F("by", "u8", 7)],
           attrs=["reserved_tags(3, 4, 5)"], derives=("PartialEq", "Eq", "Hash")))
add(struct("Inner", [F("leaf", "Leaf", 3), F("list", "List<Leaf>", 1), F("n", "u16", 0)]))
add(struct("Nest", [F("leaf", "Leaf", 0), F("inner", "Inner", 1), F("other", "Inner", 20), F("flag", "bool", 300)]))
add(enum("Shape", [
    V("Dot", 3, shape="unit"),
    V("Circle", 0, [F("r", "u32", 0), F("leaf", "Leaf", 1)]),
    V("Pair", 1, [F(None, "i32", 0), F(None, "Leaf", 5)], shape="tuple"),
    V("LongName", 300, [F("items", "List<u16>", 2), F("sub_leaf", "Leaf", 1)], attrs=["reserved_tags(7, 8)"]),
    V("Empty", 7, shape="named"),
    V("EmptyTuple", 2048, shape="tuple"),
], derives=EQH, attrs=["reserved_tags(9, 10)"]))
add(enum("Color", [V("Red", 0, shape="unit"), V("Green", 1, shape="unit"), V("Blue", 2, shape="unit")], derives=EQH))
add(struct("Coll", [F("nums", "List<i32>", 0), F("leaves", "List<Leaf>", 1), F("map", "Map<u8, Leaf>", 2),
                    F("m16", "Map<u16, List<u16>>", 3), F("m32", "Map<u32, Shape>", 4), F("deep", "List<List<i64>>", 5),
                    F("mm", "Map<u8, Map<u16, i8>>", 6), F("flags", "List<bool>", 17)]))
add(struct("Boxy", [F("b", "Box<Leaf>", 0), F("e", "Box<Shape>", 1), F("l", "List<Box<Shape>>", 2),
                    F("p", "Box<u32>", 3), F("bb", "Box<Box<Leaf>>", 4), F("bl", "Box<List<Leaf>>", 5),
                    F("mb", "Map<u16, Box<Inner>>", 6)]),
    ["Boxy", "Box<Boxy>", "Box<Shape>", "Box<Leaf>", "Box<Box<Leaf>>", "Box<List<Shape>>"])
add(enum("Tree", [
    V("Tip", 0, [F(None, "i32", 0)], shape="tuple"),
    V("Fork", 1, [F("left", "Box<Tree>", 0), F("right", "Box<Tree>", 1)]),
    V("Node", 2, [F("kids", "List<Tree>", 0), F("by_name", "Map<u8, Tree>", 1), F("label", "u16", 2)]),
]))
add(struct("Cyc", [F("n", "u8", 0), F("next", "List<Cyc2>", 1)]))
add(struct("Cyc2", [F("back", "Map<u32, Cyc>", 0), F("own", "Maybe<Box<Cyc>>", 1), F("n", "i8", 2)]))
add(struct("Opty", [F("a", "Maybe<Leaf>", 0), F("b", "Maybe<Maybe<u8>>", 1), F("c", "Maybe<List<Leaf>>", 2),
                    F("d", "List<Maybe<Shape>>", 3), F("e", "Maybe<Box<Shape>>", 4), F("f", "Maybe<i32>", 5)]))
add(struct("Part", [F("a", "u32", 0), F("b", "Vec<String>", 1, no_state=True), F("c", "Option<u32>", 2, no_state=True),
                    F("d", "List<u8>", 3), F("e", "Leaf", 4, no_eq=True), F("f", "u16", 5, no_state=True, no_hash=True),
                    F("g", "i32", 6, no_hash=True), F("h", "String", 7, no_state=True, no_eq=True)],
           derives=("PartialEq", "Hash")))
add(enum("PartE", [
    V("A", 0, [F("x", "u8", 0), F("y", "String", 1, no_state=True), F("z", "u32", 2, no_eq=True)]),
    V("B", 1, [F(None, "Leaf", 0, no_state=True), F(None, "Leaf", 1), F(None, "i8", 2, no_hash=True)], shape="tuple"),
], derives=("PartialEq", "Hash")))
NAMES = ["size", "reader", "writer", "path", "kind", "key", "tag", "value", "self_value", "state", "other", "wire_type",
         "field_number", "this", "new", "ty", "io", "n", "hasher", "runtime_", "log", "parent", "type", "match", "merge", "handle"]
NAMES = [n for n in NAMES if n not in ("new",)]
add(struct("Names", [F(n, ["u8", "i32", "Leaf", "List<u8>"][i % 4], i, csharp=None) for i, n in enumerate(NAMES)], derives=("Hash",)))
add(enum("NamesE", [
    V("First", 0, [F(n, ["u8", "Leaf", "i32"][i % 3], i) for i, n in enumerate(NAMES)]),
    V("Second", 1, [F(n, ["Leaf", "u8", "List<u8>"][i % 3], 2 * i) for i, n in enumerate(NAMES)]),
], derives=("Hash",)))
add(struct("GPair", [F("a", "A", 0), F("b", "B", 1), F("n", "u8", 2)], params=["A", "B"], derives=("Hash",)),
    ["GPair<u8, Leaf>", "GPair<Shape, List<i32>>", "GPair<GPair<bool, i64>, Maybe<u32>>"])
add(struct("GColl", [F("xs", "List<T>", 1), F("m", "Map<u8, T>", 2), F("o", "Maybe<T>", 3), F("one", "T", 4)], params=["T"], bounds="State"),
    ["GColl<u16>", "GColl<Shape>"])
add(enum("GEnum", [
    V("Nothing", 0, shape="unit"),
    V("One", 1, [F(None, "T", 0)], shape="tuple"),
    V("Both", 2, [F("x", "T", 0), F("y", "GPair<U, T>", 9)]),
], params=["T", "U"], derives=("Hash",)), ["GEnum<i32, Leaf>", "GEnum<Leaf, bool>"])
add(struct("Tup", [F(None, "u8", 4), F(None, "Leaf", 2), F(None, "List<i16>", 0), F(None, "Shape", 30)], shape="tuple", derives=("Hash",)))
add(struct("New1", [F(None, "i64", 0)], shape="tuple", derives=EQH))
add(struct("Unit0", shape="unit", derives=EQH))
add(struct("Empty0", shape="named", derives=EQH))
add(struct("NoCache", [F("a", "u32", 0), F("l", "List<Leaf>", 1), F("leaf", "Leaf", 2)], attrs=["no_size_cache"]))
add(struct("Renamed", [F("size_cache", "u32", 0), F("runtime", "Leaf", 1, csharp="HandOfLeaf"), F("field_two", "u8", 2, csharp="second_one", attr_style=1)],
           attrs=['size_cache_renamed = "my_cache"', 'runtime_renamed = "my_runtime"'], csharp="Relabelled"))
add(enum("RenamedE", [
    V("Alpha", 0, [F("size_cache", "u32", 0), F("rt", "Leaf", 1)], csharp="Aleph"),
    V("BetaGamma", 5, [F(None, "u8", 0, csharp="firstOne")], shape="tuple", attrs=['no_size_cache']),
    V("D", 1, [F("q", "Shape", 0)], attrs=['runtime_renamed = "rr"', 'size_cache_renamed = "sc"']),
], attrs=['size_cache_renamed = "the_cache"'], csharp="Relabelled2", ctor="make"))
add(struct("Ctor", [F("a", "u8", 0), F("b", "Leaf", 1)], ctor="create"))
add(enum("Big", [V("V%d" % i, t, [F("x%d" % j, ["u8", "i32", "Leaf", "Maybe<u16>"][(i + j) % 4], (j * 7 + i) % 40) for j in range(i % 4)])
                 for i, t in enumerate([1, 127, 128, 0, 16383, 16384, 5, KMAX])]))

STD_STATES = ["List<u8>", "List<i64>", "List<bool>", "List<Leaf>", "List<Shape>", "List<List<Leaf>>", "List<Coll>", "List<Maybe<Leaf>>", "List<Box<Tree>>",
              "Map<u8, u32>", "Map<u16, Leaf>", "Map<u32, List<i8>>", "Map<u32, i64>", "Map<u8, Shape>", "Map<u16, Map<u8, Leaf>>", "Map<u8, Coll>",
              "Maybe<u8>", "Maybe<Leaf>", "Maybe<Shape>", "Maybe<List<Shape>>", "Maybe<Maybe<Leaf>>", "Maybe<Map<u8, i32>>",
              "Maybe<Box<Shape>>"]
for t in STD_STATES:
    T.append((t, True)); MT.append(t)

# ---------------------------------------------------------------- plain messages
add(struct("Rec", [F("s", "String", 0), F("b", "Bytes", 1), F("o", "Option<i32>", 2), F("os", "Option<String>", 3), F("oo", "Option<Option<u8>>", 4),
                   F("v", "Vec<Vec<u16>>", 5), F("vs", "Vec<String>", 6), F("arr", "[i32; 3]", 7), F("u", "u64", 31), F("l", "Leaf", 33),
                   F("bx", "Box<String>", 40), F("vb", "Vec<bool>", 41)], state=False))
add(struct("Deep", [F("rec", "Rec", 0), F("vr", "Vec<Rec2>", 1), F("o", "Option<Rec2>", 16), F("b", "Box<Rec2>", 17), F("n", "i64", 2)], state=False))
add(struct("Rec2", [F("x", "u32", 0), F("name", "String", 1), F("kids", "Vec<Rec2>", 2)], state=False, derives=EQH, setters=True))
add(enum("Act", [
    V("Noop", 0, shape="unit"),
    V("Hit", 1, [F("target", "u16", 0), F("before", "Vec<Act>", 1), F("payload", "Bytes", 2)]),
    V("Say", 200, [F(None, "String", 0), F(None, "Option<Box<Act>>", 1)], shape="tuple"),
    V("Wrap", 2, [F("rec", "Rec2", 0), F("shape", "Shape", 3)], attrs=["no_size_cache"]),
], state=False, setters=True))
add(struct("Hm", [F("a", "HashMap<String, u32>", 0), F("b", "HashMap<u8, Vec<i32>>", 1), F("c", "HashMap<i64, Rec2>", 2), F("d", "u8", 3)], state=False, no_meta=True))
add(struct("Tuples", [F("a", "(u8, String)", 0), F("b", "(i32, bool, Bytes)", 1), F("c", "Vec<(u16, Vec<u8>)>", 2),
                      F("d", "(u8, u8, u8, u8)", 3), F("e", "(String, Option<u8>, i64, bool, Bytes)", 4)], state=False, no_meta=True))
add(struct("PlainG", [F("t", "T", 0), F("v", "Vec<T>", 1), F("o", "Option<T>", 2)], params=["T"], state=False),
    ["PlainG<u8>", "PlainG<String>", "PlainG<Rec2>"])
add(enum("OrG", [V("Many", 0, [F(None, "Vec<T>", 0)], shape="tuple"), V("Val", 1, [F(None, "T", 0)], shape="tuple")], params=["T"], state=False),
    ["OrG<i32>", "OrG<Vec<OrG<Rec2>>>"])
add(struct("Excl", [F("a", "String", 0, no_eq=True), F("b", "u32", 1, no_hash=True), F("c", "Vec<u8>", 2), F("d", "i8", 3, no_eq=True, no_hash=True)],
           state=False, derives=("PartialEq", "Hash"), setters=True))
add(struct("PTup", [F(None, "String", 1), F(None, "Vec<u8>", 0), F(None, "i8", 8)], shape="tuple", state=False, setters=True, derives=("Hash",)))
add(struct("PUnit", shape="unit", state=False))
add(struct("PNoCache", [F("s", "String", 0), F("v", "Vec<Rec2>", 1)], state=False, attrs=["no_size_cache"]))
add(struct("PNames", [F(n, ["u8", "String", "Vec<u8>", "i64"][i % 4], 3 * i) for i, n in enumerate(NAMES)], state=False, setters=True))
add(enum("PNamesE", [V("Only", 0, [F(n, ["String", "i8", "Vec<String>"][i % 3], 3 * i) for i, n in enumerate(NAMES)]),
                     V("Rest", 4, [F(n, ["i8", "String"][i % 2], i) for i, n in enumerate(reversed(NAMES))])], state=False, setters=True))

PLAIN = ["bool", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "String", "Bytes", "Option<u8>", "Option<String>", "Option<Option<i32>>",
         "Option<Leaf>", "Option<Option<Vec<u8>>>", "Vec<u8>", "Vec<i64>", "Vec<bool>", "Vec<String>", "Vec<Vec<Vec<u8>>>", "Vec<Rec2>", "Vec<Shape>",
         "Vec<Option<u8>>", "Vec<Bytes>",
         "[u8; 1]", "[i32; 2]", "[bool; 3]", "[u64; 4]", "[i8; 5]", "[u16; 6]", "[i64; 7]", "[String; 2]", "[Leaf; 2]", "[Vec<u8>; 3]", "[Option<u8>; 4]", "[Shape; 1]",
         "Box<i32>", "Box<String>", "Box<Vec<u8>>", "Option<Box<i32>>"]
PLAIN_NM = ["(u8, i8)", "(String, Vec<u8>, bool)", "(u8, u16, u32, u64)", "(i8, String, i32, Bytes, bool)", "(u8, u8, u8, u8, u8, i64)",
            "(Leaf, u8, String, Option<u8>, Vec<i8>, bool, (u8, u8))", "HashMap<u8, u8>", "HashMap<String, Vec<String>>", "HashMap<i64, Shape>",
            "HashMap<bool, HashMap<u16, String>>", "Vec<HashMap<u8, String>>", "Option<(u8, String)>", "HashMap<String, Option<i32>>", "Vec<(bool, i32)>"]
for t in PLAIN:
    T.append((t, False)); MT.append(t)
for t in PLAIN_NM:
    T.append((t, False))

# types that threads may share
SHARED = ["Leaf", "Wide", "Inner", "Nest", "Shape", "Boxy2", "Part", "PartE", "NoCache", "Opty", "List<Shape>", "List<List<Leaf>>", "Maybe<Nest>",
          "Tup", "Rec", "Rec2", "Deep", "Act", "Tuples", "Vec<Rec2>", "Hm", "PNoCache"]
SHARED.remove("Boxy2")

if __name__ == "__main__":
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    emit(os.path.join(here, "harness/zoo/src"), M, T, MT, SHARED)
    item = struct("Item", [F("n", "u8", 0), F("xs", "List<u16>", 3), F("m", "Maybe<i8>", 1), F("e", "Maybe<Maybe<u8>>", 2)], derives=EQH)
    with open(os.path.join(here, "harness/checks/src/item.rs"), "w") as f:
        f.write("// Written by /verif/tools; do not edit.\n//! A state for typed scenarios.\n" + HEAD.replace("use super::*;\n", "") + definition(item) + "\n\n" + binding(item) + "\n")
    print(len(M), "definitions,", len(T), "targets")
