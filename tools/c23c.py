"""C23, without running anything: many random definitions, which must compile."""
import json, os, random, re, shutil
import rzoo
from zoogen import *

HEAD = "#![allow(warnings)]\nuse super::*;\nuse std::collections::HashMap;\nuse steit::{steit_derive, rt::Runtime, state::State, types::{Bytes, List, Map, Maybe}};\n"
PROBE = """#![allow(warnings)]
use super::*;
use steit::{de::Deserialize, meta::HasMeta, ser::Serialize};
use std::{collections::HashMap, fmt::Debug, hash::Hash};
fn plain<T: Serialize + Deserialize + PartialEq + Clone + Debug>() {}
fn state<T: State + Serialize + Deserialize + PartialEq + Clone + Debug>() {}
fn meta<T: HasMeta>() {}
fn hash<T: Hash>() {}
"""


def uses(m):
    """The constructors and setters of a definition, by name and type."""
    if m.params: return ""
    out, arg = [], "Runtime" if m.state else ""
    names = [m.ctor] + ([m.ctor + "_" + snake(v.name) for v in m.vars] if m.is_enum else [])
    out += ["    let _: fn(%s) -> %s = %s::%s;" % (arg, m.name, m.name, n) for n in names]
    if m.state or m.setters:
        for v in m.vars:
            for i, f in enumerate(v.fields):
                s = "set_" + (snake(v.name) + "_" if m.is_enum else "") + alias(f, i, v.shape)
                out.append("    let _: fn(&mut %s, %s) -> &mut %s = %s::%s;" % (m.name, f.ty, m.name, m.name, s))
                if m.state and not f.no_state:
                    out.append("    let _ = |x: &mut %s, v: %s| { x.%s_with(|_: Runtime| v); };" % (m.name, f.ty, s))
    return "fn uses() {\n%s\n}\n" % "\n".join(out)


def zoo(seed, n):
    """{file: text} of one set of definitions that refer to each other."""
    r = random.Random(seed)
    z = rzoo.Zoo(r, n)
    files, lib = {}, ["#![allow(warnings)]", "use std::collections::HashMap;", "use steit::{rt::Runtime, state::State, types::{Bytes, List, Map, Maybe}};"]
    for m in z.msgs:
        f = "d_" + snake(m.name)
        files[f + ".rs"] = HEAD + definition(m) + "\n" + uses(m)
        lib.append("pub mod %s; pub use %s::%s;" % (f, f, m.name))
    probe = PROBE + "fn probes() {\n"
    for t, st in z.targets:
        probe += "    %s::<%s>();\n" % ("state" if st else "plain", t)
        if hashable(t, z.msgs): probe += "    hash::<%s>();\n" % t
    for t in z.metas:
        probe += "    meta::<%s>();\n" % t
    files["probe.rs"] = probe + "}\n"
    lib.append("mod probe;")
    for name, text in rzoo.extras(r, n // 2):
        f = "o_%s" % name.lower()
        files[f + ".rs"] = HEAD + text + "\n"
        lib.append("mod %s;" % f)
    files["mod.rs"] = "\n".join(lib) + "\n"
    return files, z


def check(cargo, src, zoos):
    """{file: message} of what does not compile, and other errors."""
    shutil.rmtree(src, ignore_errors=True)
    os.makedirs(src)
    for k, files in zoos.items():
        os.makedirs(os.path.join(src, k))
        for f, t in files.items(): open(os.path.join(src, k, f), "w").write(t)
    open(os.path.join(src, "lib.rs"), "w").write("#![allow(warnings)]\n" + "".join("mod %s;\n" % k for k in zoos))
    r = cargo(["check", "-q", "-p", "rfault", "--message-format=json"])
    errs, other = {}, []
    for l in r.stdout.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get("reason") != "compiler-message" or m["target"]["name"] != "rfault" or m["message"]["level"] != "error": continue
        m = m["message"]
        at = []
        for s in m["spans"]:
            while s:
                at.append(((not s["is_primary"], s["file_name"])))
                s = (s.get("expansion") or {}).get("span")
        at = [f.split("/src/")[-1] for _, f in sorted(at) if "/src/z" in f or f.startswith("src/z")]
        if at: errs.setdefault(at[0], m["rendered"])
        elif m["spans"]: other.append(m["rendered"])
        elif re.search("overflow|recursion|queries", m["message"]): errs.setdefault("", m["rendered"])
    if r.returncode and not errs and not other: other.append(r.stdout[-2000:] + (r.stderr or "")[-2000:])
    return errs, other
