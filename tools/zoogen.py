"""Emits Rust definitions of messages together with their bindings to the harness."""
import os, re

KEYWORDS = {"type", "match", "move", "ref", "use", "loop", "in", "fn", "impl", "mod", "where", "async", "dyn", "box", "as", "for", "let", "return", "static", "struct", "trait", "yield", "abstract", "override", "try"}

class F:
    def __init__(self, name, ty, tag, no_state=False, no_eq=False, no_hash=False, csharp=None, attr_style=0, tagtext=None, pre="", extra=()):
        self.tagtext, self.pre, self.extra = tagtext or str(tag), pre, list(extra)
        self.name, self.ty, self.tag = name, ty, tag
        self.no_state, self.no_eq, self.no_hash, self.csharp = no_state, no_eq, no_hash, csharp
        self.attr_style = attr_style

class V:
    def __init__(self, name, tag, fields=(), shape="named", csharp=None, attrs=(), tagtext=None, pre=""):
        self.tagtext, self.pre = tagtext or str(tag), pre
        self.name, self.tag, self.fields, self.shape, self.csharp, self.attrs = name, tag, list(fields), shape, csharp, list(attrs)

class Msg:
    """kind: struct | enum"""
    def __init__(self, name, vars, is_enum, state=True, derives=(), attrs=(), csharp=None, params=(), ctor="new",
                 setters=False, no_meta=False, bounds="", where="", pre="", vis="pub ", fvis="pub ", binding_bounds=""):
        self.pre, self.vis, self.fvis, self.binding_bounds = pre, vis, fvis, binding_bounds
        self.name, self.vars, self.is_enum, self.state = name, vars, is_enum, state
        self.derives, self.attrs, self.csharp, self.params = list(derives), list(attrs), csharp, list(params)
        self.flags = None  # how derive_setters and no_meta are spelled
        self.ctor, self.setters, self.no_meta, self.bounds, self.where = ctor, setters, no_meta, bounds, where

def struct(name, fields=(), shape="named", **kw):
    return Msg(name, [V(name, 0, fields, shape)], False, **kw)

def enum(name, vars, **kw):
    return Msg(name, list(vars), True, **kw)

def snake(s):
    out = s[0].lower()
    for c in s[1:]:
        if c.isupper():
            out += "_"
        out += c.lower()
    return out

def rs(s):
    return "None" if s is None else 'Some("%s")' % s

def ident(n):
    return "r#" + n if n in KEYWORDS else n

def field_attr(f, alt):
    parts = ["tag = " + f.tagtext] + f.extra
    if f.no_state: parts.append("no_state" if not alt else "no_state = true")
    if f.no_eq: parts.append("no_eq_hash" if not alt else "no_eq_hash = true")
    if f.no_hash: parts.append("no_hash" if not alt else "no_hash = true")
    if f.csharp: parts.append('csharp_name = "%s"' % f.csharp)
    if f.attr_style == 1 and len(parts) > 1:   # split over several attributes, tag last
        return " ".join("#[steit(%s)]" % p for p in reversed(parts))
    return "#[steit(%s)]" % ", ".join(parts)

def declare(fields, shape, vis, alt=False):
    if shape == "unit":
        return ""
    if shape == "tuple":
        return "(%s)" % ", ".join("%s%s %s%s" % (f.pre, field_attr(f, alt), vis, f.ty) for f in fields)
    return " {\n%s}" % "".join("        %s%s\n        %s%s: %s,\n" % (f.pre, field_attr(f, alt), vis, ident(f.name), f.ty) for f in fields)

def fname(f, i, shape):
    """access"""
    return str(i) if shape == "tuple" else ident(f.name)

def alias(f, i, shape):
    return "f%d" % i if shape == "tuple" else f.name

def definition(m):
    out = []
    alt = len(m.name) % 2 == 0
    derives = list(m.derives) + (["State"] if m.state else ["Serialize", "Deserialize"])
    if "PartialEq" not in derives: derives = ["PartialEq"] + derives
    if "Clone" not in derives: derives = ["Clone"] + derives
    if "Debug" not in derives: derives.append("Debug")
    if m.pre: out.append(m.pre)
    out.append("#[steit_derive(%s)]" % ", ".join(derives))
    attrs = list(m.attrs)
    attrs += m.flags if m.flags is not None else (["derive_setters"] if m.setters and not m.state else []) + (["no_meta"] if m.no_meta else [])
    if m.ctor != "new": attrs.append('ctor_prefix = "%s"' % m.ctor)
    if m.csharp: attrs.append('csharp_name = "%s"' % m.csharp)
    if attrs:
        out.append("#[steit(%s)]" % ", ".join(attrs))
    gen = "<%s>" % ", ".join(p + (": " + m.bounds if m.bounds else "") for p in m.params) if m.params else ""
    if not m.is_enum:
        v = m.vars[0]
        body = declare(v.fields, v.shape, m.fvis, alt)
        where = " where " + m.where if m.where else ""
        if v.shape == "named":
            out.append("%sstruct %s%s%s%s" % (m.vis, m.name, gen, where, body))
        else:
            out.append("%sstruct %s%s%s%s;" % (m.vis, m.name, gen, body, where))
    else:
        out.append("%senum %s%s%s {" % (m.vis, m.name, gen, " where " + m.where if m.where else ""))
        for v in m.vars:
            a = ["tag = " + v.tagtext] + v.attrs
            if v.csharp: a.append('csharp_name = "%s"' % v.csharp)
            out.append("    %s#[steit(%s)]" % (v.pre, ", ".join(a)))
            out.append("    %s%s," % (v.name, declare(v.fields, v.shape, "", alt)))
        out.append("}")
    return "\n".join(out)

def binding(m):
    o = []
    w = o.append
    bound = "Bind + State" if m.state else "Bind"
    if "Hash" in m.derives: bound += " + std::hash::Hash"
    if m.bounds and m.bounds not in bound: bound += " + " + m.bounds
    if m.binding_bounds: bound += " + " + m.binding_bounds
    gdecl = "<%s>" % ", ".join("%s: %s" % (p, bound) for p in m.params) if m.params else ""
    guse = "<%s>" % ", ".join(m.params) if m.params else ""
    N = m.name
    w("impl%s Bind for %s%s {" % (gdecl, N, guse))
    w("    fn ty() -> Ty { msg_ty::<Self>() }")
    w("    fn def() -> MsgDef {")
    w("        MsgDef { name: \"%s\", csharp: %s, is_enum: %s, is_state: %s, builtin: false, no_meta: %s, setters: %s, params: vec![%s], vars: vec![" % (
        N, rs(m.csharp), str(m.is_enum).lower(), str(m.state).lower(), str(m.no_meta).lower(), str(bool(m.state or m.setters)).lower(), ", ".join('"%s"' % p for p in m.params)))
    for v in m.vars:
        w("            VarDef { name: \"%s\", csharp: %s, tag: %d, fields: vec![" % (v.name, rs(v.csharp), v.tag))
        for i, f in enumerate(v.fields):
            w("                FieldDef { name: \"%s\", csharp: %s, tag: %d, ty: <%s as Bind>::ty(), no_state: %s, no_eq: %s, no_hash: %s, src: \"%s\" }," % (
                alias(f, i, v.shape), rs(f.csharp), f.tag, f.ty, str(f.no_state).lower(), str(f.no_eq).lower(), str(f.no_hash).lower(), f.ty))
        w("            ] },")
    w("        ] }")
    w("    }")
    # build
    w("    fn build(v: &Val) -> Self {")
    w("        let (vi, fs) = v.msg();")
    arg = "Runtime::new()" if m.state else ""
    if not m.is_enum:
        v = m.vars[0]
        w("        let mut x = Self::%s(%s);" % (m.ctor, arg))
        for i, f in enumerate(v.fields):
            w("        x.%s = Bind::build(&fs[%d]);" % (fname(f, i, v.shape), i))
        w("        x")
    else:
        w("        match vi {")
        for k, v in enumerate(m.vars):
            w("            %d => {" % k)
            w("                let mut x = Self::%s_%s(%s);" % (m.ctor, snake(v.name), arg))
            if v.fields:
                w("                if let %s::%s { %s, .. } = &mut x {" % (N, v.name, ", ".join("%s: g%d" % (fname(f, i, v.shape), i) for i, f in enumerate(v.fields))))
                for i, f in enumerate(v.fields):
                    w("                    *g%d = Bind::build(&fs[%d]);" % (i, i))
                w("                }")
            w("                x")
            w("            }")
        w("            _ => panic!(\"harness: variant index {}\", vi),")
        w("        }")
    w("    }")
    # ctors
    cs = ["Self::%s(%s)" % (m.ctor, "rt.clone()" if m.state else "")]
    if m.is_enum:
        cs += ["Self::%s_%s(%s)" % (m.ctor, snake(v.name), "rt.clone()" if m.state else "") for v in m.vars]
    w("    fn ctors(rt: &Runtime) -> Vec<Self> { vec![%s] }" % ", ".join(cs))
    # view
    w("    fn view(&self) -> Val {")
    if not m.is_enum:
        v = m.vars[0]
        w("        Val::Msg(0, vec![%s])" % ", ".join("self.%s.view()" % fname(f, i, v.shape) for i, f in enumerate(v.fields)))
    else:
        w("        match self {")
        for k, v in enumerate(m.vars):
            w("            %s::%s { %s .. } => Val::Msg(%d, vec![%s])," % (
                N, v.name, "".join("%s: g%d, " % (fname(f, i, v.shape), i) for i, f in enumerate(v.fields)), k,
                ", ".join("g%d.view()" % i for i in range(len(v.fields)))))
        w("        }")
    w("    }")
    # apply / poke
    has_setters = m.state or m.setters
    def steps(call, state_only=False):
        w("            match (&mut *self, step) {")
        for k, v in enumerate(m.vars):
            for i, f in enumerate(v.fields):
                if state_only and f.no_state: continue
                if m.is_enum:
                    w("                (%s::%s { %s: g, .. }, Step::F(%d, %d)) => return g.%s," % (N, v.name, fname(f, i, v.shape), k, i, call))
                else:
                    w("                (x, Step::F(0, %d)) => return x.%s.%s," % (i, fname(f, i, v.shape), call))
        w("                (_, s) => panic!(\"%s is not in the expected variant for {:?}\", s)," % N)
        w("            }")
    if has_setters:
        w("    fn apply(&mut self, path: &[Step], op: &Op) -> Res {")
        w("        if let Some((step, rest)) = path.split_first() {")
        steps("apply(rest, op)")
        w("        }")
        w("        let Op::Set { var, field, val, how } = op else { panic!(\"harness: {:?} on %s\", op) };" % N)
        w("        let this = self as *mut Self;")
        w("        let ret: *mut Self = match (var, field) {")
        for k, v in enumerate(m.vars):
            for i, f in enumerate(v.fields):
                setter = "set_" + (snake(v.name) + "_" if m.is_enum else "") + alias(f, i, v.shape)
                if m.state and not f.no_state:
                    w("            (%d, %d) => if is_with(how) { self.%s_with(|rt| make(val, how, rt)) as *mut Self } else { self.%s(prep(val, how)) as *mut Self }," % (k, i, setter, setter))
                else:
                    w("            (%d, %d) => self.%s(Bind::build(val)) as *mut Self," % (k, i, setter))
        w("            x => panic!(\"harness: no field {:?} in %s\", x)," % N)
        w("        };")
        w("        assert!(this == ret, \"a setter of %s returned another object\");" % N)
        w("        Res::Unit")
        w("    }")
    w("    fn poke(&mut self, path: &[Step], val: &Val) {")
    w("        if let Some((step, rest)) = path.split_first() {")
    steps("poke(rest, val)")
    w("        }")
    w("        *self = Self::build(val);")
    w("    }")
    if m.state:
        w("    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {")
        w("        if let Some((step, rest)) = path.split_first() {")
        steps("node(rest, f)", True)
        w("        }")
        w("        f(&mut Nd(self))")
        w("    }")
        w("    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {")
        def wire(f, expr):
            if not f.no_state:
                w("                at.push(%d); %s.wiring(at, visit); at.pop();" % (f.tag, expr))
        if not m.is_enum:
            v = m.vars[0]
            w("        visit(at, State::runtime(self));")
            for i, f in enumerate(v.fields):
                wire(f, "self." + fname(f, i, v.shape))
        else:
            w("        match self {")
            for k, v in enumerate(m.vars):
                w("            %s::%s { %s .. } => {" % (N, v.name, "".join("%s: g%d, " % (fname(f, i, v.shape), i) for i, f in enumerate(v.fields))))
                w("                at.push(%d);" % v.tag)
                w("                visit(at, State::runtime(self));")
                for i, f in enumerate(v.fields):
                    wire(f, "g%d" % i)
                w("                at.pop();")
                w("            }")
            w("        }")
        w("    }")
    w("}")
    return "\n".join(o)

HEAD = """#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

"""

def args_of(t):
    """The head of a type and its arguments."""
    t = t.strip()
    if t.startswith("["):
        return "[]", [t[1:-1].rsplit(";", 1)[0]]
    if t.startswith("("):
        head, inner = "()", t[1:-1]
    elif "<" in t:
        head, inner = t.split("<", 1)
        inner = inner[:-1]
    else:
        return t, []
    out, depth, cur = [], 0, ""
    for c in inner:
        if c in "<([": depth += 1
        if c in ">)]": depth -= 1
        if c == "," and depth == 0:
            out.append(cur); cur = ""
        else:
            cur += c
    if cur.strip(): out.append(cur)
    return head, [x.strip() for x in out]

def hashable(t, msgs):
    head, args = args_of(t)
    if head in ("HashMap", "Map"):
        return False
    for m in msgs:
        if m.name == head and "Hash" not in m.derives:
            return False
    return all(hashable(a, msgs) for a in args)

# ---------------------------------------------------------------- borrowed forms
# A plain message with text gets a twin that borrows the text: it can be written but not read.

def bare(t):
    """The type without qualification."""
    t = t.strip()
    for q in ("std::string::", "std::vec::", "std::option::", "std::boxed::", "steit::types::", "super::"):
        if t.startswith(q): return bare(t[len(q):])
    if t.startswith("(") and len(args_of(t)[1]) == 1 and not t.endswith(",)"): return bare(t[1:-1])
    return t

def twins(msgs):
    """The names of the messages that have a twin."""
    names, plain = set(), {m.name: m for m in msgs if not m.state and not m.params}
    while True:
        more = {n for n, m in plain.items() if any(lends(f.ty, names, plain) for v in m.vars for f in v.fields)}
        if more == names: return names
        names = more

def lends(t, names, plain=None):
    t = bare(t)
    if t == "String" or t in names: return True
    head, args = args_of(t)
    return head in ("Vec", "Option", "Box", "[]", "()", "HashMap") and any(lends(a, names) for a in args)

def lent(t, names):
    """The borrowed form of a type."""
    t = bare(t)
    if not lends(t, names): return t
    if t == "String": return "&'a str"
    if t in names: return "Lent%s<'a>" % t
    head, args = args_of(t)
    if head == "[]": return "[%s; %s]" % (lent(args[0], names), t[1:-1].rsplit(";", 1)[1].strip())
    if head == "()": return "(%s,)" % ", ".join(lent(a, names) for a in args)
    return "%s<%s>" % (head, ", ".join(lent(a, names) for a in args))

def lending(t, e, names):
    """An expression for the borrowed form of what the reference `e` refers to."""
    t = bare(t)
    if not lends(t, names): return "%s.clone()" % e
    if t == "String": return "%s.as_str()" % e
    if t in names: return "%s.lend()" % e
    head, args = args_of(t)
    x = lending(args[-1], "x", names)
    if head == "Vec": return "%s.iter().map(|x| %s).collect::<Vec<_>>()" % (e, x)
    if head == "Option": return "%s.as_ref().map(|x| %s)" % (e, x)
    if head == "Box": return "{ let x = &**%s; Box::new(%s) }" % (e, x)
    if head == "[]":
        n = int(t[1:-1].rsplit(";", 1)[1])
        return "{ let mut i = %s.iter().map(|x| %s); [%s] }" % (e, x, ", ".join(["i.next().unwrap()"] * n))
    if head == "HashMap": return "%s.iter().map(|(y, x)| (%s, %s)).collect::<HashMap<_, _>>()" % (e, lending(args[0], "y", names), x)
    return "{ let t = %s; (%s,) }" % (e, ", ".join(lending(a, "(&t.%d)" % i, names) for i, a in enumerate(args)))

def twin(m, names):
    import copy
    c = copy.deepcopy(m)
    c.name, c.state, c.params = "Lent" + m.name, False, []
    c.no_meta, c.setters, c.flags = False, m.setters and not m.is_enum, None
    for v in c.vars:
        for f in v.fields: f.ty = lent(f.ty, names)
    used = any(lends(f.ty, names) for v in m.vars for f in v.fields)
    assert used
    text = definition(c).replace("Serialize, Deserialize", "Serialize, Default" if "Default" not in m.derives else "Serialize")
    for kind in ("struct", "enum"):
        text = re.sub(r"\b%s %s\b" % (kind, c.name), "%s %s<'a>" % (kind, c.name), text, 1)
    o = [text, "impl %s {" % m.name, "    pub fn lend(&self) -> %s<'_> {" % c.name]
    if not m.is_enum:
        v = m.vars[0]
        o.append("        let mut x = %s::%s();" % (c.name, m.ctor))
        for i, f in enumerate(v.fields):
            n = fname(f, i, v.shape)
            o.append("        x.%s = %s;" % (n, lending(f.ty, "(&self.%s)" % n, names)))
        o.append("        x")
    else:
        o.append("        match self {")
        for v in m.vars:
            pat = lambda p: "".join("%s: %s%d, " % (fname(f, i, v.shape), p, i) for i, f in enumerate(v.fields))
            o.append("            %s::%s { %s.. } => {" % (m.name, v.name, pat("g")))
            o.append("                let mut x = %s::%s_%s();" % (c.name, m.ctor, snake(v.name)))
            o.append("                if let %s::%s { %s.. } = &mut x {" % (c.name, v.name, pat("h")))
            for i, f in enumerate(v.fields):
                o.append("                    *h%d = %s;" % (i, lending(f.ty, "g%d" % i, names)))
            o += ["                }", "                x", "            }"]
        o.append("        }")
    o += ["    }", "}"]
    return "\n".join(o)

# with no message in them
LENT = ["String", "Vec<String>", "Option<String>", "Box<String>", "(String, u8)", "(u16, Vec<String>, String)", "[String; 2]",
        "HashMap<u8, String>", "HashMap<String, String>", "Vec<Option<String>>", "Option<Vec<String>>"]

def emit(out_dir, msgs, targets, metas, shared=(), head="", keep=()):
    """targets: list of (rust type, is_state); metas: list of rust types with metadata."""
    os.makedirs(out_dir, exist_ok=True)
    files = {}
    lib = ["// Written by /verif/tools; do not edit.", "#![allow(warnings)]", head,
           "use engine::prelude::*;", "use std::collections::HashMap;", "use steit::types::{Bytes, List, Map, Maybe};"]
    names = twins(msgs)
    for m in msgs:
        mod = "d_" + snake(m.name)
        files[mod + ".rs"] = "// Written by /verif/tools; do not edit.\n" + HEAD + definition(m) + "\n\n" + binding(m) + "\n"
        lib.append("pub mod %s; pub use %s::%s;" % (mod, mod, m.name))
        if m.name in names:
            files[mod + ".rs"] += "\n" + twin(m, names) + "\n"
            lib.append("pub use %s::Lent%s;" % (mod, m.name))
    lib.append("pub fn targets() -> Vec<Box<dyn Target>> {\n    vec![")
    for t, st in targets:
        lib.append("        %s%s::<%s>()," % ("state" if st else "plain", "_h" if hashable(t, msgs) else "", t))
    lib.append("    ]\n}")
    lib.append("pub fn shared() -> Vec<Shared> {\n    vec![%s]\n}" % ", ".join("Shared::of::<%s>()" % t for t in shared))
    lib.append("pub fn metas() -> Vec<Meta> {\n    vec![")
    for t in metas:
        lib.append("        Meta::of::<%s>(\"%s\")," % (t, t))
    lib.append("    ]\n}")
    lib.append("pub fn lent() -> Vec<Lent> {\n    vec![")
    for t in LENT + sorted(names):
        lib.append("        Lent { name: \"%s\", ty: <%s as Bind>::ty, with: |v, f| { let o = <%s as Bind>::build(v); let x = &o; lend(&%s, f) } }," % (
            lent(t, names), t, t, lending(t, "x", names)))
    lib.append("    ]\n}")
    files["lib.rs"] = "\n".join(lib) + "\n"
    for n in os.listdir(out_dir):
        if n.endswith(".rs") and n not in files and n not in keep:
            os.remove(os.path.join(out_dir, n))
    for n, t in files.items():
        p = os.path.join(out_dir, n)
        old = open(p).read() if os.path.exists(p) else None
        if old != t:
            with open(p, "w") as f:
                f.write(t)
