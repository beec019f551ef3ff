//! C25: which C# files are generated. C26: what they declare. C27: metadata.

use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashMap},
    fs,
    path::PathBuf,
};

use engine::{
    inst::Meta,
    src::Src,
    val::{def, walk_ty, MsgDef, Ty},
};
use steit::{
    gen::{generators::*, Generator, Setting, Writer},
    meta::{EnumMeta, FieldMeta, FieldTypeMeta, HasMeta, MessageMeta, MetaLink, NameMeta, StructMeta, TypeMeta, VariantMeta},
    wire_fmt::WireType,
};

use crate::cx::{Check, Cx, Env, Out};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C25",
            quick: 20_000,
            thorough: 300_000,
            rule: "A case draws a root (a type of the zoo, or the root of a random graph of links with cycles, shared nodes and unnamed links), naming, builtin and skipping settings, generates into a directory that may hold older files, and compares returned names, files and contents with those of the reachable messages; some generate again from other roots. Non-trivial: three or more messages are reachable and one is skipped, shared or on a cycle.",
            scenarios: &[(2, "types", c25_types), (3, "graphs", c25_graphs)],
        },
        Check {
            id: "C26",
            quick: 40_000,
            thorough: 800_000,
            rule: "A case generates the class of a message of the zoo or of a random schema (names, tags, types with nested arguments, parameters and boxes), parses the C# text and compares every declaration and every dispatch case with the schema. Non-trivial: the message has two or more fields of different kinds.",
            scenarios: &[(1, "types", c26_types), (6, "random structs", c26_structs), (4, "random enums", c26_enums)],
        },
        Check {
            id: "C27",
            quick: 40_000,
            thorough: 400_000,
            rule: "A case draws a type with metadata, compares its name, type, wire type and message with the definition, and walks its links at random comparing each with the field types. Non-trivial: the type is a message or a container of one.",
            scenarios: &[(1, "types", c27)],
        },
    ]
}

// ---------------------------------------------------------------- schema

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Name {
    pub rust: String,
    pub cs: Option<String>,
}

impl Name {
    pub fn new(rust: &str, cs: Option<&str>) -> Self {
        Name { rust: rust.into(), cs: cs.map(|x| x.into()) }
    }
    pub fn cs(&self) -> &str {
        self.cs.as_deref().unwrap_or(&self.rust)
    }
    pub fn upper(&self) -> String {
        upper(self.cs())
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Gty {
    Prim(Name, bool),
    Ref(Name, Vec<Gty>),
    Param(String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Field {
    name: Name,
    pub tag: u32,
    ty: Gty,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Class {
    pub name: Name,
    params: Vec<String>,
    pub fields: Vec<Field>,
    builtin: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Msg {
    Struct(Class),
    Enum { name: Name, params: Vec<String>, builtin: bool, vars: Vec<(u32, Class)> },
}

impl Msg {
    pub fn name(&self) -> &Name {
        match self {
            Msg::Struct(c) => &c.name,
            Msg::Enum { name, .. } => name,
        }
    }
    fn builtin(&self) -> bool {
        match self {
            Msg::Struct(c) => c.builtin,
            Msg::Enum { builtin, .. } => *builtin,
        }
    }
}

/// Whether names of the definition meet names that every generated class declares (or each other);
/// `#[steit(csharp_name = …)]` is the application's means to keep them apart.
pub fn collides(m: &Msg) -> bool {
    fn class(c: &Class) -> bool {
        let mut names: BTreeSet<String> = [
            "Path", "ClearUpdateHandlers", "Deserialize", "GetWireType", "GetNested", "ReplaceAt", "ReplayListPush",
            "ReplayListPop", "ReplayMapRemove", "MaybeNotify",
        ]
        .iter()
        .map(|x| x.to_string())
        .collect();
        let own = names.insert(c.name.cs().to_string());
        let fields = c.fields.iter().all(|f| {
            let n = f.name.upper();
            names.insert(format!("On{}Update", n)) & names.insert(format!("Clear{}UpdateHandlers", n)) & names.insert(n)
        });
        !own || !fields
    }
    match m {
        Msg::Struct(c) => class(c),
        Msg::Enum { name, vars, .. } => {
            let mut names: BTreeSet<String> = [
                "Path", "Tag", "Variant", "OnUpdate", "ClearUpdateHandlers", "Deserialize", "GetWireType", "GetNested",
                "ReplaceAt", "ReplayListPush", "ReplayListPop", "ReplayMapRemove", "UpdateAndNotify",
            ]
            .iter()
            .map(|x| x.to_string())
            .collect();
            let own = names.insert(name.cs().to_string());
            let all = vars.iter().all(|(_, c)| {
                let n = c.name.upper();
                names.insert(format!("{}Tag", n))
                    & names.insert(format!("{}Variant", c.name.cs()))
                    & names.insert(format!("New{}", n))
                    & names.insert(c.name.cs().to_string())
                    & !class(c)
            });
            !own || !all
        }
    }
}

/// Whether a member hides a type which generated code calls by its simple name; such names are the
/// application's to avoid, like the others of `collides`.
pub fn shadows(m: &Msg) -> bool {
    let taken = [
        "WireType", "Path", "IReader", "IState", "IEnumState", "StateFactory", "State", "String", "Byte", "SByte", "UInt16", "UInt32",
        "UInt64", "Int16", "Int32", "Int64", "Boolean", "EventHandler", "FieldUpdateEventArgs", "VariantUpdateEventArgs", "EndOfStreamException",
        "InvalidOperationException", "NotSupportedException", "IndexOutOfRangeException", "Object", "Type", "System", "Steit", "Codec",
        "Collections", "Builtins", "Vector", "StateList", "StateMap", "Option", "Bytes", "Maybe", "Zoo",
    ];
    let class = |c: &Class| c.fields.iter().any(|f| taken.contains(&f.name.upper().as_str()));
    match m {
        Msg::Struct(c) => class(c),
        Msg::Enum { vars, .. } => vars.iter().any(|(_, c)| class(c) || taken.contains(&c.name.cs())),
    }
}

pub fn upper(s: &str) -> String {
    s.split('_')
        .map(|part| {
            let mut cs = part.chars();
            match cs.next() {
                Some(c) => c.to_uppercase().chain(cs).collect::<String>(),
                None => String::new(),
            }
        })
        .collect()
}

const PRIMS: &[(&str, &str, bool)] = &[
    ("bool", "Boolean", true),
    ("u8", "Byte", true),
    ("u16", "UInt16", true),
    ("u32", "UInt32", true),
    ("u64", "UInt64", true),
    ("i8", "SByte", true),
    ("i16", "Int16", true),
    ("i32", "Int32", true),
    ("i64", "Int64", true),
    ("String", "String", false),
];

fn prim(rust: &str) -> Gty {
    let p = PRIMS.iter().find(|p| p.0 == rust).unwrap();
    Gty::Prim(Name::new(p.0, Some(p.1)), p.2)
}

const HEADS: &[(&str, Option<&str>)] = &[
    ("Option", Some("Option")),
    ("Vec", Some("Vector")),
    ("List", Some("StateList")),
    ("Map", Some("StateMap")),
    ("Box", Some("Box")),
    ("Bytes", None),
];

fn head(rust: &str, args: Vec<Gty>) -> Gty {
    let h = HEADS.iter().find(|h| h.0 == rust).unwrap();
    Gty::Ref(Name::new(h.0, h.1), args)
}

/// The types and messages of the zoo by Rust name.
pub fn messages(env: &Env) -> HashMap<&'static str, &'static MsgDef> {
    let mut out = HashMap::new();
    let mut seen = vec![];
    for m in &env.metas {
        walk_ty(&(m.ty)(), &mut seen, &mut |t| {
            if let Ty::Msg(id) = t {
                let d = def(*id);
                out.insert(d.name, d);
            }
        });
    }
    out
}

/// Splits the arguments of a type as written.
fn split(src: &str) -> Vec<String> {
    let mut out = vec![];
    let mut depth = 0;
    let mut cur = String::new();
    for c in src.chars() {
        match c {
            '<' | '(' | '[' => depth += 1,
            '>' | ')' | ']' => depth -= 1,
            ',' if depth == 0 => {
                out.push(std::mem::take(&mut cur).trim().to_string());
                continue;
            }
            _ => (),
        }
        cur.push(c);
    }
    if !cur.trim().is_empty() {
        out.push(cur.trim().to_string());
    }
    out
}

/// The type written in a definition.
pub fn written(src: &str, params: &[&'static str], msgs: &HashMap<&'static str, &'static MsgDef>) -> Gty {
    let src = src.trim();
    if let Some(inner) = src.strip_prefix('[') {
        let inner = inner.strip_suffix(']').unwrap();
        let elem = inner.rsplit_once(';').unwrap().0;
        return head("Vec", vec![written(elem, params, msgs)]);
    }
    if let Some(inner) = src.strip_prefix('(') {
        let args = split(inner.strip_suffix(')').unwrap());
        assert!(args.len() == 1, "harness: a tuple has no metadata: {}", src);
        return written(&args[0], params, msgs);
    }
    let (path, args) = match src.split_once('<') {
        Some((p, a)) => (p, split(a.strip_suffix('>').unwrap())),
        None => (src, vec![]),
    };
    let name = path.rsplit("::").next().unwrap().trim();
    let args: Vec<Gty> = args.iter().filter(|a| !a.starts_with('\'')).map(|a| written(a, params, msgs)).collect();
    if path == name && params.iter().any(|p| *p == name) {
        return Gty::Param(name.to_string());
    }
    if PRIMS.iter().any(|p| p.0 == name) {
        return prim(name);
    }
    if HEADS.iter().any(|h| h.0 == name) {
        return head(name, args);
    }
    let d = msgs.get(name).unwrap_or_else(|| panic!("harness: unknown type {}", src));
    Gty::Ref(Name::new(d.name, d.csharp), args)
}

fn class(d: &MsgDef, v: usize, msgs: &HashMap<&'static str, &'static MsgDef>) -> Class {
    let v = &d.vars[v];
    let (name, params) = if d.is_enum {
        (Name::new(v.name, v.csharp), vec![])
    } else {
        (Name::new(d.name, d.csharp), d.params.iter().map(|p| p.to_string()).collect())
    };
    Class {
        name,
        params,
        fields: v
            .fields
            .iter()
            .map(|f| Field { name: Name::new(f.name, f.csharp), tag: f.tag, ty: written(f.src, &d.params, msgs) })
            .collect(),
        builtin: d.builtin,
    }
}

pub fn msg(d: &MsgDef, msgs: &HashMap<&'static str, &'static MsgDef>) -> Msg {
    if !d.is_enum {
        return Msg::Struct(class(d, 0, msgs));
    }
    Msg::Enum {
        name: Name::new(d.name, d.csharp),
        params: d.params.iter().map(|p| p.to_string()).collect(),
        builtin: d.builtin,
        vars: (0..d.vars.len()).map(|i| (d.vars[i].tag, class(d, i, msgs))).collect(),
    }
}

// ---------------------------------------------------------------- metadata as schema

fn read_name(n: &NameMeta) -> Name {
    Name::new(n.rust, n.csharp)
}

pub fn read_type(t: &TypeMeta) -> Gty {
    match t {
        TypeMeta::Primitive(n, w) => Gty::Prim(read_name(n), matches!(w, WireType::Varint)),
        TypeMeta::Ref(n, args) => Gty::Ref(read_name(n), args.iter().map(read_field_type).collect()),
    }
}

fn read_field_type(t: &FieldTypeMeta) -> Gty {
    match t {
        FieldTypeMeta::Type(t) => read_type(t),
        FieldTypeMeta::TypeParam(p) => Gty::Param(p.to_string()),
    }
}

fn read_class(m: &StructMeta) -> Class {
    Class {
        name: read_name(m.name),
        params: m.type_params.iter().map(|p| p.to_string()).collect(),
        fields: m
            .fields
            .iter()
            .map(|f| Field { name: read_name(f.name), tag: f.tag, ty: read_field_type(f.ty) })
            .collect(),
        builtin: m.builtin,
    }
}

fn read_msg(m: &MessageMeta) -> Msg {
    match m {
        MessageMeta::Struct(s) => Msg::Struct(read_class(s)),
        MessageMeta::Enum(e) => Msg::Enum {
            name: read_name(e.name),
            params: e.type_params.iter().map(|p| p.to_string()).collect(),
            builtin: e.builtin,
            vars: e.variants.iter().map(|v| (v.tag, read_class(&v.ty))).collect(),
        },
    }
}

// ---------------------------------------------------------------- schema as metadata

fn leak<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}

fn make_str(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

fn make_name(n: &Name) -> &'static NameMeta {
    leak(NameMeta { rust: make_str(&n.rust), csharp: n.cs.as_deref().map(make_str) })
}

fn make_type(t: &Gty) -> &'static TypeMeta {
    match t {
        Gty::Prim(n, v) => leak(TypeMeta::Primitive(make_name(n), if *v { WireType::Varint } else { WireType::Sized })),
        Gty::Ref(n, args) => {
            leak(TypeMeta::Ref(make_name(n), Box::leak(args.iter().map(make_field_type).collect::<Vec<_>>().into_boxed_slice())))
        }
        Gty::Param(_) => panic!("harness: a parameter is not a type"),
    }
}

fn make_field_type(t: &Gty) -> FieldTypeMeta {
    match t {
        Gty::Param(p) => FieldTypeMeta::TypeParam(make_str(p)),
        t => FieldTypeMeta::Type(make_type(t)),
    }
}

fn make_strs(xs: &[String]) -> &'static [&'static str] {
    Box::leak(xs.iter().map(|p| make_str(p)).collect::<Vec<_>>().into_boxed_slice())
}

fn make_class(c: &Class) -> StructMeta {
    StructMeta {
        name: make_name(&c.name),
        type_params: make_strs(&c.params),
        fields: Box::leak(
            c.fields
                .iter()
                .map(|f| FieldMeta { name: make_name(&f.name), ty: leak(make_field_type(&f.ty)), tag: f.tag })
                .collect::<Vec<_>>()
                .into_boxed_slice(),
        ),
        builtin: c.builtin,
    }
}

pub fn make_msg(m: &Msg) -> MessageMeta {
    match m {
        Msg::Struct(c) => MessageMeta::Struct(make_class(c)),
        Msg::Enum { name, params, builtin, vars } => MessageMeta::Enum(EnumMeta {
            name: make_name(name),
            type_params: make_strs(params),
            variants: Box::leak(
                vars.iter().map(|(tag, c)| VariantMeta { ty: make_class(c), tag: *tag }).collect::<Vec<_>>().into_boxed_slice(),
            ),
            builtin: *builtin,
        }),
    }
}

pub fn text(m: &MessageMeta, setting: &CSharpSetting) -> String {
    let mut w = Writer::new(CSharpGenerator::INDENT_SIZE);
    match m {
        MessageMeta::Struct(s) => CSharpGenerator.gen_struct(s, false, setting, &mut w),
        MessageMeta::Enum(e) => CSharpGenerator.gen_enum(e, setting, &mut w),
    }
    w.end()
}

// ---------------------------------------------------------------- random schemas

const WORDS: &[&str] = &["hp", "name", "pos", "kind", "item", "x", "y2", "owner", "at", "big", "f0", "q", "lv", "Zed", "iOS", "a1b", "score", "of", "default", "reader", "event", "lock"];

fn rust_name(s: &mut Src) -> String {
    let n = s.range(1, 3);
    let mut out = (0..n).map(|_| s.pick(WORDS).to_lowercase()).collect::<Vec<_>>().join(if s.chance(1, 8) { "__" } else { "_" });
    if s.chance(1, 10) {
        out.insert(0, '_');
    }
    if s.chance(1, 10) {
        out.push('_');
    }
    out
}

fn cs_name(s: &mut Src) -> String {
    let n = s.range(1, 3);
    let mut out = String::new();
    for _ in 0..n {
        let w = *s.pick(WORDS);
        match s.below(3) {
            0 => out.push_str(&upper(w)),
            1 => out.push_str(w),
            _ => {
                out.push('_');
                out.push_str(w)
            }
        }
    }
    out
}

fn class_name(s: &mut Src, used: &mut BTreeSet<String>) -> Name {
    let n = s.range(1, 3);
    let rust: String = (0..n).map(|_| upper(s.pick(WORDS))).collect();
    let cs = if s.chance(1, 3) { Some(cs_name(s)).filter(|n| !KEYWORDS.contains(&n.as_str())) } else { None };
    let name = Name { rust, cs };
    if used.insert(name.upper().to_lowercase()) {
        return name;
    }
    for i in used.len().. {
        let more = format!("{}{}", name.rust, i);
        if used.insert(more.to_lowercase()) {
            return Name { rust: more, cs: None };
        }
    }
    unreachable!()
}

fn random_type(s: &mut Src, params: &[String], depth: u32) -> Gty {
    match s.below(if depth == 0 { 5 } else { 10 }) {
        0..=2 => {
            let p = s.pick(PRIMS);
            prim(p.0)
        }
        3 if !params.is_empty() => Gty::Param(s.pick(params).clone()),
        3 | 4 => match s.below(3) {
            0 => head("Bytes", vec![]),
            _ => Gty::Ref(Name { rust: format!("Msg{}", s.below(4)), cs: if s.bool() { Some(format!("Cs{}", s.below(4))) } else { None } }, vec![]),
        },
        5 => {
            let k = prim(*s.pick(&["u8", "u16", "u32"]));
            let v = random_type(s, params, depth - 1);
            head("Map", vec![k, v])
        }
        6 => {
            let x = random_type(s, params, depth - 1);
            head("Box", vec![x])
        }
        7 => {
            let n = s.range(1, 3);
            let args = (0..n).map(|_| random_type(s, params, depth - 1)).collect();
            Gty::Ref(Name { rust: format!("Gen{}", n), cs: if s.bool() { Some(format!("CsGen{}", n)) } else { None } }, args)
        }
        _ => {
            let h = *s.pick(&["Option", "Vec", "List"]);
            let x = random_type(s, params, depth - 1);
            head(h, vec![x])
        }
    }
}

fn random_tag(s: &mut Src, used: &mut BTreeSet<u32>) -> u32 {
    loop {
        let t = match s.below(4) {
            0 => s.below(0x2000_0000) as u32,
            1 => *s.pick(&[15, 16, 127, 128, 2047, 2048, 0x1fff_ffff]),
            _ => s.below(12) as u32,
        };
        if used.insert(t) {
            return t;
        }
        let n = (0..).find(|t| !used.contains(t)).unwrap();
        if s.bool() {
            used.insert(n);
            return n;
        }
    }
}

fn random_class(s: &mut Src, name: Name, params: &[String], own: bool, max: usize) -> Class {
    let mut tags = BTreeSet::new();
    let mut names: BTreeSet<String> = ["path".to_string(), name.cs().to_lowercase()].into();
    let n = s.range(0, max);
    let mut fields = vec![];
    for _ in 0..n {
        let fname = Name { rust: rust_name(s), cs: if s.chance(1, 4) { Some(cs_name(s)) } else { None } };
        if !names.insert(fname.upper().to_lowercase()) {
            continue;
        }
        let tag = random_tag(s, &mut tags);
        fields.push(Field { name: fname, tag, ty: random_type(s, params, 3) });
    }
    Class { name, params: if own { params.to_vec() } else { vec![] }, fields, builtin: s.chance(1, 6) }
}

fn random_params(s: &mut Src) -> Vec<String> {
    let n = s.weighted(&[5, 3, 2, 1]);
    ["T", "U", "Key"][..n].iter().map(|x| x.to_string()).collect()
}

fn random_struct(s: &mut Src, used: &mut BTreeSet<String>) -> Msg {
    let name = class_name(s, used);
    let params = random_params(s);
    Msg::Struct(random_class(s, name, &params, true, 7))
}

fn random_enum(s: &mut Src, used: &mut BTreeSet<String>) -> Msg {
    let name = class_name(s, used);
    let params = random_params(s);
    let builtin = s.chance(1, 6);
    let n = s.range(1, 5);
    let zero = s.idx(n);
    let mut tags = BTreeSet::from([0]);
    let mut names = BTreeSet::from([name.upper().to_lowercase()]);
    let vars = (0..n)
        .map(|i| {
            let vname = class_name(s, &mut names);
            let tag = if i == zero { 0 } else { random_tag(s, &mut tags) };
            let mut c = random_class(s, vname, &params, false, 4);
            c.builtin = builtin;
            (tag, c)
        })
        .collect();
    Msg::Enum { name, params, builtin, vars }
}

// ---------------------------------------------------------------- C#

fn tokens(text: &str) -> Result<Vec<String>, String> {
    let cs: Vec<char> = text.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == '/' && cs.get(i + 1) == Some(&'/') {
            while i < cs.len() && cs[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && cs.get(i + 1) == Some(&'*') {
            while i + 1 < cs.len() && !(cs[i] == '*' && cs[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if c.is_alphanumeric() || c == '_' || c == '@' {
            let mut t = String::new();
            while i < cs.len() && (cs[i].is_alphanumeric() || cs[i] == '_' || cs[i] == '@') {
                t.push(cs[i]);
                i += 1;
            }
            out.push(t);
        } else {
            let two: String = cs[i..cs.len().min(i + 2)].iter().collect();
            if ["??", "?.", "==", "=>", "!=", "&&", "||"].contains(&two.as_str()) {
                out.push(two);
                i += 2;
            } else if "{}()<>[];:,.=?".contains(c) {
                out.push(c.to_string());
                i += 1;
            } else {
                return Err(format!("unexpected character {:?} in C# text", c));
            }
        }
    }
    // `this.` goes without saying
    let mut i = 0;
    while i + 1 < out.len() {
        if out[i] == "this" && out[i + 1] == "." {
            out.drain(i..i + 2);
        } else {
            i += 1;
        }
    }
    Ok(out)
}

fn toks(text: &str) -> Vec<String> {
    tokens(text).expect("harness: template")
}

#[derive(Debug, Clone, PartialEq)]
enum Kind {
    Const,
    Event,
    Property,
    Ctor,
    Method,
    Field,
}

#[derive(Debug, Clone)]
struct Member {
    mods: Vec<String>,
    kind: Kind,
    ty: Vec<String>,
    name: String,
    /// parameters, and what follows them before the body
    params: Vec<String>,
    body: Vec<String>,
}

#[derive(Debug, Default)]
struct CsClass {
    mods: Vec<String>,
    name: String,
    params: Vec<String>,
    bases: Vec<String>,
    members: Vec<Member>,
    nested: Vec<CsClass>,
}

#[derive(Debug)]
struct CsFile {
    using: Vec<String>,
    namespace: String,
    classes: Vec<CsClass>,
}

struct P {
    t: Vec<String>,
    i: usize,
}

const MODS: &[&str] = &["public", "internal", "private", "protected", "static", "sealed", "partial", "const", "event", "readonly", "override", "virtual"];

impl P {
    fn peek(&self) -> &str {
        self.t.get(self.i).map(|x| x.as_str()).unwrap_or("<end>")
    }
    fn next(&mut self) -> String {
        let x = self.peek().to_string();
        self.i += 1;
        x
    }
    fn eat(&mut self, x: &str) -> Result<(), String> {
        let at = self.i;
        let got = self.next();
        if got != x {
            let from = at.saturating_sub(8);
            return Err(format!("expected `{}` but found `{}` after `{}`", x, got, self.t[from..at.min(self.t.len())].join(" ")));
        }
        Ok(())
    }
    fn ident(&mut self) -> Result<String, String> {
        let x = self.next();
        if x.chars().next().map_or(false, |c| c.is_alphabetic() || c == '_' || c == '@') {
            Ok(x)
        } else {
            Err(format!("expected a name but found `{}`", x))
        }
    }
    fn qual(&mut self) -> Result<String, String> {
        let mut out = self.ident()?;
        while self.peek() == "." {
            self.i += 1;
            out.push('.');
            out.push_str(&self.ident()?);
        }
        Ok(out)
    }
    /// Tokens up to the bracket matching the one just eaten, which is consumed.
    fn until(&mut self, open: &str, close: &str) -> Result<Vec<String>, String> {
        let mut depth = 1;
        let mut out = vec![];
        loop {
            let t = self.next();
            if t == "<end>" {
                return Err(format!("`{}` is never closed", open));
            }
            if t == open {
                depth += 1;
            } else if t == close {
                depth -= 1;
                if depth == 0 {
                    return Ok(out);
                }
            }
            out.push(t);
        }
    }
    fn ty(&mut self) -> Result<Vec<String>, String> {
        let mut out = vec![self.qual()?];
        if self.peek() == "<" {
            self.i += 1;
            out.push("<".into());
            out.extend(self.until("<", ">")?);
            out.push(">".into());
        }
        if self.peek() == "?" {
            self.i += 1;
            out.push("?".into());
        }
        Ok(out)
    }
    fn file(&mut self) -> Result<CsFile, String> {
        let mut using = vec![];
        while self.peek() == "using" {
            self.i += 1;
            using.push(self.qual()?);
            self.eat(";")?;
        }
        self.eat("namespace")?;
        let namespace = self.qual()?;
        self.eat("{")?;
        let mut classes = vec![];
        while self.peek() != "}" {
            let mods = self.mods();
            self.eat("class")?;
            classes.push(self.class(mods)?);
        }
        self.eat("}")?;
        self.eat("<end>")?;
        Ok(CsFile { using, namespace, classes })
    }
    fn mods(&mut self) -> Vec<String> {
        let mut out = vec![];
        while MODS.contains(&self.peek()) {
            out.push(self.next());
        }
        out
    }
    fn class(&mut self, mods: Vec<String>) -> Result<CsClass, String> {
        let mut c = CsClass { mods, name: self.ident()?, ..Default::default() };
        if self.peek() == "<" {
            self.i += 1;
            c.params = self.until("<", ">")?.into_iter().filter(|x| x != ",").collect();
        }
        if self.peek() == ":" {
            self.i += 1;
            loop {
                c.bases.push(self.ty()?.concat());
                if self.peek() != "," {
                    break;
                }
                self.i += 1;
            }
        }
        self.eat("{")?;
        while self.peek() != "}" {
            let mods = self.mods();
            if self.peek() == "class" {
                self.i += 1;
                let n = self.class(mods)?;
                c.nested.push(n);
                continue;
            }
            let mut m = Member { mods, kind: Kind::Field, ty: vec![], name: String::new(), params: vec![], body: vec![] };
            let first = self.ty()?;
            if self.peek() == "(" {
                m.kind = Kind::Ctor;
                m.name = first.concat();
            } else {
                m.ty = first;
                m.name = self.ident()?;
                if self.peek() == "<" {
                    self.i += 1;
                    m.name.push('<');
                    m.name.push_str(&self.until("<", ">")?.concat());
                    m.name.push('>');
                }
            }
            match self.next().as_str() {
                "(" => {
                    if m.kind != Kind::Ctor {
                        m.kind = Kind::Method;
                    }
                    m.params = self.until("(", ")")?;
                    while self.peek() != "{" && self.peek() != "<end>" {
                        let t = self.next();
                        m.params.push(t);
                    }
                    self.eat("{")?;
                    m.body = self.until("{", "}")?;
                }
                "{" => {
                    m.kind = Kind::Property;
                    m.body = self.until("{", "}")?;
                }
                "=" => {
                    while self.peek() != ";" && self.peek() != "<end>" {
                        let t = self.next();
                        m.body.push(t);
                    }
                    self.eat(";")?;
                }
                ";" => (),
                x => return Err(format!("unexpected `{}` after {:?}", x, m)),
            }
            if m.mods.iter().any(|x| x == "const") {
                m.kind = Kind::Const;
            } else if m.mods.iter().any(|x| x == "event") {
                m.kind = Kind::Event;
            }
            c.members.push(m);
        }
        self.eat("}")?;
        Ok(c)
    }
}

fn parse(text: &str) -> Result<CsFile, String> {
    P { t: tokens(text)?, i: 0 }.file()
}

/// `… switch (tag) { cases } …`: what comes before, the cases by label, and what comes after.
struct Switch {
    before: String,
    cases: BTreeMap<String, String>,
    after: String,
}

fn switch(body: &[String]) -> Result<Switch, String> {
    let at = body.iter().position(|t| t == "switch").ok_or("no switch")?;
    let mut p = P { t: body.to_vec(), i: at + 1 };
    for t in ["(", "tag", ")", "{"] {
        p.eat(t)?;
    }
    let inner = p.until("{", "}")?;
    let after = body[p.i..].join(" ");
    let mut cases = BTreeMap::new();
    let mut q = P { t: inner, i: 0 };
    let mut shared: Vec<String> = vec![];
    while q.peek() != "<end>" {
        let label = match q.next().as_str() {
            "default" => "default".to_string(),
            "case" => q.next(),
            x => return Err(format!("unexpected `{}` in a switch", x)),
        };
        q.eat(":")?;
        let mut stmt = vec![];
        while !["case", "default", "<end>"].contains(&q.peek()) || q.t.get(q.i + 1).map_or(false, |x| x == "(") {
            let t = q.next();
            stmt.push(t);
        }
        // a block of its own
        while stmt.first().map_or(false, |x| x == "{") {
            let mut b = P { t: stmt.clone(), i: 1 };
            let inner = b.until("{", "}")?;
            stmt = inner.into_iter().chain(b.t[b.i..].iter().cloned()).collect();
        }
        shared.push(label);
        if stmt.is_empty() {
            continue; // this case goes on as the next one
        }
        for label in shared.drain(..) {
            if cases.insert(label.clone(), stmt.join(" ")).is_some() {
                return Err(format!("two cases for {}", label));
            }
        }
    }
    if !shared.is_empty() {
        return Err(format!("nothing follows the case {}", shared.join(", ")));
    }
    Ok(Switch { before: body[..at].join(" "), cases, after })
}

fn cs_type(t: &Gty) -> String {
    match t {
        Gty::Prim(n, _) => n.cs().to_string(),
        Gty::Param(p) => p.clone(),
        Gty::Ref(n, args) if n.rust == "Box" => cs_type(&args[0]),
        Gty::Ref(n, args) => {
            let args: Vec<String> = args.iter().skip((n.rust == "Map") as usize).map(cs_type).collect();
            if args.is_empty() {
                n.cs().to_string()
            } else {
                format!("{}<{}>", n.cs(), args.join(", "))
            }
        }
    }
}

fn unbox(t: &Gty) -> &Gty {
    match t {
        Gty::Ref(n, args) if n.rust == "Box" => unbox(&args[0]),
        t => t,
    }
}

fn generic(name: &str, params: &[String]) -> String {
    if params.is_empty() {
        name.to_string()
    } else {
        format!("{}<{}>", name, params.join(", "))
    }
}

struct Want<'a> {
    c: &'a CsClass,
    /// indices of members accounted for
    used: BTreeSet<usize>,
}

impl Want<'_> {
    fn find(&mut self, what: &str, f: impl Fn(&Member) -> bool) -> Result<&Member, String> {
        let hits: Vec<usize> = (0..self.c.members.len()).filter(|i| f(&self.c.members[*i])).collect();
        ensure!(!hits.is_empty(), "class {} has no {}", self.c.name, what);
        ensure!(hits.len() == 1, "class {} has {} times {}", self.c.name, hits.len(), what);
        self.used.insert(hits[0]);
        Ok(&self.c.members[hits[0]])
    }

    /// A member written exactly so, up to layout.
    fn member(&mut self, src: &str) -> Out {
        let file = format!("namespace N {{ class C {{ {} }} }}", src);
        let want = parse(&file).expect("harness: member template").classes.remove(0).members.remove(0);
        let cname = self.c.name.clone();
        let got = self.find(&format!("{:?} `{}`", want.kind, want.name), |m| {
            m.kind == want.kind && m.name == want.name && (want.kind != Kind::Ctor || (m.params.contains(&":".to_string()) == want.params.contains(&":".to_string())))
        })?;
        for (what, a, b) in [
            ("modifiers", &got.mods, &want.mods),
            ("type", &got.ty, &want.ty),
            ("parameters", &got.params, &want.params),
            ("body", &got.body, &want.body),
        ] {
            if a != b {
                return Err(format!("{} of `{}` in class {}: `{}`, expected `{}`", what, want.name, cname, a.join(" "), b.join(" ")));
            }
        }
        Ok(())
    }

    /// A method `public … name(params) { before switch (tag) { cases } after }`.
    fn dispatch(&mut self, head: &str, kind: Kind, before: &str, cases: &[(String, String)], after: &str) -> Out {
        let file = format!("namespace N {{ class C {{ {} {{ }} }} }}", head);
        let want = parse(&file).expect("harness: method template").classes.remove(0).members.remove(0);
        let name = self.c.name.clone();
        let got = self.find(&format!("{:?} `{}`", kind, want.name), |m| {
            m.kind == kind && m.name == want.name && !m.params.contains(&":".to_string())
        })?;
        ensure!(got.mods == want.mods && got.ty == want.ty && got.params == want.params,
            "signature of `{}` in class {}: {} {} ({})", want.name, name, got.mods.join(" "), got.ty.concat(), got.params.join(" "));
        let sw = switch(&got.body).map_err(|e| format!("`{}` of class {}: {}", want.name, name, e))?;
        ensure!(sw.before == toks(before).join(" "), "`{}` of class {} begins `{}`, expected `{}`", want.name, name, sw.before, before);
        ensure!(sw.after == toks(after).join(" "), "`{}` of class {} ends `{}`", want.name, name, sw.after);
        for (label, stmt) in cases {
            match sw.cases.get(label) {
                None => return Err(format!("`{}` of class {} has no case for {}", want.name, name, label)),
                Some(got) => {
                    let want_stmt = toks(stmt).join(" ");
                    ensure!(*got == want_stmt, "`{}` of class {}, case {}: `{}`, expected `{}`", want.name, name, label, got, want_stmt)
                }
            }
        }
        for l in sw.cases.keys() {
            ensure!(cases.iter().any(|c| c.0 == *l), "`{}` of class {} has a case for {}, which is not in the schema", want.name, name, l);
        }
        Ok(())
    }

    fn rest(&self) -> Out {
        for (i, m) in self.c.members.iter().enumerate() {
            ensure!(self.used.contains(&i), "class {} declares {:?} `{}`, which is not in the schema", self.c.name, m.kind, m.name);
        }
        Ok(())
    }
}

const REFUSALS: &[&str] = &[
    "public void ReplayListPush(IReader reader) { throw new NotSupportedException(); }",
    "public void ReplayListPop() { throw new NotSupportedException(); }",
    "public void ReplayMapRemove(UInt32 key) { throw new NotSupportedException(); }",
];

/// The `Deserialize` of a class; its local variable may have any name that is free.
fn deserialize(c: &CsClass, access: &str, type_name: &str) -> Result<String, String> {
    let m = c.members.iter().find(|m| m.name == "Deserialize").ok_or_else(|| format!("class {} has no Deserialize", c.name))?;
    let local = m.body.get(1).map(|x| x.as_str()).unwrap_or_default();
    let free = !KEYWORDS.contains(&local) && !["reader", "path"].contains(&local);
    ensure!(free, "`Deserialize` of class {} calls a variable `{}`", c.name, local);
    Ok(format!(
        "{} static {1} Deserialize(IReader reader, Path path = null) {{ var {2} = new {1}(path); {2}.Replace(reader, shouldNotify: false); return {2}; }}",
        access, type_name, local
    ))
}

const KEYWORDS: &[&str] = &[
    "abstract", "as", "base", "bool", "break", "byte", "case", "catch", "char", "checked", "class", "const", "continue",
    "decimal", "default", "delegate", "do", "double", "else", "enum", "event", "explicit", "extern", "false", "finally",
    "fixed", "float", "for", "foreach", "goto", "if", "implicit", "in", "int", "interface", "internal", "is", "lock",
    "long", "namespace", "new", "null", "object", "operator", "out", "override", "params", "private", "protected",
    "public", "readonly", "ref", "return", "sbyte", "sealed", "short", "sizeof", "stackalloc", "static", "string",
    "struct", "switch", "this", "throw", "true", "try", "typeof", "uint", "ulong", "unchecked", "unsafe", "ushort",
    "using", "virtual", "void", "volatile", "while",
];

fn check_class(got: &CsClass, c: &Class, variant: bool) -> Out {
    let name = c.name.cs();
    let access = if variant { "internal" } else { "public" };
    let type_name = generic(name, &c.params);
    ensure!(got.name == name, "class {} where {} was expected", got.name, name);
    ensure!(got.params == c.params, "class {} has parameters {:?}, expected {:?}", name, got.params, c.params);
    ensure!(got.mods == ["public", "sealed", "partial"] && got.bases == ["IState"], "class {} is declared {:?} : {:?}", name, got.mods, got.bases);
    ensure!(got.nested.is_empty(), "class {} has nested classes", name);
    let mut w = Want { c: got, used: BTreeSet::new() };
    w.member("public Path Path { get; }")?;
    let mut init: Vec<String> = vec![];
    let (mut wires, mut nested, mut replace) = (vec![], vec![], vec![]);
    for f in &c.fields {
        let n = f.name.upper();
        let t = cs_type(&f.ty);
        let tag = f.tag.to_string();
        w.member(&format!("public {} {} {{ get; private set; }}", t, n))?;
        w.member(&format!("public static event EventHandler<FieldUpdateEventArgs<{}, {}>> On{}Update;", t, type_name, n))?;
        w.member(&format!("public static void Clear{0}UpdateHandlers() {{ On{0}Update = null; }}", n))?;
        let (wire, read) = match unbox(&f.ty) {
            Gty::Prim(p, varint) => {
                (format!("WireType.{}", if *varint { "Varint" } else { "Sized" }), format!("reader.Read{}()", p.cs()))
            }
            Gty::Ref(..) => {
                init.push(format!("this.{} = new {}(this.Path.GetNested({}));", n, t, tag));
                nested.push((tag.clone(), format!("return this.{};", n)));
                ("WireType.Sized".to_string(), format!("{}.Deserialize(reader, this.Path.GetNested({}))", t, tag))
            }
            Gty::Param(p) => {
                init.push(format!("this.{} = StateFactory.Construct<{}>(this.Path.GetNested({}));", n, p, tag));
                nested.push((tag.clone(), format!("return this.{} as IState;", n)));
                (
                    format!("StateFactory.GetWireType(typeof({}))", p),
                    format!("StateFactory.Deserialize<{}>(reader, this.Path, {})", p, tag),
                )
            }
        };
        wires.push((tag.clone(), format!("return {};", wire)));
        replace.push((
            tag.clone(),
            format!("this.{0} = this.MaybeNotify({1}, {2}, this.{0}, On{0}Update, shouldNotify); break;", n, tag, read),
        ));
    }
    // the constructor: checks of parameters, the path, then the fields in any order
    let ctor = w.find("constructor", |m| m.kind == Kind::Ctor)?.clone();
    ensure!(ctor.mods == [access] && ctor.name == name && ctor.params == toks("Path path = null"), "constructor of {} is declared {:?} {}({})", name, ctor.mods, ctor.name, ctor.params.join(" "));
    let mut got_stmts: Vec<String> = statements(&ctor.body);
    let path = toks("this.Path = path ?? Path.Root;").join(" ");
    let mut want: Vec<String> = c.params.iter().map(|p| format!("StateFactory.ValidateType(typeof({}));", p)).chain(init.iter().cloned()).map(|s| toks(&s).join(" ")).collect();
    let at = got_stmts.iter().position(|s| *s == path).ok_or_else(|| format!("the constructor of {} does not set the path", name))?;
    ensure!(got_stmts[..at].iter().all(|s| !s.contains("GetNested")), "the constructor of {} uses the path before setting it", name);
    got_stmts.remove(at);
    got_stmts.sort();
    want.sort();
    ensure!(got_stmts == want, "the constructor of {} does {:?}, expected {:?}", name, got_stmts, want);

    // clearing all events, in any order
    let clear = w.find("method `ClearUpdateHandlers`", |m| m.kind == Kind::Method && m.name == "ClearUpdateHandlers")?;
    ensure!(clear.mods == ["public", "static"], "ClearUpdateHandlers of {} is {:?}", name, clear.mods);
    let mut got_stmts = statements(&clear.body);
    let mut want: Vec<String> = c.fields.iter().map(|f| format!("On{}Update = null ;", f.name.upper())).collect();
    got_stmts.sort();
    want.sort();
    ensure!(got_stmts == want, "ClearUpdateHandlers of {} does {:?}, expected {:?}", name, got_stmts, want);

    w.member(&deserialize(got, access, &type_name)?)?;
    wires.push(("default".into(), "return null;".into()));
    nested.push(("default".into(), "return null;".into()));
    replace.push(("default".into(), "reader.SkipField(wireType); break;".into()));
    w.dispatch("public WireType? GetWireType(UInt32 tag)", Kind::Method, "", &wires, "")?;
    w.dispatch("public IState GetNested(UInt32 tag)", Kind::Method, "", &nested, "")?;
    w.dispatch("public void ReplaceAt(UInt32 tag, WireType wireType, IReader reader, bool shouldNotify)", Kind::Method, "", &replace, "")?;
    for r in REFUSALS {
        w.member(r)?;
    }
    w.member(&format!(
        "private TValue MaybeNotify<TValue>(UInt32 tag, TValue newValue, TValue oldValue, EventHandler<FieldUpdateEventArgs<TValue, {0}>> handler, bool shouldNotify) {{
            if (shouldNotify) {{ var args = new FieldUpdateEventArgs<TValue, {0}>(tag, newValue, oldValue, this); handler?.Invoke(this, args); }}
            return newValue;
        }}",
        type_name
    ))?;
    w.rest()
}

/// Splits a flat body into statements.
fn statements(body: &[String]) -> Vec<String> {
    let mut out = vec![];
    let mut cur: Vec<&str> = vec![];
    let mut depth = 0;
    for t in body {
        cur.push(t);
        match t.as_str() {
            "{" | "(" => depth += 1,
            "}" | ")" => depth -= 1,
            _ => (),
        }
        if depth == 0 && (t == ";" || t == "}") {
            out.push(cur.join(" "));
            cur.clear();
        }
    }
    if !cur.is_empty() {
        out.push(cur.join(" "));
    }
    out
}

fn check_enum(cx: &mut Cx, got: &CsClass, name: &Name, params: &[String], vars: &[(u32, Class)]) -> Out {
    let n = name.cs();
    let type_name = generic(n, params);
    ensure!(got.name == n, "class {} where {} was expected", got.name, n);
    ensure!(got.params == params, "class {} has parameters {:?}, expected {:?}", n, got.params, params);
    ensure!(got.mods == ["public", "sealed", "partial"] && got.bases == ["IEnumState"], "class {} is declared {:?} : {:?}", n, got.mods, got.bases);
    let default = vars.iter().find(|v| v.0 == 0).expect("harness: no default variant");
    let mut w = Want { c: got, used: BTreeSet::new() };
    w.member("public Path Path { get; }")?;
    w.member("public UInt32 Tag { get; private set; }")?;
    w.member("public IState Variant { get; private set; }")?;
    w.member(&format!("public {}(Path path = null) : this(path, 0) {{ }}", n))?;
    let (mut make, mut wires, mut replace) = (vec![], vec![], vec![]);
    for (tag, v) in vars {
        let (vn, up, t) = (v.name.cs(), v.name.upper(), tag.to_string());
        w.member(&format!("public const UInt32 {}Tag = {};", up, tag))?;
        w.member(&format!("public {0} {0}Variant {{ get {{ return this.Variant as {0}; }} }}", vn))?;
        w.member(&format!("public static {0} New{1}(Path path = null) {{ return new {0}(path, {2}); }}", type_name, up, tag))?;
        make.push((t.clone(), format!("this.Variant = new {}(this.Path.GetNested({})); break;", vn, tag)));
        wires.push((t.clone(), "return WireType.Sized;".to_string()));
        replace.push((t.clone(), format!("this.UpdateAndNotify({0}, {1}.Deserialize(reader, this.Path.GetNested({0})), shouldNotify); break;", tag, vn)));
    }
    make.push(("default".into(), format!("this.Variant = new {}(this.Path.GetNested(0)); break;", default.1.name.cs())));
    wires.push(("default".into(), "return null;".into()));
    replace.push(("default".into(), "reader.SkipToEnd(); break;".into()));
    let before = params.iter().map(|p| format!("StateFactory.ValidateType(typeof({}));", p)).collect::<String>() + "this.Path = path ?? Path.Root; this.Tag = tag;";
    w.dispatch(&format!("public {}(Path path, UInt32 tag)", n), Kind::Ctor, &before, &make, "")?;
    w.member(&format!("public static event EventHandler<VariantUpdateEventArgs<{}>> OnUpdate;", type_name))?;
    w.member("public static void ClearUpdateHandlers() { OnUpdate = null; }")?;
    w.member(&deserialize(got, "public", &type_name)?)?;
    w.dispatch("public WireType? GetWireType(UInt32 tag)", Kind::Method, "", &wires, "")?;
    w.member("public IState GetNested(UInt32 tag) { return tag == this.Tag ? this.Variant : null; }")?;
    w.dispatch("public void ReplaceAt(UInt32 tag, WireType wireType, IReader reader, bool shouldNotify)", Kind::Method, "", &replace, "")?;
    for r in REFUSALS {
        w.member(r)?;
    }
    w.member(&format!(
        "private void UpdateAndNotify(UInt32 newTag, IState newVariant, bool shouldNotify) {{
            if (shouldNotify) {{ var args = new VariantUpdateEventArgs<{0}>(newTag, newVariant, this.Tag, this.Variant, this); {0}.OnUpdate?.Invoke(this, args); }}
            this.Tag = newTag;
            this.Variant = newVariant;
        }}",
        type_name
    ))?;
    w.rest()?;
    ensure!(got.nested.len() == vars.len(), "class {} has {} nested classes for {} variants", n, got.nested.len(), vars.len());
    for (_, v) in vars {
        let c = got.nested.iter().find(|c| c.name == v.name.cs()).ok_or_else(|| format!("class {} has no class for variant {}", n, v.name.cs()))?;
        check_class(c, v, true)?;
    }
    Ok(())
}

const USED: &[&str] = &["System", "Steit.Builtins", "Steit.Codec", "Steit.Collections", "Steit.State", "Steit.State.Event"];

fn check_text(cx: &mut Cx, text: &str, m: &Msg, namespace: &str, using: &[String]) -> Out {
    let f = parse(text)?;
    ensure!(f.namespace == namespace, "the namespace is {}, expected {}", f.namespace, namespace);
    let mut got = f.using.clone();
    let mut want: Vec<String> = USED.iter().map(|x| x.to_string()).chain(using.iter().cloned()).collect();
    got.sort();
    want.sort();
    ensure!(got == want, "used namespaces are {:?}, expected {:?}", got, want);
    ensure!(f.classes.len() == 1, "the file declares {} classes", f.classes.len());
    match m {
        Msg::Struct(c) => check_class(&f.classes[0], c, false),
        Msg::Enum { name, params, vars, .. } => check_enum(cx, &f.classes[0], name, params, vars),
    }
}

fn csharp_setting(s: &mut Src) -> (String, Vec<String>) {
    let ns = s.pick(&["App", "My.Game.State", "A.B"]).to_string();
    let using = match s.below(3) {
        0 => vec![],
        1 => vec!["Zoo.Extra".to_string()],
        _ => vec!["Aaa".to_string(), "Steit.More".to_string()],
    };
    (ns, using)
}

fn setting(ns: &str, using: &[String]) -> CSharpSetting {
    let s = CSharpSetting::new(ns);
    if using.is_empty() {
        s
    } else {
        s.using_namespaces(using.iter())
    }
}

fn kinds(m: &Msg) -> usize {
    let kind = |t: &Gty| match unbox(t) {
        Gty::Prim(_, true) => 0,
        Gty::Prim(..) => 1,
        Gty::Ref(_, a) if a.is_empty() => 2,
        Gty::Ref(..) => 3,
        Gty::Param(_) => 4,
    };
    let cs: Vec<&Class> = match m {
        Msg::Struct(c) => vec![c],
        Msg::Enum { vars, .. } => vars.iter().map(|v| &v.1).collect(),
    };
    cs.iter().flat_map(|c| c.fields.iter().map(|f| kind(&f.ty))).collect::<BTreeSet<_>>().len()
}

// ---------------------------------------------------------------- C26

fn c26_one(cx: &mut Cx, meta: &MessageMeta, m: &Msg) -> Out {
    let (ns, using) = csharp_setting(&mut cx.s);
    let text = text(meta, &setting(&ns, &using));
    cx.note(|| format!("schema {:?}", m));
    cx.nontrivial = kinds(m) >= 2;
    if let Msg::Enum { .. } = m {
        cx.label("enum");
    }
    let r = check_text(cx, &text, m, &ns, &using);
    if let Err(e) = &r {
        cx.note(|| format!("{} in\n{}", e, text));
    }
    r
}

fn c26_types(cx: &mut Cx) -> Out {
    let msgs = messages(cx.env);
    let all: Vec<&Meta> = cx.env.metas.iter().filter(|m| m.link.msg.is_some()).collect();
    let m = *cx.s.pick(&all);
    let Ty::Msg(id) = unboxed(&(m.ty)()) else {
        return Err(format!("{} is not a message, yet its metadata says so", m.src));
    };
    cx.note(|| format!("type {}", m.src));
    let want = msg(def(id), &msgs);
    if collides(&want) {
        cx.label("names collide");
        return Ok(());
    }
    c26_one(cx, m.link.msg.as_ref().unwrap(), &want)
}

fn c26_structs(cx: &mut Cx) -> Out {
    let m = random_struct(&mut cx.s, &mut BTreeSet::new());
    if collides(&m) {
        cx.label("names collide");
        return Ok(());
    }
    c26_one(cx, &make_msg(&m), &m)
}

fn c26_enums(cx: &mut Cx) -> Out {
    let m = random_enum(&mut cx.s, &mut BTreeSet::new());
    if collides(&m) {
        cx.label("names collide");
        return Ok(());
    }
    c26_one(cx, &make_msg(&m), &m)
}

// ---------------------------------------------------------------- C25

pub struct Dir(pub PathBuf);

impl Dir {
    pub fn new() -> Dir {
        thread_local!(static NEXT: RefCell<u64> = const { RefCell::new(0) });
        let n = NEXT.with(|n| {
            *n.borrow_mut() += 1;
            *n.borrow()
        });
        let d = std::env::temp_dir().join(format!("steit-verif-{}-{:?}-{}", std::process::id(), std::thread::current().id(), n));
        let _ = fs::remove_dir_all(&d);
        fs::create_dir_all(&d).expect("harness: scratch directory");
        Dir(d)
    }
    pub fn files(&self) -> BTreeMap<String, String> {
        fs::read_dir(&self.0)
            .expect("harness: scratch directory")
            .map(|e| {
                let e = e.unwrap();
                (e.file_name().to_string_lossy().to_string(), fs::read_to_string(e.path()).unwrap_or_default())
            })
            .collect()
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

/// Choices for a run of the generator.
struct How {
    rust: bool,
    builtins: bool,
    skip: Vec<String>,
    ns: String,
    using: Vec<String>,
}

impl How {
    fn draw(s: &mut Src, names: &[Name]) -> How {
        let rust = s.bool();
        let builtins = s.bool();
        let mut skip = vec![];
        for n in names {
            if s.chance(1, 5) {
                // under either naming, which may not be the one in use
                skip.push(if s.chance(3, 4) == rust { n.rust.clone() } else { n.cs().to_string() });
            }
        }
        if s.chance(1, 6) {
            skip.push("NoSuchMessage".into());
        }
        let (ns, using) = csharp_setting(s);
        How { rust, builtins, skip, ns, using }
    }
    fn setting(&self, s: &mut Src, dir: &PathBuf) -> Setting<CSharpSetting> {
        let mut x = Setting::new(dir, setting(&self.ns, &self.using));
        // the last of the calls decides
        if s.chance(1, 4) {
            x = if s.bool() { x.get_name_rust() } else { x.get_name_csharp() };
            x = if self.rust { x.get_name_rust() } else { x.get_name_csharp() };
        } else if self.rust {
            x = x.get_name_rust();
        } else if s.bool() {
            x = x.get_name_csharp();
        }
        if self.builtins || s.bool() {
            x = x.skip_builtins(!self.builtins);
        }
        if !self.skip.is_empty() || s.bool() {
            x = x.skip_names(self.skip.iter());
        }
        x
    }
    fn name(&self, n: &Name) -> String {
        if self.rust {
            n.rust.clone()
        } else {
            n.cs().to_string()
        }
    }
}

type Reach = Vec<(Name, bool, &'static MessageMeta)>;

/// Runs the generator and compares names and files; returns the files.
fn c25_run(cx: &mut Cx, how: &How, reach: &Reach, run: &dyn Fn(&Setting<CSharpSetting>) -> std::io::Result<Vec<String>>) -> Result<BTreeMap<String, String>, String> {
    let mut want: BTreeMap<String, Vec<&'static MessageMeta>> = BTreeMap::new();
    let mut names: BTreeMap<String, bool> = BTreeMap::new();
    for (n, builtin, m) in reach {
        let name = how.name(n);
        // messages of one name may differ in what they are; such names are left out of the comparison
        let same = names.entry(name.clone()).or_insert(*builtin);
        if *same != *builtin {
            cx.label("ambiguous name");
            return Ok(BTreeMap::new());
        }
        if (*builtin && !how.builtins) || how.skip.contains(&name) {
            continue;
        }
        want.entry(name).or_default().push(m);
    }
    let dir = Dir::new();
    let mut before = BTreeMap::new();
    if cx.s.bool() {
        // older files, longer than what will be written
        if let Some(n) = want.keys().next() {
            let f = format!("{}.cs", n);
            fs::write(dir.0.join(&f), "old ".repeat(20_000)).unwrap();
        }
        fs::write(dir.0.join("Mine.txt"), "keep me").unwrap();
        before.insert("Mine.txt".to_string(), "keep me".to_string());
    }
    let set = how.setting(&mut cx.s, &dir.0);
    let mut got = run(&set).map_err(|e| format!("generation fails: {}", e))?;
    got.sort();
    let wanted: Vec<String> = want.keys().cloned().collect();
    cx.note(|| format!("rust names {}, builtins {}, skipping {:?}: expecting {:?}", how.rust, how.builtins, how.skip, wanted));
    ensure!(got == wanted, "names returned are {:?}, expected {:?}", got, wanted);
    let mut files = dir.files();
    for (n, t) in &before {
        ensure!(files.remove(n).as_ref() == Some(t), "{} was touched", n);
    }
    let got: Vec<&String> = files.keys().collect();
    let wanted: Vec<String> = wanted.iter().map(|n| format!("{}.cs", n)).collect();
    ensure!(got.iter().map(|x| x.as_str()).eq(wanted.iter().map(|x| x.as_str())), "files written are {:?}, expected {:?}", got, wanted);
    for (n, ms) in &want {
        let t = &files[&format!("{}.cs", n)];
        let set = setting(&how.ns, &how.using);
        ensure!(
            ms.iter().any(|m| text(m, &set) == *t),
            "{}.cs is not the class of message {}: {}…",
            n,
            n,
            t.chars().take(300).collect::<String>()
        );
    }
    // and once more elsewhere: nothing may depend on the run
    let again = Dir::new();
    let set = how.setting(&mut cx.s, &again.0);
    let mut names = run(&set).map_err(|e| format!("generation fails the second time: {}", e))?;
    names.sort();
    ensure!(names.iter().eq(want.keys()), "names returned the second time are {:?}", names);
    let second = again.files();
    for (n, t) in &files {
        if want[n.strip_suffix(".cs").unwrap()].len() == 1 {
            ensure!(second.get(n) == Some(t), "{} differs when generated again", n);
        }
    }
    Ok(files)
}

fn unboxed(t: &Ty) -> Ty {
    match t {
        Ty::Boxed(t) => unboxed(t),
        t => t.clone(),
    }
}

/// The messages reachable from a type, with the metadata found by walking the zoo, not links.
pub fn reachable(env: &Env, ty: &Ty, msgs: &HashMap<&'static str, &'static MsgDef>) -> Vec<&'static MsgDef> {
    let _ = (env, msgs);
    let mut out: Vec<&'static MsgDef> = vec![];
    let mut seen = vec![];
    walk_ty(ty, &mut seen, &mut |t| {
        if let Ty::Msg(id) = t {
            let d = def(*id);
            if !out.iter().any(|x| x.name == d.name) {
                out.push(d);
            }
        }
    });
    out
}

fn c25_types(cx: &mut Cx) -> Out {
    let msgs = messages(cx.env);
    let i = cx.s.idx(cx.env.metas.len());
    let root = &cx.env.metas[i];
    cx.note(|| format!("root {}", root.src));
    let reach: Reach = reachable(cx.env, &(root.ty)(), &msgs)
        .into_iter()
        .map(|d| {
            let m = msg(d, &msgs);
            (m.name().clone(), m.builtin(), leak(make_msg(&m)) as &'static MessageMeta)
        })
        .collect();
    let names: Vec<Name> = reach.iter().map(|r| r.0.clone()).collect();
    let how = How::draw(&mut cx.s, &names);
    cx.nontrivial = reach.len() >= 3;
    let files = c25_run(cx, &how, &reach, &root.generate)?;
    if cx.s.bool() {
        // the same messages reached from another root
        let j = cx.s.idx(cx.env.metas.len());
        let other = &cx.env.metas[j];
        let dir = Dir::new();
        let set = how.setting(&mut cx.s, &dir.0);
        (other.generate)(&set).map_err(|e| format!("generation from {} fails: {}", other.src, e))?;
        let theirs = dir.files();
        for (n, t) in &files {
            if let Some(x) = theirs.get(n) {
                cx.label("shared by two roots");
                ensure!(x == t, "{} generated from {} differs from that generated from {}", n, other.src, root.src);
            }
        }
    }
    Ok(())
}

const MAX: usize = 14;

thread_local! {
    static GRAPH: RefCell<Vec<&'static [&'static MetaLink]>> = const { RefCell::new(Vec::new()) };
}

fn links<const I: usize>() -> &'static [&'static MetaLink] {
    GRAPH.with(|g| g.borrow()[I])
}

static LINKS: [fn() -> &'static [&'static MetaLink]; MAX] = [
    links::<0>, links::<1>, links::<2>, links::<3>, links::<4>, links::<5>, links::<6>,
    links::<7>, links::<8>, links::<9>, links::<10>, links::<11>, links::<12>, links::<13>,
];

fn root_links() -> &'static [&'static MetaLink] {
    GRAPH.with(|g| *g.borrow().last().unwrap())
}

struct GraphRoot;

impl HasMeta for GraphRoot {
    const NAME: &'static NameMeta = &NameMeta { rust: "GraphRoot", csharp: None };
    const TYPE: &'static TypeMeta = &TypeMeta::Ref(Self::NAME, &[]);
    const LINK: &'static MetaLink = &MetaLink { r#type: Self::TYPE, msg: None, links: root_links };
}

fn c25_graphs(cx: &mut Cx) -> Out {
    let n = cx.s.range(1, MAX);
    let mut used = BTreeSet::new();
    let mut nodes: Vec<(Option<Msg>, &'static MetaLink)> = vec![];
    let mut messages: Vec<Msg> = vec![];
    for i in 0..n {
        // a message of its own, another instance of a generic message, or a container
        let m = match cx.s.below(6) {
            0 => None,
            1 if !messages.is_empty() => Some(cx.s.pick(&messages).clone()),
            2 | 3 => Some(random_enum(&mut cx.s, &mut used)),
            _ => Some(random_struct(&mut cx.s, &mut used)),
        };
        if let Some(m) = &m {
            messages.push(m.clone());
        }
        let name = m.as_ref().map(|m| m.name().clone()).unwrap_or_else(|| Name::new("List", Some("StateList")));
        // the argument tells instances apart
        let arg = Gty::Ref(Name::new(&format!("Arg{}", i), None), vec![]);
        let link = MetaLink { r#type: make_type(&Gty::Ref(name, vec![arg])), msg: m.as_ref().map(make_msg), links: LINKS[i] };
        nodes.push((m, leak(link)));
    }
    let mut edges: Vec<Vec<usize>> = vec![];
    for i in 0..n {
        let k = cx.s.below(4) as usize;
        let mut to: Vec<usize> = (0..k).map(|_| cx.s.idx(n)).collect();
        if i + 1 < n && cx.s.chance(2, 3) {
            to.push(i + 1);
        }
        edges.push(to);
    }
    let starts: Vec<usize> = (0..cx.s.range(1, 3)).map(|_| cx.s.idx(n.min(4))).collect();
    cx.note(|| format!("roots {:?}, links {:?}, messages {:?}", starts, edges, nodes.iter().map(|n| n.0.as_ref().map(|m| m.name().clone())).collect::<Vec<_>>()));
    let slices: Vec<&'static [&'static MetaLink]> = edges
        .iter()
        .chain(std::iter::once(&starts))
        .map(|to| &*Box::leak(to.iter().map(|j| nodes[*j].1).collect::<Vec<_>>().into_boxed_slice()))
        .collect();
    // nodes beyond `n` are never asked for; the root's links come last
    GRAPH.with(|g| *g.borrow_mut() = slices);
    let mut seen = BTreeSet::new();
    let mut todo = starts.clone();
    let mut cyclic = false;
    while let Some(i) = todo.pop() {
        if !seen.insert(i) {
            cyclic = true;
            continue;
        }
        todo.extend(&edges[i]);
    }
    let reach: Reach = seen
        .iter()
        .filter_map(|i| nodes[*i].0.as_ref().map(|m| (m.name().clone(), m.builtin(), nodes[*i].1.msg.as_ref().unwrap())))
        .collect();
    let names: Vec<Name> = reach.iter().map(|r| r.0.clone()).collect();
    let how = How::draw(&mut cx.s, &names);
    cx.nontrivial = reach.len() >= 3 && (cyclic || !how.skip.is_empty());
    cx.label_if(cyclic, "cycle or sharing");
    c25_run(cx, &how, &reach, &|set| CSharpGenerator.generate::<GraphRoot>(set)).map(|_| ())
}

// ---------------------------------------------------------------- C27

/// What the parameters of a definition stand for in this instance.
fn bind_params(src: &str, ty: &Ty, params: &[&'static str], out: &mut BTreeMap<&'static str, Ty>) {
    let src = src.trim();
    if let Some(p) = params.iter().find(|p| **p == src) {
        out.insert(p, ty.clone());
        return;
    }
    if let Some(inner) = src.strip_prefix('[') {
        if let Ty::Arr(_, t) = ty {
            bind_params(inner.strip_suffix(']').unwrap().rsplit_once(';').unwrap().0, t, params, out);
        }
        return;
    }
    if let Some(inner) = src.strip_prefix('(') {
        let args = split(inner.strip_suffix(')').unwrap());
        match ty {
            Ty::Tup(ts) => args.iter().zip(ts).for_each(|(a, t)| bind_params(a, t, params, out)),
            _ if args.len() == 1 => bind_params(&args[0], ty, params, out),
            _ => (),
        }
        return;
    }
    let Some((_, rest)) = src.split_once('<') else { return };
    let args = split(rest.strip_suffix('>').unwrap());
    match ty {
        Ty::Opt(t) | Ty::Vec(t) | Ty::Boxed(t) | Ty::List(t) => bind_params(&args[0], t, params, out),
        Ty::Map(_, t) => bind_params(&args[1], t, params, out),
        Ty::HMap(k, t) => {
            bind_params(&args[0], k, params, out);
            bind_params(&args[1], t, params, out);
        }
        Ty::Msg(id) => {
            let inner = instance(def(*id));
            args.iter().zip(inner).for_each(|(a, t)| bind_params(a, &t, params, out));
        }
        _ => (),
    }
}

fn instance(d: &MsgDef) -> Vec<Ty> {
    let mut out = BTreeMap::new();
    for v in &d.vars {
        for f in &v.fields {
            bind_params(f.src, &f.ty, &d.params, &mut out);
        }
    }
    d.params.iter().map(|p| out.get(p).cloned().unwrap_or_else(|| panic!("harness: parameter {} of {}", p, d.name))).collect()
}

/// The type metadata of a type, as its own `TYPE` states it.
fn type_of(t: &Ty) -> Gty {
    match t {
        Ty::Bool => prim("bool"),
        Ty::U(b) => prim(&format!("u{}", b)),
        Ty::I(b) => prim(&format!("i{}", b)),
        Ty::Str => prim("String"),
        Ty::Bytes => head("Bytes", vec![]),
        Ty::Opt(t) => head("Option", vec![type_of(t)]),
        Ty::Vec(t) | Ty::Arr(_, t) => head("Vec", vec![type_of(t)]),
        Ty::Boxed(t) => type_of(t),
        Ty::List(t) => head("List", vec![type_of(t)]),
        Ty::Map(_, t) => head("Map", vec![type_of(t)]),
        Ty::Msg(id) => {
            let d = def(*id);
            Gty::Ref(Name::new(d.name, d.csharp), instance(d).iter().map(type_of).collect())
        }
        Ty::Tup(_) | Ty::HMap(..) => panic!("harness: no metadata for {:?}", t),
    }
}

fn name_of(t: &Ty) -> Name {
    match t {
        Ty::Boxed(_) => Name::new("Box", Some("Box")),
        t => match type_of(t) {
            Gty::Prim(n, _) | Gty::Ref(n, _) => n,
            Gty::Param(_) => unreachable!(),
        },
    }
}

fn targets(t: &Ty) -> Vec<Ty> {
    match t {
        Ty::Opt(t) | Ty::Vec(t) | Ty::Arr(_, t) | Ty::List(t) | Ty::Map(_, t) => vec![(**t).clone()],
        Ty::Boxed(t) => targets(t),
        Ty::Msg(id) => def(*id).vars.iter().flat_map(|v| v.fields.iter().map(|f| f.ty.clone())).collect(),
        _ => vec![],
    }
}

fn c27_link(cx: &mut Cx, link: &'static MetaLink, ty: &Ty, at: &str, msgs: &HashMap<&'static str, &'static MsgDef>) -> Out {
    let want = type_of(ty);
    let got = read_type(link.r#type);
    ensure!(got == want, "{}: the type is {:?}, expected {:?}", at, got, want);
    match (unboxed(ty), &link.msg) {
        (Ty::Msg(id), Some(m)) => {
            let want = msg(def(id), msgs);
            let got = read_msg(m);
            ensure!(got == want, "{}: the message is {:?}, expected {:?}", at, got, want);
            ensure!(m.rust_name() == want.name().rust && m.csharp_name() == want.name().cs() && m.is_builtin() == want.builtin(), "{}: the accessors of the message disagree with it", at);
            if let MessageMeta::Enum(e) = m {
                for v in e.variants {
                    ensure!(v.default() == (v.tag == 0), "{}: default() of variant {:?}", at, v);
                }
            }
        }
        (Ty::Msg(_), None) => return Err(format!("{}: no message", at)),
        (_, Some(m)) => return Err(format!("{}: there is a message, {}", at, m.rust_name())),
        (_, None) => (),
    }
    // links: one for every field, and nothing else
    let fields = targets(ty);
    let found = (link.links)();
    let wants: Vec<Gty> = fields.iter().map(type_of).collect();
    for (w, f) in wants.iter().zip(&fields) {
        ensure!(
            found.iter().any(|l| read_type(l.r#type) == *w && l.msg.is_some() == matches!(unboxed(f), Ty::Msg(_))),
            "{}: no link to the metadata of {:?}",
            at,
            w
        );
    }
    for l in found {
        ensure!(wants.contains(&read_type(l.r#type)), "{}: a link to {:?}, which is no field", at, l.r#type);
    }
    Ok(())
}

fn c27(cx: &mut Cx) -> Out {
    let msgs = messages(cx.env);
    let i = cx.s.idx(cx.env.metas.len());
    let m = &cx.env.metas[i];
    let mut ty = (m.ty)();
    cx.note(|| format!("type {}", m.src));
    let got = read_name(m.name);
    let want = name_of(&ty);
    ensure!(got == want, "{}: the name is {:?}, expected {:?}", m.src, got, want);
    let got = read_type(m.r#type);
    let want = type_of(&ty);
    ensure!(got == want, "{}: the type is {:?}, expected {:?}", m.src, got, want);
    let varint = matches!(unboxed(&ty), Ty::Bool | Ty::U(_) | Ty::I(_));
    ensure!((m.wire_type == WireType::Varint) == varint, "{}: the wire type is {:?}", m.src, m.wire_type);
    cx.nontrivial = m.link.msg.is_some() || !(m.link.links)().is_empty();
    let mut link = m.link;
    let mut at = m.src.to_string();
    for _ in 0..cx.s.range(1, 6) {
        c27_link(cx, link, &ty, &at, &msgs)?;
        let next = targets(&ty);
        if next.is_empty() {
            break;
        }
        cx.label("through links");
        let j = cx.s.idx(next.len());
        let want = type_of(&next[j]);
        let l = (link.links)().iter().find(|l| read_type(l.r#type) == want).ok_or_else(|| format!("{}: no link to {:?}", at, want))?;
        link = l;
        ty = next[j].clone();
        at = format!("{} / {:?}", at, want);
    }
    Ok(())
}
