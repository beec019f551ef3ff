//! Schema (`Ty`), value (`Val`) and value generation.

use std::{
    collections::HashMap,
    sync::{Mutex, OnceLock},
};

use crate::{bind::Bind, src::Src};

pub const KEY_MAX: u32 = 0x1fff_ffff;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    U(u32),
    I(u32),
    Str,
    Bytes,
    Opt(Box<Ty>),
    Vec(Box<Ty>),
    Arr(usize, Box<Ty>),
    Tup(Vec<Ty>),
    HMap(Box<Ty>, Box<Ty>),
    Boxed(Box<Ty>),
    List(Box<Ty>),
    /// bits of the key type
    Map(u32, Box<Ty>),
    Msg(usize),
}

#[derive(Clone, Debug)]
pub struct FieldDef {
    pub name: &'static str,
    pub csharp: Option<&'static str>,
    pub tag: u32,
    pub ty: Ty,
    pub no_state: bool,
    pub no_eq: bool,
    pub no_hash: bool,
    /// the type as written in the definition
    pub src: &'static str,
}

#[derive(Clone, Debug)]
pub struct VarDef {
    pub name: &'static str,
    pub csharp: Option<&'static str>,
    pub tag: u32,
    pub fields: Vec<FieldDef>,
}

#[derive(Clone, Debug)]
pub struct MsgDef {
    pub name: &'static str,
    pub csharp: Option<&'static str>,
    pub is_enum: bool,
    pub is_state: bool,
    pub builtin: bool,
    pub no_meta: bool,
    /// has setters
    pub setters: bool,
    pub params: Vec<&'static str>,
    pub vars: Vec<VarDef>,
}

struct Registry {
    by_name: HashMap<&'static str, usize>,
    defs: Vec<Option<&'static MsgDef>>,
}

fn registry() -> &'static Mutex<Registry> {
    static R: OnceLock<Mutex<Registry>> = OnceLock::new();
    R.get_or_init(|| Mutex::new(Registry { by_name: HashMap::new(), defs: Vec::new() }))
}

/// Interns the message type `T`, resolving its definition on first use.
pub fn msg_ty<T: Bind>() -> Ty {
    let name = std::any::type_name::<T>();
    let id = {
        let mut r = registry().lock().unwrap();
        if let Some(&id) = r.by_name.get(name) {
            return Ty::Msg(id);
        }
        let id = r.defs.len();
        r.by_name.insert(name, id);
        r.defs.push(None);
        id
    };
    let def: &'static MsgDef = Box::leak(Box::new(T::def()));
    registry().lock().unwrap().defs[id] = Some(def);
    Ty::Msg(id)
}

pub fn def(id: usize) -> &'static MsgDef {
    thread_local!(static CACHE: std::cell::RefCell<Vec<Option<&'static MsgDef>>> = std::cell::RefCell::new(Vec::new()));
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        if let Some(Some(d)) = c.get(id) {
            return *d;
        }
        let d = registry().lock().unwrap().defs[id].expect("definition not resolved yet");
        if c.len() <= id {
            c.resize(id + 1, None);
        }
        c[id] = Some(d);
        d
    })
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Val {
    Bool(bool),
    U(u64),
    I(i64),
    Str(String),
    Bytes(Vec<u8>),
    Opt(Option<Box<Val>>),
    /// Vec, array, tuple, List
    Seq(Vec<Val>),
    /// HashMap, sorted by key
    HMap(Vec<(Val, Val)>),
    /// Map, in iteration order
    Map(Vec<(u32, Val)>),
    /// variant index (0 for structs), fields in declaration order
    Msg(usize, Vec<Val>),
}

impl Val {
    pub fn seq(&self) -> &[Val] {
        match self {
            Val::Seq(x) => x,
            _ => panic!("harness: not a sequence: {:?}", self),
        }
    }
    pub fn map(&self) -> &[(u32, Val)] {
        match self {
            Val::Map(x) => x,
            _ => panic!("harness: not a map: {:?}", self),
        }
    }
    pub fn msg(&self) -> (usize, &[Val]) {
        match self {
            Val::Msg(v, f) => (*v, f),
            _ => panic!("harness: not a message: {:?}", self),
        }
    }

    /// Map entries sorted by key at every level: the value up to map order.
    pub fn canon(&self) -> Val {
        match self {
            Val::Opt(Some(x)) => Val::Opt(Some(Box::new(x.canon()))),
            Val::Seq(x) => Val::Seq(x.iter().map(Val::canon).collect()),
            Val::HMap(x) => {
                let mut x: Vec<_> = x.iter().map(|(k, v)| (k.canon(), v.canon())).collect();
                x.sort();
                Val::HMap(x)
            }
            Val::Map(x) => {
                let mut x: Vec<_> = x.iter().map(|(k, v)| (*k, v.canon())).collect();
                x.sort();
                Val::Map(x)
            }
            Val::Msg(v, f) => Val::Msg(*v, f.iter().map(Val::canon).collect()),
            x => x.clone(),
        }
    }

    /// True if a map of either kind with two or more entries occurs.
    pub fn has_multi_map(&self) -> bool {
        match self {
            Val::Opt(Some(x)) => x.has_multi_map(),
            Val::Seq(x) => x.iter().any(Val::has_multi_map),
            Val::HMap(x) => x.len() > 1 || x.iter().any(|(k, v)| k.has_multi_map() || v.has_multi_map()),
            Val::Map(x) => x.len() > 1 || x.iter().any(|(_, v)| v.has_multi_map()),
            Val::Msg(_, f) => f.iter().any(Val::has_multi_map),
            _ => false,
        }
    }

    pub fn nodes(&self) -> usize {
        1 + match self {
            Val::Opt(Some(x)) => x.nodes(),
            Val::Seq(x) => x.iter().map(Val::nodes).sum(),
            Val::HMap(x) => x.iter().map(|(k, v)| k.nodes() + v.nodes()).sum(),
            Val::Map(x) => x.iter().map(|(_, v)| v.nodes()).sum(),
            Val::Msg(_, f) => f.iter().map(Val::nodes).sum(),
            _ => 0,
        }
    }
}

/// Replaces every field outside replication (no_state, or inside a non-state type) by its default.
pub fn mask_no_state(ty: &Ty, v: &Val) -> Val {
    match (ty, v) {
        (Ty::Boxed(t), v) => mask_no_state(t, v),
        (Ty::List(t), Val::Seq(xs)) => Val::Seq(xs.iter().map(|x| mask_no_state(t, x)).collect()),
        (Ty::Map(_, t), Val::Map(xs)) => {
            Val::Map(xs.iter().map(|(k, x)| (*k, mask_no_state(t, x))).collect())
        }
        (Ty::Msg(id), Val::Msg(vi, fs)) => {
            let d = def(*id);
            Val::Msg(
                *vi,
                d.vars[*vi]
                    .fields
                    .iter()
                    .zip(fs)
                    .map(|(fd, x)| {
                        if fd.no_state && d.is_state {
                            default_val(&fd.ty)
                        } else {
                            mask_no_state(&fd.ty, x)
                        }
                    })
                    .collect(),
            )
        }
        (_, v) => v.clone(),
    }
}

/// Replaces every field excluded from equality by its default.
pub fn mask_no_eq(ty: &Ty, v: &Val, hash: bool) -> Val {
    match (ty, v) {
        (Ty::Boxed(t), v) => mask_no_eq(t, v, hash),
        (Ty::Opt(t), Val::Opt(Some(x))) => Val::Opt(Some(Box::new(mask_no_eq(t, x, hash)))),
        (Ty::List(t), Val::Seq(xs)) | (Ty::Vec(t), Val::Seq(xs)) | (Ty::Arr(_, t), Val::Seq(xs)) => {
            Val::Seq(xs.iter().map(|x| mask_no_eq(t, x, hash)).collect())
        }
        (Ty::Tup(ts), Val::Seq(xs)) => {
            Val::Seq(ts.iter().zip(xs).map(|(t, x)| mask_no_eq(t, x, hash)).collect())
        }
        (Ty::HMap(_, t), Val::HMap(xs)) => {
            Val::HMap(xs.iter().map(|(k, x)| (k.clone(), mask_no_eq(t, x, hash))).collect())
        }
        (Ty::Map(_, t), Val::Map(xs)) => {
            Val::Map(xs.iter().map(|(k, x)| (*k, mask_no_eq(t, x, hash))).collect())
        }
        (Ty::Msg(id), Val::Msg(vi, fs)) => {
            let d = def(*id);
            Val::Msg(
                *vi,
                d.vars[*vi]
                    .fields
                    .iter()
                    .zip(fs)
                    .map(|(fd, x)| {
                        if fd.no_eq || (hash && fd.no_hash) {
                            default_val(&fd.ty)
                        } else {
                            mask_no_eq(&fd.ty, x, hash)
                        }
                    })
                    .collect(),
            )
        }
        (_, v) => v.clone(),
    }
}

pub fn default_val(ty: &Ty) -> Val {
    match ty {
        Ty::Bool => Val::Bool(false),
        Ty::U(_) => Val::U(0),
        Ty::I(_) => Val::I(0),
        Ty::Str => Val::Str(String::new()),
        Ty::Bytes => Val::Bytes(vec![]),
        Ty::Opt(_) => Val::Opt(None),
        Ty::Vec(_) | Ty::List(_) => Val::Seq(vec![]),
        Ty::Arr(n, t) => Val::Seq(vec![default_val(t); *n]),
        Ty::Tup(ts) => Val::Seq(ts.iter().map(default_val).collect()),
        Ty::HMap(..) => Val::HMap(vec![]),
        Ty::Boxed(t) => default_val(t),
        Ty::Map(..) => Val::Map(vec![]),
        Ty::Msg(id) => {
            let d = def(*id);
            let vi = d.vars.iter().position(|v| v.tag == 0).filter(|_| d.is_enum).unwrap_or(0);
            default_variant(*id, vi)
        }
    }
}

pub fn default_variant(id: usize, vi: usize) -> Val {
    Val::Msg(vi, def(id).vars[vi].fields.iter().map(|f| default_val(&f.ty)).collect())
}

/// Is the type a varint on the wire?
pub fn is_varint(ty: &Ty) -> bool {
    match ty {
        Ty::Bool | Ty::U(_) | Ty::I(_) => true,
        Ty::Boxed(t) => is_varint(t),
        _ => false,
    }
}

pub fn is_prim(ty: &Ty) -> bool {
    matches!(ty, Ty::Bool | Ty::U(_) | Ty::I(_))
}

pub fn strip(ty: &Ty) -> &Ty {
    match ty {
        Ty::Boxed(t) => strip(t),
        t => t,
    }
}

pub fn is_recursive_base(ty: &Ty) -> bool {
    matches!(ty, Ty::Msg(_))
}

pub fn gen_u(s: &mut Src, bits: u32) -> u64 {
    let mask = if bits == 64 { u64::MAX } else { (1u64 << bits) - 1 };
    (match s.weighted(&[5, 4, 6, 2, 3]) {
        0 => s.below(3),
        1 => s.below(200),
        2 => {
            let b = s.below(bits as u64 + 1);
            let base = if b >= 64 { 0 } else { 1u64 << b };
            base.wrapping_add(s.below(3)).wrapping_sub(1)
        }
        3 => mask.wrapping_sub(s.below(3)),
        _ => s.raw() >> s.below(bits as u64),
    }) & mask
}

pub fn gen_i(s: &mut Src, bits: u32) -> i64 {
    let u = match s.weighted(&[3, 2]) {
        0 => {
            // magnitude near a power of two, either sign
            let m = gen_u(s, bits) as i64;
            if s.bool() { m.wrapping_neg() } else { m }
        }
        _ => {
            let ext = [i64::MIN >> (64 - bits), i64::MAX >> (64 - bits), -1, 1, 0];
            ext[s.idx(5)].wrapping_add(s.below(3) as i64 - 1)
        }
    };
    // sign-extend from `bits`
    (u << (64 - bits)) >> (64 - bits)
}

const CHARS: &[char] = &['a', 'Z', '0', ' ', '\0', '\n', 'é', 'π', '߿', '中', '\u{ffff}', '😀', '\u{10ffff}', '\u{7f}', '\u{80}'];

/// A length around a boundary of the length prefix, or of some buffer or counter.
fn gen_long(s: &mut Src) -> u64 {
    match s.weighted(&[240, 60, 5, 2]) {
        0 => 120 + s.below(20),
        1 => 16376 + s.below(16),
        2 => *s.pick(&[255, 256, 257, 1000, 1024, 2047, 4096, 8191, 8192, 8193]),
        _ => *s.pick(&[32768, 65535, 65536, 65537, 70000, 131072]),
    }
}

pub fn gen_str(s: &mut Src) -> String {
    let n = match s.weighted(&[6, 4, 1]) {
        0 => s.below(4),
        1 => s.below(12),
        _ => gen_long(s),
    };
    let c = s.idx(CHARS.len() + 1);
    if n >= 100 {
        return std::iter::repeat(CHARS[c % CHARS.len()]).take(n as usize).collect();
    }
    (0..n).map(|_| *s.pick(CHARS)).collect()
}

pub fn gen_bytes(s: &mut Src) -> Vec<u8> {
    let n = match s.weighted(&[6, 4, 1]) {
        0 => s.below(4),
        1 => s.below(20),
        _ => gen_long(s),
    } as usize;
    if n >= 100 {
        return vec![s.below(256) as u8; n];
    }
    s.bytes(n)
}

/// Keys of the custom key type `Port`, which goes by `KEY_PORT` in place of its number of bits.
pub const PORTS: &[u32] = &[1, 2, 300, KEY_MAX];
pub const KEY_PORT: u32 = 100;

pub fn key_ok(bits: u32, k: u32) -> bool {
    match bits {
        KEY_PORT => PORTS.contains(&k),
        b if b < 29 => k < 1 << b,
        _ => k <= KEY_MAX,
    }
}

pub fn gen_key(s: &mut Src, bits: u32) -> u32 {
    if bits == KEY_PORT {
        return *s.pick(PORTS);
    }
    let max = if bits >= 29 { KEY_MAX } else { (1u32 << bits) - 1 };
    let x = match s.weighted(&[8, 3, 1]) {
        0 => s.below(5) as u32,
        1 => *s.pick(&[15u32, 16, 17, 127, 128, 255, 2047, 2048, 65535, 262143, 262144, KEY_MAX - 1, KEY_MAX]),
        _ => s.below(KEY_MAX as u64 + 1) as u32,
    };
    if x > max { x % (max + 1) } else { x }
}

pub struct Budget {
    pub nodes: i64,
    /// one collection is to have many items
    big: bool,
}

impl Budget {
    pub fn new(nodes: i64) -> Self {
        Budget { nodes, big: false }
    }
}

pub fn gen_val(s: &mut Src, ty: &Ty) -> Val {
    // a large collection now and then
    if s.chance(1, 400) {
        return gen_in(s, ty, &mut Budget { nodes: 60, big: true }, 0);
    }
    let nodes = [3, 12, 40, 160][s.weighted(&[1, 3, 4, 1])];
    gen_in(s, ty, &mut Budget::new(nodes), 0)
}

/// A small value.
pub fn gen_small(s: &mut Src, ty: &Ty) -> Val {
    if s.chance(1, 3000) {
        return gen_in(s, ty, &mut Budget { nodes: 30, big: true }, 0);
    }
    gen_in(s, ty, &mut Budget::new(6), 0)
}

/// The size of a large collection, once per value.
fn gen_big(s: &mut Src, b: &mut Budget, cheap: bool) -> Option<usize> {
    if !b.big || !s.chance(2, 3) {
        return None;
    }
    b.big = false;
    b.nodes = b.nodes.min(60);
    Some(match s.weighted(&[30, if cheap { 3 } else { 0 }]) {
        0 => *s.pick(&[127, 128, 129, 200, 255, 256, 257, 258, 300, 400]),
        _ => *s.pick(&[1000, 5000, 16384, 17000]),
    })
}

fn gen_len(s: &mut Src, b: &mut Budget, cheap: bool) -> usize {
    if let Some(n) = gen_big(s, b, cheap) {
        return n;
    }
    if b.nodes <= 0 {
        return 0;
    }
    let n = match s.weighted(&[10, 5, if cheap { 1 } else { 0 }]) {
        0 => s.below(3) as usize,
        1 => s.below(7) as usize,
        _ => 60 + s.below(80) as usize,
    };
    n
}

pub fn gen_in(s: &mut Src, ty: &Ty, b: &mut Budget, depth: u32) -> Val {
    b.nodes -= 1;
    match ty {
        Ty::Bool => Val::Bool(s.bool()),
        Ty::U(n) => Val::U(gen_u(s, *n)),
        Ty::I(n) => Val::I(gen_i(s, *n)),
        Ty::Str => Val::Str(gen_str(s)),
        Ty::Bytes => Val::Bytes(gen_bytes(s)),
        Ty::Opt(t) => {
            if b.nodes <= 0 || depth > 12 || !s.chance(2, 3) {
                Val::Opt(None)
            } else {
                Val::Opt(Some(Box::new(gen_in(s, t, b, depth + 1))))
            }
        }
        Ty::Vec(t) | Ty::List(t) => {
            let n = if depth > 12 { 0 } else { gen_len(s, b, is_varint(t)) };
            Val::Seq((0..n).map(|_| gen_in(s, t, b, depth + 1)).collect())
        }
        Ty::Arr(n, t) => Val::Seq((0..*n).map(|_| gen_in(s, t, b, depth + 1)).collect()),
        Ty::Tup(ts) => Val::Seq(ts.iter().map(|t| gen_in(s, t, b, depth + 1)).collect()),
        Ty::HMap(k, t) => {
            let n = gen_len(s, b, false);
            let mut out: Vec<(Val, Val)> = Vec::new();
            let from = s.below(300);
            for i in 0..n {
                let kv = match **k {
                    // enough different keys for a large map
                    Ty::U(bits) if n > 100 => Val::U((from + i as u64) & (u64::MAX >> (64 - bits))),
                    _ => gen_in(s, k, b, depth + 1),
                };
                let vv = gen_in(s, t, b, depth + 1);
                if !out.iter().any(|(x, _)| *x == kv) {
                    out.push((kv, vv));
                }
            }
            out.sort();
            Val::HMap(out)
        }
        Ty::Boxed(t) => gen_in(s, t, b, depth),
        Ty::Map(bits, t) => {
            let n = if depth > 12 { 0 } else { gen_len(s, b, false) };
            let mut out: Vec<(u32, Val)> = Vec::new();
            let from = gen_key(s, *bits);
            for i in 0..n {
                let k = match n > 100 {
                    true if key_ok(*bits, from.wrapping_add(i as u32)) => from + i as u32,
                    true if key_ok(*bits, i as u32) => i as u32,
                    _ => gen_key(s, *bits),
                };
                let v = gen_in(s, t, b, depth + 1);
                if !out.iter().any(|(x, _)| *x == k) {
                    out.push((k, v));
                }
            }
            Val::Map(out)
        }
        Ty::Msg(id) => {
            let d = def(*id);
            let vi = if d.vars.len() > 1 && b.nodes > 0 {
                s.idx(d.vars.len())
            } else {
                d.vars.iter().position(|v| v.tag == 0).filter(|_| d.is_enum).unwrap_or(0)
            };
            let fields = d.vars[vi]
                .fields
                .iter()
                .map(|f| {
                    if s.chance(1, 5) {
                        default_val(&f.ty)
                    } else {
                        gen_in(s, &f.ty, b, depth + 1)
                    }
                })
                .collect();
            Val::Msg(vi, fields)
        }
    }
}

/// Human-readable type.
pub fn show_ty(ty: &Ty) -> String {
    match ty {
        Ty::Bool => "bool".into(),
        Ty::U(n) => format!("u{}", n),
        Ty::I(n) => format!("i{}", n),
        Ty::Str => "String".into(),
        Ty::Bytes => "Bytes".into(),
        Ty::Opt(t) => format!("Option<{}>", show_ty(t)),
        Ty::Vec(t) => format!("Vec<{}>", show_ty(t)),
        Ty::Arr(n, t) => format!("[{}; {}]", show_ty(t), n),
        Ty::Tup(ts) => format!("({})", ts.iter().map(show_ty).collect::<Vec<_>>().join(", ")),
        Ty::HMap(k, t) => format!("HashMap<{}, {}>", show_ty(k), show_ty(t)),
        Ty::Boxed(t) => format!("Box<{}>", show_ty(t)),
        Ty::List(t) => format!("List<{}>", show_ty(t)),
        Ty::Map(k, t) => format!("Map<u{}, {}>", k, show_ty(t)),
        Ty::Msg(id) => def(*id).name.to_string(),
    }
}

/// Visits every type reachable from `ty`, each message once.
pub fn walk_ty(ty: &Ty, seen: &mut Vec<usize>, f: &mut dyn FnMut(&Ty)) {
    f(ty);
    match ty {
        Ty::Opt(t) | Ty::Vec(t) | Ty::Arr(_, t) | Ty::Boxed(t) | Ty::List(t) | Ty::Map(_, t) => {
            walk_ty(t, seen, f)
        }
        Ty::Tup(ts) => ts.iter().for_each(|t| walk_ty(t, seen, f)),
        Ty::HMap(k, t) => {
            walk_ty(k, seen, f);
            walk_ty(t, seen, f);
        }
        Ty::Msg(id) => {
            if !seen.contains(id) {
                seen.push(*id);
                for v in &def(*id).vars {
                    for fd in &v.fields {
                        walk_ty(&fd.ty, seen, f);
                    }
                }
            }
        }
        _ => (),
    }
}
