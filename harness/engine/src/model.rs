//! The reference model: wire format, merge semantics, log semantics. It knows only schemas and
//! values, never the implementation.

use crate::val::*;

// ---------------------------------------------------------------- encoding

pub fn put_varint(out: &mut Vec<u8>, mut x: u64) {
    while x >= 0x80 {
        out.push((x as u8 & 0x7f) | 0x80);
        x >>= 7;
    }
    out.push(x as u8);
}

pub fn varint(x: u64) -> Vec<u8> {
    let mut v = Vec::new();
    put_varint(&mut v, x);
    v
}

pub fn zigzag(x: i64) -> u64 {
    if x < 0 { ((!(x as u64)) << 1) | 1 } else { (x as u64) << 1 }
}

pub fn unzigzag(x: u64) -> i64 {
    if x & 1 == 1 { !((x >> 1) as i64) } else { (x >> 1) as i64 }
}

fn omissible(ty: &Ty, v: &Val, payload: &[u8]) -> bool {
    match (ty, v) {
        (Ty::Bool, Val::Bool(b)) => !b,
        (Ty::U(_), Val::U(x)) => *x == 0,
        (Ty::I(_), Val::I(x)) => *x == 0,
        _ => payload.is_empty(),
    }
}

pub fn encode_nested(ty: &Ty, v: &Val, field: Option<u32>, can_omit: bool) -> Vec<u8> {
    let payload = encode(ty, v);
    if field.is_some() && can_omit && omissible(ty, v, &payload) {
        return vec![];
    }
    let mut out = Vec::new();
    if let Some(n) = field {
        put_varint(&mut out, (n as u64) << 3 | if is_varint(ty) { 0 } else { 2 });
    }
    if !is_varint(ty) {
        put_varint(&mut out, payload.len() as u64);
    }
    out.extend(payload);
    out
}

pub fn encode(ty: &Ty, v: &Val) -> Vec<u8> {
    let mut out = Vec::new();
    match (ty, v) {
        (Ty::Bool, Val::Bool(b)) => out.push(*b as u8),
        (Ty::U(_), Val::U(x)) => put_varint(&mut out, *x),
        (Ty::I(_), Val::I(x)) => put_varint(&mut out, zigzag(*x)),
        (Ty::Str, Val::Str(x)) => out.extend(x.as_bytes()),
        (Ty::Bytes, Val::Bytes(x)) => out.extend(x),
        (Ty::Opt(t), Val::Opt(x)) => {
            if let Some(x) = x {
                out = encode_nested(t, x, None, false);
            }
        }
        (Ty::Vec(t), Val::Seq(xs)) | (Ty::Arr(_, t), Val::Seq(xs)) | (Ty::List(t), Val::Seq(xs)) => {
            for x in xs {
                out.extend(encode_nested(t, x, None, false));
            }
        }
        (Ty::Tup(ts), Val::Seq(xs)) => {
            for (t, x) in ts.iter().zip(xs) {
                out.extend(encode_nested(t, x, None, false));
            }
        }
        (Ty::HMap(k, t), Val::HMap(xs)) => {
            for (a, b) in xs {
                out.extend(encode_nested(k, a, None, false));
                out.extend(encode_nested(t, b, None, false));
            }
        }
        (Ty::Boxed(t), v) => return encode(t, v),
        (Ty::Map(_, t), Val::Map(xs)) => {
            for (k, x) in xs {
                out.extend(encode_nested(t, x, Some(*k), false));
            }
        }
        (Ty::Msg(id), Val::Msg(vi, fs)) => {
            let d = def(*id);
            let var = &d.vars[*vi];
            if d.is_enum {
                put_varint(&mut out, var.tag as u64);
            }
            for (fd, x) in var.fields.iter().zip(fs) {
                out.extend(encode_nested(&fd.ty, x, Some(fd.tag), true));
            }
        }
        (t, v) => panic!("harness: value {:?} does not fit type {:?}", v, t),
    }
    out
}

// ---------------------------------------------------------------- decoding

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    /// the input must be reported as an error
    Bad(&'static str),
    /// the format does not define what this input means
    Unspec(&'static str),
}

type R<T> = Result<T, E>;

pub struct Cur<'a> {
    pub buf: &'a [u8],
    pub pos: usize,
}

impl<'a> Cur<'a> {
    pub fn new(buf: &'a [u8]) -> Self {
        Cur { buf, pos: 0 }
    }
    pub fn eof(&self) -> bool {
        self.pos >= self.buf.len()
    }
    fn byte(&mut self) -> R<u8> {
        let b = *self.buf.get(self.pos).ok_or(E::Bad("end of input inside a varint"))?;
        self.pos += 1;
        Ok(b)
    }
    /// A varint that must fit `bits`.
    pub fn varint(&mut self, bits: u32) -> R<u64> {
        let (mut x, mut off, mut over) = (0u64, 0u32, false);
        loop {
            let b = self.byte()?;
            let p = (b & 0x7f) as u64;
            if p != 0 {
                if off >= bits || (off + 7 > bits && p >> (bits - off) != 0) {
                    over = true;
                } else {
                    x |= p << off;
                }
            }
            off = off.saturating_add(7);
            if b & 0x80 == 0 {
                break;
            }
        }
        if over {
            return Err(E::Unspec("varint wider than its type"));
        }
        Ok(x)
    }
    fn boolean(&mut self) -> R<bool> {
        let mut v = false;
        loop {
            let b = self.byte()?;
            v |= b & 0x7f != 0;
            if b & 0x80 == 0 {
                return Ok(v);
            }
        }
    }
    pub fn nested(&mut self) -> R<Cur<'a>> {
        let n = self.varint(64)?;
        let left = self.buf.len() - self.pos;
        if n > left as u64 {
            return Err(E::Bad("end of input inside a length-prefixed payload"));
        }
        let c = Cur::new(&self.buf[self.pos..self.pos + n as usize]);
        self.pos += n as usize;
        Ok(c)
    }
    pub fn tag(&mut self) -> R<(u32, bool)> {
        let t = self.varint(32)? as u32;
        match t & 7 {
            0 => Ok((t >> 3, true)),
            2 => Ok((t >> 3, false)),
            _ => Err(E::Bad("illegal wire type")),
        }
    }
    pub fn skip(&mut self, is_varint: bool) -> R<()> {
        if is_varint {
            let start = self.pos;
            self.boolean()?;
            if self.pos - start > 10 {
                return Err(E::Unspec("unknown varint longer than 64 bits"));
            }
        } else {
            self.nested()?;
        }
        Ok(())
    }
}

/// Merges a nested element (no tag) of type `ty`.
fn merge_elem(ty: &Ty, v: &mut Val, c: &mut Cur) -> R<()> {
    if is_varint(ty) {
        merge_cur(ty, v, c)
    } else {
        let mut n = c.nested()?;
        merge_cur(ty, v, &mut n)
    }
}

pub fn merge(ty: &Ty, v: &mut Val, bytes: &[u8]) -> R<()> {
    merge_cur(ty, v, &mut Cur::new(bytes))
}

pub fn decode(ty: &Ty, bytes: &[u8]) -> R<Val> {
    let mut v = default_val(ty);
    merge(ty, &mut v, bytes)?;
    Ok(v)
}

fn merge_fields(fields: &[FieldDef], vals: &mut [Val], c: &mut Cur) -> R<()> {
    while !c.eof() {
        let (n, vt) = c.tag()?;
        match fields.iter().position(|f| f.tag == n) {
            Some(i) if is_varint(&fields[i].ty) == vt => merge_elem(&fields[i].ty, &mut vals[i], c)?,
            _ => c.skip(vt)?,
        }
    }
    Ok(())
}

pub fn merge_cur(ty: &Ty, v: &mut Val, c: &mut Cur) -> R<()> {
    match (ty, v) {
        (Ty::Bool, v) => *v = Val::Bool(c.boolean()?),
        (Ty::U(n), v) => *v = Val::U(c.varint(*n)?),
        (Ty::I(n), v) => *v = Val::I(unzigzag(c.varint(*n)?)),
        (Ty::Str, v) => {
            let b = c.buf[c.pos..].to_vec();
            c.pos = c.buf.len();
            *v = Val::Str(String::from_utf8(b).map_err(|_| E::Bad("invalid UTF-8"))?);
        }
        (Ty::Bytes, Val::Bytes(x)) => {
            x.extend(&c.buf[c.pos..]);
            c.pos = c.buf.len();
        }
        (Ty::Opt(t), Val::Opt(x)) => {
            while !c.eof() {
                let x = x.get_or_insert_with(|| Box::new(default_val(t)));
                merge_elem(t, x, c)?;
            }
        }
        (Ty::Vec(t), Val::Seq(xs)) | (Ty::List(t), Val::Seq(xs)) => {
            while !c.eof() {
                let mut x = default_val(t);
                merge_elem(t, &mut x, c)?;
                xs.push(x);
            }
        }
        (Ty::Arr(n, t), Val::Seq(xs)) => {
            let mut i = 0;
            while i < *n && !c.eof() {
                let mut x = default_val(t);
                merge_elem(t, &mut x, c)?;
                xs[i] = x;
                i += 1;
            }
            c.pos = c.buf.len();
        }
        (Ty::Tup(ts), v) => {
            let mut out = Vec::new();
            for t in ts {
                let mut x = default_val(t);
                merge_elem(t, &mut x, c)?;
                out.push(x);
            }
            c.pos = c.buf.len();
            *v = Val::Seq(out);
        }
        (Ty::HMap(k, t), Val::HMap(xs)) => {
            while !c.eof() {
                let mut a = default_val(k);
                merge_elem(k, &mut a, c)?;
                let mut b = default_val(t);
                merge_elem(t, &mut b, c)?;
                match xs.iter_mut().find(|(x, _)| x.canon() == a.canon()) {
                    Some(e) => e.1 = b,
                    None => xs.push((a, b)),
                }
            }
        }
        (Ty::Boxed(t), v) => merge_cur(t, v, c)?,
        (Ty::Map(bits, t), Val::Map(xs)) => {
            while !c.eof() {
                let (k, vt) = c.tag()?;
                if !key_ok(*bits, k) {
                    return Err(E::Bad("map key out of range"));
                }
                if vt != is_varint(t) {
                    return Err(E::Unspec("map entry with another wire type"));
                }
                match xs.iter().position(|(x, _)| *x == k) {
                    Some(i) => merge_elem(t, &mut xs[i].1, c)?,
                    None => {
                        let mut x = default_val(t);
                        merge_elem(t, &mut x, c)?;
                        xs.push((k, x));
                    }
                }
            }
        }
        (Ty::Msg(id), v) => {
            let d = def(*id);
            if d.is_enum {
                let tag = c.varint(32)? as u32;
                let vi = d.vars.iter().position(|x| x.tag == tag).ok_or(E::Bad("unknown variant"))?;
                if v.msg().0 != vi {
                    *v = default_variant(*id, vi);
                }
            }
            match v {
                Val::Msg(vi, fs) => merge_fields(&d.vars[*vi].fields, fs, c)?,
                _ => unreachable!(),
            }
        }
        (t, v) => panic!("harness: value {:?} does not fit type {:?}", v, t),
    }
    Ok(())
}

// ---------------------------------------------------------------- operations and log

/// One step into a value. `via` selects among equivalent accessors.
#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    /// variant index, field index
    F(usize, usize),
    I(usize, u8),
    K(u32, u8),
}

#[derive(Clone)]
pub enum How {
    Plain,
    /// as Plain, with a value wired to this foreign runtime beforehand
    Foreign(steit::rt::Runtime),
    /// *_with, the closure wires the value by set_runtime
    With,
    /// *_with, the closure builds the value by mutating a default one
    WithOps(Vec<(Vec<Step>, Op)>),
}

#[derive(Clone)]
pub enum Op {
    Set { var: usize, field: usize, val: Val, how: How },
    Push { val: Val, how: How },
    Pop,
    SwapRemove(usize),
    Insert { key: u32, val: Val, how: How },
    Remove(u32),
}

impl std::fmt::Debug for How {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            How::Plain => write!(f, "plain"),
            How::Foreign(rt) => write!(f, "wired-elsewhere-at{:?}", rt.path().collect_values()),
            How::With => write!(f, "with"),
            How::WithOps(ops) => write!(f, "with-ops{:?}", ops),
        }
    }
}

impl std::fmt::Debug for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Op::Set { var, field, val, how } => {
                write!(f, "set(variant #{}, field #{}, {:?}, {:?})", var, field, val, how)
            }
            Op::Push { val, how } => write!(f, "push({:?}, {:?})", val, how),
            Op::Pop => write!(f, "pop()"),
            Op::SwapRemove(i) => write!(f, "swap_remove({})", i),
            Op::Insert { key, val, how } => write!(f, "insert({}, {:?}, {:?})", key, val, how),
            Op::Remove(k) => write!(f, "remove({})", k),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Unit,
    Index(usize),
    Removed(Option<Val>),
}

impl Res {
    pub fn canon(&self) -> Res {
        match self {
            Res::Removed(Some(v)) => Res::Removed(Some(v.canon())),
            r => r.clone(),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Entry {
    Update(Vec<u32>, Vec<u8>),
    Push(Vec<u32>, Vec<u8>),
    Pop(Vec<u32>),
    Remove(Vec<u32>, u32),
}

impl Entry {
    /// Bare encoding of the log entry.
    pub fn encode(&self) -> Vec<u8> {
        let (tag, path) = match self {
            Entry::Update(p, _) => (0u64, p),
            Entry::Push(p, _) => (8, p),
            Entry::Pop(p) => (9, p),
            Entry::Remove(p, _) => (12, p),
        };
        let mut out = varint(tag);
        let path: Vec<u8> = path.iter().flat_map(|x| varint(*x as u64)).collect();
        if !path.is_empty() {
            out.push(2);
            put_varint(&mut out, path.len() as u64);
            out.extend(path);
        }
        match self {
            Entry::Update(_, b) | Entry::Push(_, b) => {
                if !b.is_empty() {
                    out.push(1 << 3 | 2);
                    put_varint(&mut out, b.len() as u64);
                    out.extend(b);
                }
            }
            Entry::Pop(_) => (),
            Entry::Remove(_, k) => {
                if *k != 0 {
                    out.push(1 << 3);
                    put_varint(&mut out, *k as u64);
                }
            }
        }
        out
    }

    pub fn framed(&self) -> Vec<u8> {
        let b = self.encode();
        let mut out = varint(b.len() as u64);
        out.extend(b);
        out
    }

    pub fn path(&self) -> &[u32] {
        match self {
            Entry::Update(p, _) | Entry::Push(p, _) | Entry::Pop(p) | Entry::Remove(p, _) => p,
        }
    }

    /// Parses one framed entry by the reference grammar.
    pub fn parse(c: &mut Cur) -> R<Entry> {
        let mut c = c.nested()?;
        let kind = c.varint(32)?;
        let (mut path, mut bytes, mut key) = (vec![], vec![], 0u32);
        match kind {
            0 | 8 | 9 | 12 => (),
            _ => return Err(E::Bad("unknown entry kind")),
        }
        while !c.eof() {
            let (n, vt) = c.tag()?;
            match (n, vt) {
                (0, false) => {
                    let mut p = c.nested()?;
                    while !p.eof() {
                        path.push(p.varint(32)? as u32);
                    }
                }
                (1, false) if kind == 0 || kind == 8 => {
                    let p = c.nested()?;
                    bytes.extend(p.buf);
                }
                (1, true) if kind == 12 => key = c.varint(32)? as u32,
                (_, vt) => c.skip(vt)?,
            }
        }
        Ok(match kind {
            0 => Entry::Update(path, bytes),
            8 => Entry::Push(path, bytes),
            9 => Entry::Pop(path),
            _ => Entry::Remove(path, key),
        })
    }
}

/// Compares expected and actual entries, tolerating another order of map entries in payloads.
pub fn same_entry(root: &Ty, before: &Val, exp: &Entry, got: &Entry) -> bool {
    if exp == got {
        return true;
    }
    match (exp, got) {
        (Entry::Update(p, a), Entry::Update(q, b)) | (Entry::Push(p, a), Entry::Push(q, b)) => {
            if p != q || a.len() != b.len() {
                return false;
            }
            let push = matches!(exp, Entry::Push(..));
            match ty_at(root, before, p, push) {
                Some(t) => match (decode(&t, a), decode(&t, b)) {
                    (Ok(x), Ok(y)) => x.canon() == y.canon(),
                    _ => false,
                },
                None => false,
            }
        }
        _ => false,
    }
}

/// The type of the element an entry path addresses (the item type for a push).
pub fn ty_at(root: &Ty, v: &Val, path: &[u32], push: bool) -> Option<Ty> {
    let mut t = strip(root).clone();
    let _ = v;
    let mut i = 0;
    while i < path.len() {
        let n = path[i];
        t = match &t {
            Ty::List(x) => strip(x).clone(),
            Ty::Map(_, x) => strip(x).clone(),
            Ty::Msg(id) => {
                let d = def(*id);
                let (var, tag) = if d.is_enum {
                    i += 1;
                    (d.vars.iter().find(|x| x.tag == n)?, *path.get(i)?)
                } else {
                    (&d.vars[0], n)
                };
                strip(&var.fields.iter().find(|f| f.tag == tag)?.ty).clone()
            }
            _ => return None,
        };
        i += 1;
    }
    if push {
        t = match &t {
            Ty::List(x) => strip(x).clone(),
            _ => return None,
        };
    }
    Some(t)
}

/// Applies an operation addressed by `path` to the model value; appends the expected entries.
/// `at` is the log path of `v`.
pub fn apply(ty: &Ty, v: &mut Val, path: &[Step], op: &Op, at: &mut Vec<u32>, log: &mut Vec<Entry>) -> Res {
    let ty = strip(ty);
    if let Some((step, rest)) = path.split_first() {
        let depth = at.len();
        let r = match (ty, v, step) {
            (Ty::Msg(id), Val::Msg(vi, fs), Step::F(sv, f)) => {
                assert_eq!(vi, sv, "harness: step into another variant");
                let d = def(*id);
                if d.is_enum {
                    at.push(d.vars[*vi].tag);
                }
                let fd = &d.vars[*vi].fields[*f];
                at.push(fd.tag);
                apply(&fd.ty, &mut fs[*f], rest, op, at, log)
            }
            (Ty::List(t), Val::Seq(xs), Step::I(i, _)) => {
                at.push(*i as u32);
                apply(t, &mut xs[*i], rest, op, at, log)
            }
            (Ty::Map(_, t), Val::Map(xs), Step::K(k, _)) => {
                at.push(*k);
                let x = &mut xs.iter_mut().find(|(x, _)| x == k).expect("harness: missing key").1;
                apply(t, x, rest, op, at, log)
            }
            (t, v, s) => panic!("harness: step {:?} into {:?} {:?}", s, t, v),
        };
        at.truncate(depth);
        return r;
    }
    match (ty, v, op) {
        (Ty::Msg(id), v, Op::Set { var, field, val, .. }) => {
            let d = def(*id);
            let vd = &d.vars[*var];
            let mut p = at.clone();
            if v.msg().0 != *var {
                *v = default_variant(*id, *var);
                if d.is_state {
                    log.push(Entry::Update(at.clone(), encode(ty, v)));
                }
            }
            if d.is_enum {
                p.push(vd.tag);
            }
            let fd = &vd.fields[*field];
            p.push(fd.tag);
            if d.is_state && !fd.no_state {
                log.push(Entry::Update(p, encode(&fd.ty, val)));
            }
            match v {
                Val::Msg(_, fs) => fs[*field] = val.clone(),
                _ => unreachable!(),
            }
            Res::Unit
        }
        (Ty::List(t), Val::Seq(xs), Op::Push { val, .. }) => {
            log.push(Entry::Push(at.clone(), encode(t, val)));
            xs.push(val.clone());
            Res::Index(xs.len() - 1)
        }
        (Ty::List(_), Val::Seq(xs), Op::Pop) => {
            if !xs.is_empty() {
                log.push(Entry::Pop(at.clone()));
            }
            Res::Removed(xs.pop())
        }
        (Ty::List(t), Val::Seq(xs), Op::SwapRemove(i)) => {
            if *i >= xs.len() {
                return Res::Removed(None);
            }
            log.push(Entry::Pop(at.clone()));
            let last = xs.pop().unwrap();
            if *i == xs.len() {
                return Res::Removed(Some(last));
            }
            let mut p = at.clone();
            p.push(*i as u32);
            log.push(Entry::Update(p, encode(t, &last)));
            Res::Removed(Some(std::mem::replace(&mut xs[*i], last)))
        }
        (Ty::Map(_, t), Val::Map(xs), Op::Insert { key, val, .. }) => {
            let mut p = at.clone();
            p.push(*key);
            log.push(Entry::Update(p, encode(t, val)));
            match xs.iter_mut().find(|(k, _)| k == key) {
                Some(e) => Res::Removed(Some(std::mem::replace(&mut e.1, val.clone()))),
                None => {
                    xs.push((*key, val.clone()));
                    Res::Removed(None)
                }
            }
        }
        (Ty::Map(..), Val::Map(xs), Op::Remove(key)) => {
            match xs.iter().position(|(k, _)| k == key) {
                Some(i) => {
                    log.push(Entry::Remove(at.clone(), *key));
                    Res::Removed(Some(xs.remove(i).1))
                }
                None => Res::Removed(None),
            }
        }
        (t, _, op) => panic!("harness: {:?} on {:?}", op, t),
    }
}

/// Replays one entry on the model value. On `Err(Bad)` with `target_ok == false` the state must be
/// unchanged.
pub fn replay_entry(ty: &Ty, v: &mut Val, e: &Entry, target_ok: &mut bool) -> R<()> {
    *target_ok = false;
    handle(ty, v, e.path(), e, target_ok)
}

fn payload_into(t: &Ty, x: &mut Val, b: &[u8], ok: &mut bool) -> R<()> {
    *ok = true;
    let mut c = Cur::new(b);
    merge_cur(t, x, &mut c)?;
    if !c.eof() {
        return Err(E::Unspec("trailing bytes after a primitive payload"));
    }
    Ok(())
}

fn handle(ty: &Ty, v: &mut Val, path: &[u32], e: &Entry, ok: &mut bool) -> R<()> {
    let ty = strip(ty);
    let Some((&n, rest)) = path.split_first() else {
        return match (ty, v, e) {
            (_, v, Entry::Update(_, b)) => {
                let mut x = default_val(ty);
                payload_into(ty, &mut x, b, ok)?;
                *v = x;
                Ok(())
            }
            (Ty::List(t), Val::Seq(xs), Entry::Push(_, b)) => {
                let mut x = default_val(t);
                payload_into(t, &mut x, b, ok)?;
                xs.push(x);
                Ok(())
            }
            (Ty::List(_), Val::Seq(xs), Entry::Pop(_)) => {
                if xs.pop().is_none() {
                    return Err(E::Bad("pop from an empty list"));
                }
                Ok(())
            }
            (Ty::Map(..), Val::Map(xs), Entry::Remove(_, k)) => {
                match xs.iter().position(|(x, _)| x == k) {
                    Some(i) => {
                        xs.remove(i);
                        Ok(())
                    }
                    None => Err(E::Bad("removal of an absent key")),
                }
            }
            _ => Err(E::Bad("operation not supported by the target")),
        };
    };
    match (ty, v) {
        (Ty::List(t), Val::Seq(xs)) => match xs.get_mut(n as usize) {
            Some(x) => handle(t, x, rest, e, ok),
            None => Err(E::Bad("index out of bounds")),
        },
        (Ty::Map(bits, t), Val::Map(xs)) => match xs.iter_mut().find(|(k, _)| *k == n) {
            Some((_, x)) => handle(t, x, rest, e, ok),
            None => match e {
                Entry::Update(_, b) if rest.is_empty() => {
                    if !key_ok(*bits, n) {
                        return Err(E::Bad("map key out of range"));
                    }
                    let mut x = default_val(t);
                    payload_into(t, &mut x, b, ok)?;
                    xs.push((n, x));
                    Ok(())
                }
                _ => Err(E::Bad("key not found")),
            },
        },
        (Ty::Msg(id), Val::Msg(vi, fs)) => {
            let d = def(*id);
            let var = &d.vars[*vi];
            let (tag, rest) = if d.is_enum {
                if n != var.tag {
                    return Err(E::Bad("not the current variant"));
                }
                match rest.split_first() {
                    Some((&t, r)) => (t, r),
                    None => return Err(E::Bad("operation on a variant")),
                }
            } else {
                (n, rest)
            };
            match var.fields.iter().position(|f| f.tag == tag) {
                None => Err(E::Bad("unknown tag")),
                Some(i) if var.fields[i].no_state => Err(E::Unspec("path into a no_state field")),
                Some(i) => handle(&var.fields[i].ty, &mut fs[i], rest, e, ok),
            }
        }
        _ => Err(E::Bad("path below a primitive")),
    }
}
