//! Generators of inputs shared by the checks.

use engine::{
    model::{encode, put_varint, varint, Entry},
    src::Src,
    val::*,
};

/// What a noisy encoding contains.
#[derive(Default, Clone, Debug)]
pub struct Noise {
    pub unknown: u32,
    pub mistyped: u32,
    pub reordered: u32,
    pub explicit: u32,
    pub big: u32,
    pub padded: u32,
    pub repeated: u32,
    /// whether primitive fields may come twice
    pub repeats: bool,
    budget: u32,
    /// one varint in this many is longer than it need be
    pad: u64,
}

impl Noise {
    pub fn new(budget: u32) -> Self {
        Noise { budget, ..Default::default() }
    }
    /// Also with varints that are not minimal, in some cases.
    pub fn with_padding(budget: u32, s: &mut Src) -> Self {
        Noise { pad: *s.pick(&[0, 0, 3, 12]), ..Noise::new(budget) }
    }
    pub fn total(&self) -> u32 {
        self.unknown + self.mistyped + self.reordered + self.explicit + self.padded + self.repeated
    }
    /// Perhaps pads the varint at the end of `out`.
    fn pad(&mut self, s: &mut Src, out: &mut Vec<u8>) {
        if self.pad > 0 && s.chance(1, self.pad) {
            self.padded += 1;
            *out.last_mut().unwrap() |= 0x80;
            let n = match s.weighted(&[6, 3, 1]) {
                0 => 0,
                1 => s.below(4),
                _ => s.below(16),
            };
            out.extend((0..n).map(|_| 0x80));
            out.push(0);
        }
    }
}

/// A varint of up to 64 bits, minimal.
pub fn any_varint(s: &mut Src) -> Vec<u8> {
    varint(gen_u(s, 64))
}

fn junk(s: &mut Src, varint_wire: bool, n: &mut Noise, out: &mut Vec<u8>) {
    if varint_wire {
        let v = any_varint(s);
        if v.len() > 2 {
            n.big += 1;
        }
        let at = out.len();
        out.extend(v);
        n.pad(s, out);
        // what is skipped over has to fit 64 bits
        if out.len() > at + 10 {
            out.truncate(at + 9);
            out.push(0);
        }
    } else {
        let len = match s.weighted(&[240, 120, 80, 1, 40]) {
            0 => s.below(4),
            1 => s.below(40),
            2 => 120 + s.below(20),
            3 => *s.pick(&[32768u64, 65535, 65536, 65537, 70000, 131073]),
            _ => *s.pick(&[255u64, 300, 8191, 8192, 8193, 16383, 16384, 20000]),
        } as usize;
        if len > 100 {
            n.big += 1;
        }
        put_varint(out, len as u64);
        n.pad(s, out);
        let fill = s.below(256) as u8;
        if len > 40 {
            out.extend(std::iter::repeat(fill).take(len));
        } else {
            for _ in 0..len {
                let b = if s.bool() { s.below(256) as u8 } else { s.below(32) as u8 };
                out.push(b);
            }
        }
    }
}

fn put_tag(out: &mut Vec<u8>, tag: u32, is_varint: bool) {
    put_varint(out, (tag as u64) << 3 | if is_varint { 0 } else { 2 });
}

/// A field number that `known` does not contain.
pub fn unknown_tag(s: &mut Src, known: &[u32]) -> u32 {
    for _ in 0..8 {
        let t = match s.weighted(&[4, 4, 2, 2]) {
            0 => s.below(10) as u32,
            1 if !known.is_empty() => {
                let k = *s.pick(known);
                let d = *s.pick(&[1u32, 2, 8, 16, 32, 128, 256, 1 << 13, 1 << 16, 1 << 24, 1 << 28]);
                if s.bool() { k.wrapping_add(d) } else { k ^ d }
            }
            2 => s.below(70000) as u32,
            _ => KEY_MAX - s.below(3) as u32,
        } & KEY_MAX;
        if !known.contains(&t) {
            return t;
        }
    }
    (0..).find(|t| !known.contains(t)).unwrap()
}

fn noise_fields(s: &mut Src, fields: &[FieldDef], n: &mut Noise, out: &mut Vec<u8>) {
    while n.budget > 0 && s.chance(1, 3) {
        n.budget -= 1;
        if !fields.is_empty() && s.chance(2, 5) {
            let f = s.pick(fields);
            let wire = !is_varint(&f.ty);
            put_tag(out, f.tag, wire);
            n.pad(s, out);
            junk(s, wire, n, out);
            n.mistyped += 1;
        } else {
            let known: Vec<u32> = fields.iter().map(|f| f.tag).collect();
            let tag = unknown_tag(s, &known);
            let wire = s.bool();
            put_tag(out, tag, wire);
            n.pad(s, out);
            junk(s, wire, n, out);
            n.unknown += 1;
        }
    }
}

fn noisy_nested(s: &mut Src, ty: &Ty, v: &Val, n: &mut Noise) -> Vec<u8> {
    let p = noisy(s, ty, v, n);
    if is_varint(ty) {
        return p;
    }
    let mut out = varint(p.len() as u64);
    n.pad(s, &mut out);
    out.extend(p);
    out
}

/// Encodes `v` with ignorable fields in between, fields in another order and defaults written out.
pub fn noisy(s: &mut Src, ty: &Ty, v: &Val, n: &mut Noise) -> Vec<u8> {
    let mut out = Vec::new();
    match (ty, v) {
        (Ty::Boxed(t), v) => return noisy(s, t, v, n),
        (Ty::Opt(t), Val::Opt(Some(x))) => out.extend(noisy_nested(s, t, x, n)),
        (Ty::Vec(t), Val::Seq(xs)) | (Ty::Arr(_, t), Val::Seq(xs)) | (Ty::List(t), Val::Seq(xs)) => {
            for x in xs {
                out.extend(noisy_nested(s, t, x, n));
            }
        }
        (Ty::Tup(ts), Val::Seq(xs)) => {
            for (t, x) in ts.iter().zip(xs) {
                out.extend(noisy_nested(s, t, x, n));
            }
        }
        (Ty::HMap(k, t), Val::HMap(xs)) => {
            for (a, b) in xs {
                out.extend(noisy_nested(s, k, a, n));
                out.extend(noisy_nested(s, t, b, n));
            }
        }
        (Ty::Map(_, t), Val::Map(xs)) => {
            for (k, x) in xs {
                if n.repeats && (is_varint(t) || **t == Ty::Str) && s.chance(1, 8) {
                    n.repeated += 1;
                    put_tag(&mut out, *k, is_varint(t));
                    let x = gen_small(s, t);
                    out.extend(noisy_nested(s, t, &x, n));
                }
                put_tag(&mut out, *k, is_varint(t));
                n.pad(s, &mut out);
                out.extend(noisy_nested(s, t, x, n));
            }
        }
        (Ty::Msg(id), Val::Msg(vi, fs)) => {
            let d = def(*id);
            let var = &d.vars[*vi];
            if d.is_enum {
                put_varint(&mut out, var.tag as u64);
                n.pad(s, &mut out);
            }
            let mut pieces = Vec::new();
            let mut first = Vec::new();
            for (fd, x) in var.fields.iter().zip(fs) {
                let plain = engine::model::encode_nested(&fd.ty, x, Some(fd.tag), true);
                if plain.is_empty() {
                    if n.budget == 0 || !s.chance(1, 3) {
                        continue;
                    }
                    n.explicit += 1;
                }
                let mut p = Vec::new();
                put_tag(&mut p, fd.tag, is_varint(&fd.ty));
                n.pad(s, &mut p);
                p.extend(noisy_nested(s, &fd.ty, x, n));
                pieces.push(p);
                if n.repeats && (is_varint(&fd.ty) || fd.ty == Ty::Str) && s.chance(1, 8) {
                    // what came before does not count
                    n.repeated += 1;
                    let x = gen_small(s, &fd.ty);
                    put_tag(&mut first, fd.tag, is_varint(&fd.ty));
                    first.extend(noisy_nested(s, &fd.ty, &x, n));
                }
            }
            if pieces.len() > 1 && s.chance(2, 3) {
                n.reordered += 1;
                for i in (1..pieces.len()).rev() {
                    let j = s.idx(i + 1);
                    pieces.swap(i, j);
                }
            }
            out.extend(first);
            for p in pieces {
                noise_fields(s, &var.fields, n, &mut out);
                out.extend(p);
            }
            noise_fields(s, &var.fields, n, &mut out);
        }
        (Ty::Bool, Val::Bool(true)) if n.pad > 0 && s.chance(1, 4) => {
            // any number but zero
            n.padded += 1;
            put_varint(&mut out, gen_u(s, 64).max(1));
        }
        (t, v) => {
            out = encode(t, v);
            if is_varint(t) {
                n.pad(s, &mut out);
            }
        }
    }
    out
}

/// A framed log entry with ignorable fields in its message.
pub fn noisy_entry(s: &mut Src, e: &Entry, n: &mut Noise) -> Vec<u8> {
    let b = e.encode();
    // the tag of the kind takes one byte; the known fields are 0 and 1
    let mut out = vec![b[0]];
    noise_known(s, &[(0, false), (1, matches!(e, Entry::Remove(..)))], n, &mut out, matches!(e, Entry::Pop(_)));
    out.extend(&b[1..]);
    noise_known(s, &[(0, false), (1, matches!(e, Entry::Remove(..)))], n, &mut out, matches!(e, Entry::Pop(_)));
    let mut f = varint(out.len() as u64);
    n.pad(s, &mut f);
    f.extend(out);
    f
}

fn noise_known(s: &mut Src, known: &[(u32, bool)], n: &mut Noise, out: &mut Vec<u8>, only_path: bool) {
    while n.budget > 0 && s.chance(1, 3) {
        n.budget -= 1;
        if s.chance(1, 3) {
            let (tag, v) = if only_path { known[0] } else { *s.pick(known) };
            put_tag(out, tag, !v);
            n.pad(s, out);
            junk(s, !v, n, out);
            n.mistyped += 1;
        } else {
            let tag = unknown_tag(s, &[0, 1]);
            let wire = s.bool();
            put_tag(out, tag, wire);
            n.pad(s, out);
            junk(s, wire, n, out);
            n.unknown += 1;
        }
    }
}

const BYTES: &[u8] = &[0, 1, 2, 3, 7, 8, 9, 10, 16, 18, 0x7f, 0x80, 0x81, 0xc0, 0xc3, 0xed, 0xf4, 0xfe, 0xff];

/// A varint claiming something large.
pub fn hostile_varint(s: &mut Src) -> Vec<u8> {
    match s.weighted(&[3, 2, 2, 2]) {
        0 => varint(1u64 << (20 + s.below(44))),
        1 => varint(u64::MAX - s.below(3)),
        2 => varint(u32::MAX as u64 - s.below(3)),
        _ => {
            // longer than any varint needs to be
            let mut v: Vec<u8> = (0..s.below(25)).map(|_| 0x80 | s.below(128) as u8).collect();
            v.push(s.below(128) as u8);
            v
        }
    }
}

pub fn mutate(s: &mut Src, bytes: &mut Vec<u8>, other: &[u8]) -> &'static str {
    let n = bytes.len();
    let at = s.idx(n + 1);
    match s.weighted(&[3, 3, 3, 3, 3, 2, 3, 2, 2]) {
        0 if n > 0 => {
            bytes[at % n] ^= 1 << s.below(8);
            "bit flip"
        }
        1 if n > 0 => {
            bytes[at % n] = *s.pick(BYTES);
            "byte"
        }
        2 if n > 0 => {
            let k = (1 + s.idx(4)).min(n - at.min(n - 1));
            let at = at.min(n - 1);
            bytes.drain(at..(at + k).min(n));
            "deletion"
        }
        3 => {
            let k = s.range(1, 4);
            let b = s.bytes(k);
            bytes.splice(at..at, b);
            "insertion"
        }
        4 => {
            bytes.truncate(at);
            "truncation"
        }
        5 => {
            let k = (1 + s.idx(8)).min(n - at);
            let b = bytes[at..at + k].to_vec();
            bytes.splice(at..at, b);
            "duplication"
        }
        6 => {
            let b = hostile_varint(s);
            let end = (at + s.idx(2)).min(n);
            bytes.splice(at..end, b);
            "hostile varint"
        }
        7 if !other.is_empty() => {
            let k = s.idx(other.len());
            bytes.truncate(at);
            bytes.extend(&other[k..]);
            "splice"
        }
        _ => {
            let k = s.idx(12);
            for _ in 0..k {
                bytes.push(*s.pick(BYTES));
            }
            "tail"
        }
    }
}

/// Bytes for a decoder of `ty`: valid, damaged or random ones. Tells which.
pub fn input(s: &mut Src, ty: &Ty) -> (Vec<u8>, &'static str) {
    match s.weighted(&[3, 2, 12, 3, 3]) {
        0 => {
            let v = gen_val(s, ty);
            (encode(ty, &v), "valid")
        }
        1 => {
            let v = gen_val(s, ty);
            let mut n = Noise::new(6);
            (noisy(s, ty, &v, &mut n), "valid with noise")
        }
        2 => {
            let v = gen_val(s, ty);
            let mut b = if s.bool() {
                encode(ty, &v)
            } else {
                let mut n = Noise::new(3);
                noisy(s, ty, &v, &mut n)
            };
            let w = gen_small(s, ty);
            let other = encode(ty, &w);
            let mut kind = "damaged";
            for _ in 0..1 + s.below(3) {
                kind = mutate(s, &mut b, &other);
            }
            (b, kind)
        }
        3 => {
            let n = s.idx(24);
            ((0..n).map(|_| *s.pick(BYTES)).collect(), "random")
        }
        _ => {
            // tag-shaped input with hostile lengths
            let mut b = Vec::new();
            let mut seen = vec![];
            let mut tags = vec![0u32];
            walk_ty(ty, &mut seen, &mut |t| {
                if let Ty::Msg(id) = t {
                    for v in &def(*id).vars {
                        tags.push(v.tag);
                        tags.extend(v.fields.iter().map(|f| f.tag));
                    }
                }
            });
            for _ in 0..s.below(6) {
                match s.weighted(&[3, 2, 2, 2]) {
                    0 => {
                        let t = *s.pick(&tags);
                        put_tag(&mut b, t, s.chance(1, 3));
                    }
                    1 => b.extend(hostile_varint(s)),
                    2 => {
                        let t = *s.pick(&tags);
                        put_varint(&mut b, t as u64)
                    }
                    _ => {
                        let n = s.idx(6);
                        b.push(n as u8);
                        b.extend(s.bytes(n));
                    }
                }
            }
            (b, "hostile")
        }
    }
}

/// A handful of base positions a state may be attached at.
pub fn base(s: &mut Src) -> Vec<u32> {
    match s.weighted(&[500, 100, 100, 5, 100]) {
        0 => vec![],
        1 => vec![s.below(4) as u32],
        2 => vec![128 + s.below(3) as u32, 0],
        // far below
        3 => (0..*s.pick(&[20, 64, 126, 127, 128, 129, 256, 300])).map(|i| i * s.below(3) as u32).collect(),
        _ => vec![1, KEY_MAX, 5],
    }
}
