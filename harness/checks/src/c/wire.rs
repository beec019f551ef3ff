//! C01, C02, C03, C08: the encoding side.

use std::io;

use engine::{
    bind::Bind,
    inst::{Inst, Target, Written},
    live::{new_tap, same_val, with_reader, Live},
    model::*,
    ops::{gen_op, poke_model, poke_places, Kit},
    src::Src,
    val::*,
};
use steit::{
    de::{Deserialize, Reader},

    wire_fmt::{self, HasWireType, WireType, FIELD_NUMBER_MAX},
};

use crate::{
    cx::{Check, Cx, Out},
    gen::*,
};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            quick: 1_500_000,
            thorough: 3_000_000,
            rule: "A case draws a type (any target of the zoo) and a value by choice sequence, serializes it (bare, nested with and without a field number, or several values back to back in one stream) and decodes the result with trailing bytes present. Non-trivial: the value has at least three nodes, or is a non-default primitive.",
            scenarios: &[(5, "bare", c01_bare), (4, "nested", c01_nested), (3, "stream", c01_stream)],
        },
        Check {
            id: "C02",
            quick: 200_000,
            thorough: 1_500_000,
            rule: "A case draws a type and value and a history of mutations, merges, replays, clones, partial serializations and size queries; after every step all reported sizes are compared with the bytes written and all inner length prefixes are re-parsed. Non-trivial: at least two steps changed the value between two serializations.",
            scenarios: &[(12, "history", c02), (1, "borrowed", c02_borrowed)],
        },
        Check {
            id: "C03",
            quick: 2_000_000,
            thorough: 3_000_000,
            rule: "A case draws a type and value; the bytes (bare, nested, after a history) are compared with the reference encoder, entries of maps up to their order. Non-trivial: the encoding has more than three bytes.",
            scenarios: &[(4, "built", c03_built), (2, "nested", c03_nested), (3, "history", c03_history), (1, "borrowed", c03_borrowed)],
        },
        Check {
            id: "C08",
            quick: 2_000_000,
            thorough: 2_000_000,
            rule: "A case draws a block of integers of one width (256 consecutive ones, or boundary and random ones), tags or padded varints, and checks every one. Non-trivial: at least one value needs two or more bytes.",
            scenarios: &[
                (4, "block", c08_block),
                (4, "boundary", c08_boundary),
                (3, "padded", c08_padded),
                (3, "tags", c08_tags),
                (2, "skip", c08_skip),
                (1, "invalid field number", c08_field),
            ],
        },
    ]
}

pub fn ser(x: &dyn Written) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    x.serialize(&mut out).map_err(|e| format!("serialization failed: {}", e))?;
    Ok(out)
}

fn weight(cx: &mut Cx, ty: &Ty, v: &Val) {
    if v.nodes() >= 3 || (is_prim(strip(ty)) && *v != default_val(ty)) {
        cx.nontrivial = true;
    }
}

/// Deserializes from `bytes ++ tail`; returns the value and what is left.
fn de_rest(
    bytes: &[u8],
    f: impl FnOnce(&mut Reader<&mut dyn io::Read>) -> io::Result<Box<dyn Inst>>,
) -> Result<(Box<dyn Inst>, Vec<u8>), String> {
    let mut src: &[u8] = bytes;
    let (x, rest) = with_reader(&mut src, |r| {
        let x = f(r)?;
        let mut rest = Vec::new();
        io::Read::read_to_end(r, &mut rest)?;
        Ok::<_, io::Error>((x, rest))
    })
    .map_err(|e| format!("deserialization failed: {} on {:?}", e, &bytes[..bytes.len().min(200)]))?;
    Ok((x, rest))
}

fn same_inst(cx: &Cx, t: &dyn Target, v: &Val, x: &dyn Inst, y: &dyn Inst, what: &str) -> Out {
    let _ = cx;
    same_val(v, &y.view(), what)?;
    ensure!(x.eq(y), "{}: the {} does not equal the original by ==", what, t.name());
    Ok(())
}

fn c01_bare(cx: &mut Cx) -> Out {
    let t = cx.target();
    let ty = t.ty();
    let v = gen_val(&mut cx.s, &ty);
    cx.note(|| format!("value {:?}", v));
    weight(cx, &ty, &v);
    let x = t.build(&v);
    let bytes = ser(&*x)?;
    ensure!(bytes == x.to_bytes() || v.has_multi_map(), "to_bytes differs from serialize");
    cx.note(|| format!("bytes {:?}", bytes));
    let mut input = bytes.clone();
    // a bare primitive or tuple ends by itself; everything else extends to the end of input
    let selfdelim = is_varint(&ty);
    if selfdelim {
        input.extend([0xff, 7, 0x80]);
    }
    let (y, rest) = de_rest(&input, |r| t.deserialize(r))?;
    ensure!(rest.len() == input.len() - bytes.len(), "decoding left {} bytes of {}", rest.len(), input.len());
    same_inst(cx, t, &v, &*x, &*y, "round trip")?;
    // the decoded copy encodes to an equally long string again
    ensure!(ser(&*y)?.len() == bytes.len(), "the decoded copy encodes to another length");
    Ok(())
}

fn gen_field(s: &mut Src) -> u32 {
    gen_key(s, 32)
}

fn c01_nested(cx: &mut Cx) -> Out {
    let t = cx.target();
    let ty = t.ty();
    let v = gen_val(&mut cx.s, &ty);
    weight(cx, &ty, &v);
    let x = t.build(&v);
    let field = if cx.s.bool() { Some(gen_field(&mut cx.s)) } else { None };
    let can_omit = cx.s.bool();
    cx.note(|| format!("value {:?}, field {:?}, can_omit {}", v, field, can_omit));
    let mut bytes = Vec::new();
    x.cache_size();
    x.serialize_nested(field, can_omit, &mut bytes).map_err(|e| e.to_string())?;
    cx.note(|| format!("bytes {:?}", bytes));
    if bytes.is_empty() {
        ensure!(can_omit && field.is_some(), "nothing was written for a value that may not be omitted");
        return same_val(&v, &t.default().view(), "a value omitted from the output is not the default");
    }
    let tail = [1u8, 0x80, 0, 9];
    bytes.extend(tail);
    let (y, rest) = de_rest(&bytes, |r| {
        if let Some(f) = field {
            let (n, wt) = r.read_tag()?;
            if n != f || wt != x.wire_type() {
                return Err(io::Error::new(io::ErrorKind::Other, format!("tag reads as {} {:?}", n, wt)));
            }
        }
        t.deserialize_nested(x.wire_type(), r)
    })?;
    ensure!(rest == tail, "decoding a nested value leaves {:?} of the trailing {:?}", rest, tail);
    same_inst(cx, t, &v, &*x, &*y, "nested round trip")
}

fn c01_stream(cx: &mut Cx) -> Out {
    let n = 2 + cx.s.idx(3);
    let mut bytes = Vec::new();
    let mut items = Vec::new();
    for _ in 0..n {
        let t = cx.target();
        let v = gen_val(&mut cx.s, &t.ty());
        weight(cx, &t.ty(), &v);
        let x = t.build(&v);
        x.cache_size();
        x.serialize_nested(None, false, &mut bytes).map_err(|e| e.to_string())?;
        items.push((t, v, x));
    }
    let mut src: &[u8] = &bytes;
    with_reader(&mut src, |r| {
        for (i, (t, v, x)) in items.iter().enumerate() {
            let y = t.deserialize_nested(x.wire_type(), r).map_err(|e| format!("item {}: {}", i, e))?;
            same_inst(cx, *t, v, &**x, &*y, "item of a stream")?;
        }
        ensure!(r.eof().map_err(|e| e.to_string())?, "bytes remain after the last item");
        Ok(())
    })
}

// ---------------------------------------------------------------- C02

/// Every reported size against the bytes, and the bytes against the grammar.
pub fn sizes(x: &dyn Inst, ty: &Ty, field: u32, order: u64) -> Out {
    sizes_of(x, &x.view(), ty, field, order)
}

fn sizes_of(x: &dyn Written, v: &Val, ty: &Ty, field: u32, order: u64) -> Out {
    // queries and serializations in varying order, so that no one of them props up another
    let a = if order & 1 == 0 { Some(x.compute_size()) } else { None };
    let b = if order & 2 == 0 { Some(x.cache_size()) } else { None };
    let bytes = ser(x)?;
    let n = bytes.len() as u32;
    for (what, got) in [("compute_size", a), ("cache_size", b), ("compute_size", Some(x.compute_size()))] {
        if let Some(got) = got {
            ensure!(got == n, "{} reports {} for {} bytes written: {:?}", what, got, n, v);
        }
    }
    let c = x.cache_size();
    ensure!(c == n, "cache_size reports {} for {} bytes", c, n);
    let c = x.cached_size();
    ensure!(c == n, "cached_size reports {} for {} bytes", c, n);
    let mut cached = Vec::new();
    x.serialize_cached(&mut cached).map_err(|e| e.to_string())?;
    ensure!(cached.len() == bytes.len(), "serialize_cached writes {} bytes in place of {}", cached.len(), n);
    ensure!(x.to_bytes().len() == bytes.len(), "to_bytes has another length");
    for f in [None, Some(field)] {
        for can_omit in [false, true] {
            let size = x.size_nested(f, can_omit).map_err(|e| e.to_string())?;
            x.cache_size();
            let mut out = Vec::new();
            x.serialize_nested(f, can_omit, &mut out).map_err(|e| e.to_string())?;
            ensure!(
                size as usize == out.len(),
                "compute_size_nested({:?}, {}) reports {} for {} bytes",
                f, can_omit, size, out.len()
            );
            if out.is_empty() {
                continue;
            }
            let mut c = Cur::new(&out);
            if f.is_some() {
                c.tag().map_err(|e| format!("nested output has a bad tag: {:?}", e))?;
            }
            if !is_varint(ty) {
                let p = c.nested().map_err(|e| format!("a length prefix is wrong: {:?}", e))?;
                ensure!(p.buf.len() == bytes.len(), "a length prefix of {} for a payload of {}", p.buf.len(), n);
                ensure!(c.eof(), "a length prefix falls short of its payload");
            }
        }
    }
    // inner length prefixes
    let back = decode(ty, &bytes).map_err(|e| format!("the output does not parse ({:?}): {:?}", e, bytes))?;
    same_val(v, &back, "the output parsed by the grammar")?;
    ensure!(encode(ty, &back).len() == bytes.len(), "the output is longer or shorter than its parse");
    Ok(())
}

fn c02(cx: &mut Cx) -> Out {
    let t = cx.target();
    let ty = t.ty();
    let mut v = gen_val(&mut cx.s, &ty);
    cx.note(|| format!("value {:?}", v));
    let mut x = t.build(&v);
    let root = cx.s.chance(3, 4);
    if t.is_state() {
        let (_, rt) = new_tap();
        x.set_runtime(if root { rt } else { rt.nested(3) });
    }
    let field = gen_field(&mut cx.s);
    let mut changed = 0;
    let mut keep: Vec<Box<dyn Inst>> = vec![];
    for _ in 0..cx.s.count(2, 8) {
        let before = v.clone();
        match cx.s.weighted(&[6, 4, 3, 2, 2, 2, 2, 1]) {
            0 if t.is_state() => {
                if let Some((p, op)) = gen_op(&mut cx.s, &ty, &v, &Kit::plain()) {
                    cx.note(|| format!("{:?} at {:?}", op, p));
                    apply(&ty, &mut v, &p, &op, &mut vec![], &mut vec![]);
                    x.apply(&p, &op);
                }
            }
            0 | 1 => {
                let ps = poke_places(&ty, &v);
                let (p, pt) = cx.s.pick(&ps).clone();
                let new = gen_small(&mut cx.s, &pt);
                cx.note(|| format!("overwrite {:?} with {:?}", p, new));
                poke_model(&mut v, &p, &new);
                x.poke(&p, &new);
            }
            2 => {
                let u = gen_small(&mut cx.s, &ty);
                cx.note(|| format!("merge {:?}", u));
                let b = encode(&ty, &u);
                merge(&ty, &mut v, &b).map_err(|e| format!("harness: {:?}", e))?;
                with_reader(&mut &b[..], |r| x.merge(r)).map_err(|e| format!("merge failed: {}", e))?;
            }
            3 if t.is_state() && root => {
                // replay what another replica did
                let mut other = Live::new(t, &v, &[]);
                if let Some((p, op)) = gen_op(&mut cx.s, &ty, &v, &Kit::plain()) {
                    cx.note(|| format!("replay of {:?} at {:?}", op, p));
                    other.apply(&p, &op);
                    let b = other.tap.pluck_bytes();
                    with_reader(&mut &b[..], |r| x.replay(r)).map_err(|e| format!("replay failed: {}", e))?;
                    v = x.view();
                    let masked = mask_no_state(&ty, &v);
                    same_val(&mask_no_state(&ty, &other.model), &masked, "replay")?;
                }
            }
            4 => {
                cx.note(|| "clone, continue with the clone".into());
                let y = x.clone_box();
                keep.push(std::mem::replace(&mut x, y));
            }
            5 => {
                cx.note(|| "serialize".into());
                ser(&*x)?;
            }
            6 => {
                cx.note(|| "cache_size".into());
                x.cache_size();
            }
            _ => {
                cx.note(|| "compute_size".into());
                x.compute_size();
            }
        }
        if before != v {
            changed += 1;
        }
        let order = cx.s.below(4);
        sizes(&*x, &ty, field, order)?;
        same_val(&v, &x.view(), "contents after a step")?;
    }
    for y in keep {
        sizes(&*y, &ty, field, 0)?;
    }
    cx.nontrivial = changed >= 2;
    Ok(())
}

/// Runs `f` on the borrowed form of a value.
fn borrowed(cx: &mut Cx, f: impl FnOnce(&mut Cx, &Ty, &Val, &dyn Written) -> Out) -> Out {
    let env = cx.env;
    let t = cx.s.pick(&env.lent);
    let ty = (t.ty)();
    let v = gen_val(&mut cx.s, &ty);
    cx.note(|| format!("borrowed {} of {:?}", t.name, v));
    let (mut f, mut out) = (Some(f), None);
    (t.with)(&v, &mut |x| out = f.take().map(|f| f(cx, &ty, &v, x)));
    out.expect("harness: nothing was lent")
}

fn c02_borrowed(cx: &mut Cx) -> Out {
    borrowed(cx, |cx, ty, v, x| {
        let field = gen_field(&mut cx.s);
        for _ in 0..2 {
            let order = cx.s.below(4);
            sizes_of(x, v, ty, field, order)?;
        }
        weight(cx, ty, v);
        Ok(())
    })
}

fn c03_borrowed(cx: &mut Cx) -> Out {
    borrowed(cx, |cx, ty, v, x| {
        let bytes = x.to_bytes();
        cx.nontrivial = bytes.len() > 3;
        exact(ty, v, &bytes, "to_bytes of the borrowed form")?;
        ensure!(
            (x.wire_type() == steit::wire_fmt::WireType::Varint) == is_varint(ty),
            "the borrowed form claims wire type {:?}",
            x.wire_type()
        );
        if v.has_multi_map() {
            return Ok(());
        }
        let field = if cx.s.bool() { Some(gen_field(&mut cx.s)) } else { None };
        let can_omit = cx.s.bool();
        let mut out = Vec::new();
        x.cache_size();
        x.serialize_nested(field, can_omit, &mut out).map_err(|e| e.to_string())?;
        let want = encode_nested(ty, v, field, can_omit);
        ensure!(want == out, "nested borrowed form of {:?}: {:?}, expected {:?}", v, out, want);
        Ok(())
    })
}

// ---------------------------------------------------------------- C03

/// `bytes` must be the reference encoding of `v`, map entries in any order.
pub fn exact(ty: &Ty, v: &Val, bytes: &[u8], what: &str) -> Out {
    let want = encode(ty, v);
    if want == bytes {
        return Ok(());
    }
    if v.has_multi_map() && want.len() == bytes.len() {
        if let Ok(d) = decode(ty, bytes) {
            if d.canon() == v.canon() && encode(ty, &d) == bytes {
                return Ok(());
            }
        }
    }
    Err(format!("{}: {:?} of type {} is written as {:?}, expected {:?}", what, v, show_ty(ty), bytes, want))
}

fn c03_built(cx: &mut Cx) -> Out {
    let t = cx.target();
    let ty = t.ty();
    let v = gen_val(&mut cx.s, &ty);
    cx.note(|| format!("value {:?}", v));
    let x = t.build(&v);
    let bytes = x.to_bytes();
    cx.nontrivial = bytes.len() > 3;
    cx.label_if(bytes.len() > 127, "over 127 bytes");
    cx.label_if(bytes.len() > 16383, "over 16383 bytes");
    exact(&ty, &v, &bytes, "to_bytes")
}

fn c03_nested(cx: &mut Cx) -> Out {
    let t = cx.target();
    let ty = t.ty();
    let v = gen_val(&mut cx.s, &ty);
    let x = t.build(&v);
    let field = if cx.s.chance(3, 4) { Some(gen_field(&mut cx.s)) } else { None };
    let can_omit = cx.s.bool();
    cx.note(|| format!("value {:?}, field {:?}, can_omit {}", v, field, can_omit));
    let mut out = Vec::new();
    x.cache_size();
    x.serialize_nested(field, can_omit, &mut out).map_err(|e| e.to_string())?;
    cx.nontrivial = out.len() > 3;
    // a boxed primitive field is never omitted
    let mut want = encode_nested(&ty, &v, field, can_omit);
    let bytes = x.to_bytes();
    if v.has_multi_map() && want != out && want.len() == out.len() && !want.is_empty() {
        let k = out.len() - bytes.len();
        exact(&ty, &v, &out[k..], "nested payload")?;
        want.splice(k.., out[k..].to_vec());
    }
    ensure!(want == out, "nested form of {:?}: {:?}, expected {:?}", v, out, want);
    Ok(())
}

fn c03_history(cx: &mut Cx) -> Out {
    let t = cx.target();
    let ty = t.ty();
    let mut v = gen_val(&mut cx.s, &ty);
    cx.note(|| format!("value {:?}", v));
    let mut x = t.build(&v);
    if t.is_state() && cx.s.bool() {
        let (_, rt) = new_tap();
        let b = base(&mut cx.s);
        x.set_runtime(engine::live::at(&rt, &b));
    }
    for _ in 0..cx.s.below(6) {
        if t.is_state() && cx.s.chance(3, 4) {
            if let Some((p, op)) = gen_op(&mut cx.s, &ty, &v, &Kit::plain()) {
                cx.note(|| format!("{:?} at {:?}", op, p));
                apply(&ty, &mut v, &p, &op, &mut vec![], &mut vec![]);
                x.apply(&p, &op);
            }
        } else if cx.s.bool() {
            let u = gen_small(&mut cx.s, &ty);
            cx.note(|| format!("merge {:?}", u));
            let b = encode(&ty, &u);
            merge(&ty, &mut v, &b).map_err(|e| format!("harness: {:?}", e))?;
            with_reader(&mut &b[..], |r| x.merge(r)).map_err(|e| format!("merge failed: {}", e))?;
        } else {
            x = x.clone_box();
        }
        if cx.s.bool() {
            exact(&ty, &v, &x.to_bytes(), "to_bytes amid a history")?;
        }
    }
    let bytes = x.to_bytes();
    cx.nontrivial = bytes.len() > 3;
    exact(&ty, &v, &bytes, "to_bytes after a history")
}

// ---------------------------------------------------------------- C08

fn int_case<T: Bind + HasWireType>(v: &Val) -> Out {
    let ty = T::ty();
    let x = T::build(v);
    let want = encode(&ty, v);
    let bytes = x.to_bytes();
    ensure!(bytes == want, "{} {:?} encodes to {:?}, expected {:?}", show_ty(&ty), v, bytes, want);
    for (what, n) in [("compute_size", x.compute_size()), ("cache_size", x.cache_size()), ("cached_size", x.cached_size())] {
        ensure!(n as usize == want.len(), "{} of {} {:?} is {}, its encoding has {} bytes", what, show_ty(&ty), v, n, want.len());
    }
    let mut input = want.clone();
    input.push(0x55);
    let mut r = Reader::new(&input[..]);
    let y = <T as Deserialize>::deserialize(&mut r).map_err(|e| format!("{:?}: {}", want, e))?;
    ensure!(y.view() == *v, "{} {:?} encodes to {:?} and decodes to {:?}", show_ty(&ty), v, want, y.view());
    let mut rest = vec![];
    io::Read::read_to_end(&mut r, &mut rest).unwrap();
    ensure!(rest == [0x55], "decoding {:?} leaves {:?}", input, rest);
    ensure!(T::WIRE_TYPE == WireType::Varint, "{} is not a varint", show_ty(&ty));
    Ok(())
}

const WIDTHS: [Ty; 9] = [
    Ty::U(8), Ty::I(8), Ty::U(16), Ty::I(16), Ty::U(32), Ty::I(32), Ty::U(64), Ty::I(64), Ty::Bool,
];

fn any_int(ty: &Ty, v: &Val) -> Out {
    match ty {
        Ty::U(8) => int_case::<u8>(v),
        Ty::U(16) => int_case::<u16>(v),
        Ty::U(32) => int_case::<u32>(v),
        Ty::U(64) => int_case::<u64>(v),
        Ty::I(8) => int_case::<i8>(v),
        Ty::I(16) => int_case::<i16>(v),
        Ty::I(32) => int_case::<i32>(v),
        Ty::I(64) => int_case::<i64>(v),
        _ => int_case::<bool>(v),
    }
}

fn c08_block(cx: &mut Cx) -> Out {
    let ty = cx.s.pick(&WIDTHS[..8]).clone();
    let start = match &ty {
        Ty::U(n) => gen_u(&mut cx.s, *n),
        Ty::I(n) => gen_i(&mut cx.s, *n) as u64,
        _ => 0,
    } & !0xff;
    cx.note(|| format!("{} from {:#x}", show_ty(&ty), start));
    cx.nontrivial = true;
    for i in 0..256u64 {
        let x = start | i;
        let v = match &ty {
            Ty::U(n) => Val::U(if *n == 64 { x } else { x & ((1 << n) - 1) }),
            Ty::I(n) => Val::I((x as i64) << (64 - n) >> (64 - n)),
            _ => unreachable!(),
        };
        any_int(&ty, &v)?;
    }
    Ok(())
}

fn c08_boundary(cx: &mut Cx) -> Out {
    let ty = cx.s.pick(&WIDTHS).clone();
    for _ in 0..16 {
        let v = gen_small(&mut cx.s, &ty);
        cx.note(|| format!("{} {:?}", show_ty(&ty), v));
        if encode(&ty, &v).len() > 1 {
            cx.nontrivial = true;
        }
        any_int(&ty, &v)?;
    }
    Ok(())
}

fn c08_padded(cx: &mut Cx) -> Out {
    let ty = cx.s.pick(&WIDTHS).clone();
    for _ in 0..8 {
        let v = gen_small(&mut cx.s, &ty);
        let mut b = encode(&ty, &v);
        let pad = 1 + cx.s.idx(14);
        *b.last_mut().unwrap() |= 0x80;
        b.extend(std::iter::repeat(0x80).take(pad - 1));
        b.push(0);
        cx.note(|| format!("{} {:?} as {:?}", show_ty(&ty), v, b));
        cx.nontrivial = true;
        b.push(0x33);
        fn go<T: Bind>(b: &[u8], v: &Val) -> Out {
            let mut r = Reader::new(b);
            let y = <T as Deserialize>::deserialize(&mut r).map_err(|e| format!("{:?}: {}", b, e))?;
            ensure!(y.view() == *v, "the padded varint {:?} decodes to {:?}, expected {:?}", b, y.view(), v);
            let mut rest = vec![];
            io::Read::read_to_end(&mut r, &mut rest).unwrap();
            ensure!(rest == [0x33], "decoding {:?} leaves {:?}", b, rest);
            // and as a nested value
            let mut r = Reader::new(b);
            let y = T::deserialize_nested(WireType::Varint, &mut r).map_err(|e| format!("{:?}: {}", b, e))?;
            ensure!(y.view() == *v, "the padded varint {:?} decodes to {:?}, expected {:?}", b, y.view(), v);
            Ok(())
        }
        match &ty {
            Ty::U(8) => go::<u8>(&b, &v),
            Ty::U(16) => go::<u16>(&b, &v),
            Ty::U(32) => go::<u32>(&b, &v),
            Ty::U(64) => go::<u64>(&b, &v),
            Ty::I(8) => go::<i8>(&b, &v),
            Ty::I(16) => go::<i16>(&b, &v),
            Ty::I(32) => go::<i32>(&b, &v),
            Ty::I(64) => go::<i64>(&b, &v),
            _ => go::<bool>(&b, &v),
        }?;
    }
    Ok(())
}

fn c08_tags(cx: &mut Cx) -> Out {
    for _ in 0..16 {
        let n = match cx.s.weighted(&[4, 3, 2]) {
            0 => gen_key(&mut cx.s, 32),
            1 => (FIELD_NUMBER_MAX as u64 + cx.s.below(5)).wrapping_sub(2) as u32,
            _ => gen_u(&mut cx.s, 32) as u32,
        };
        cx.note(|| format!("field number {}", n));
        cx.nontrivial |= n > 15;
        let ok = n <= KEY_MAX;
        ensure!(wire_fmt::validate_field_number(n).is_ok() == ok, "validate_field_number({}) is {}", n, !ok);
        for (wt, bits) in [(WireType::Varint, 0u32), (WireType::Sized, 2)] {
            ensure!(wt.value() as u32 == bits, "{:?} has the value {}", wt, wt.value());
            ensure!(WireType::from_value(bits).ok() == Some(wt), "from_value({}) is not {:?}", bits, wt);
            let want = if ok { Some(n << 3 | bits) } else { None };
            for (what, t) in [
                ("tag", wire_fmt::tag(n, wt)),
                ("WireType::tag", wt.tag(n)),
                ("HasWireType::tag", if bits == 0 { HasWireType::tag(&0u8, n) } else { HasWireType::tag(&String::new(), n) }),
            ] {
                ensure!(t.as_ref().ok().copied() == want, "{}({}, {:?}) is {:?}, expected {:?}", what, n, wt, t.ok(), want);
            }
            if let Some(t) = want {
                let p = wire_fmt::parse_tag(t).map_err(|e| format!("parse_tag({}): {}", t, e))?;
                ensure!(p == (n, wt), "parse_tag({}) is {:?}", t, p);
                let mut b = varint(t as u64);
                b.push(1);
                let mut r = Reader::new(&b[..]);
                let p = r.read_tag().map_err(|e| format!("read_tag on {:?}: {}", b, e))?;
                ensure!(p == (n, wt), "read_tag on {:?} is {:?}", b, p);
            }
        }
        let any = gen_u(&mut cx.s, 32) as u32;
        let p = wire_fmt::parse_tag(any);
        match any & 7 {
            0 => ensure!(p.as_ref().ok() == Some(&(any >> 3, WireType::Varint)), "parse_tag({}) is {:?}", any, p.ok()),
            2 => ensure!(p.as_ref().ok() == Some(&(any >> 3, WireType::Sized)), "parse_tag({}) is {:?}", any, p.ok()),
            w => {
                ensure!(p.is_err(), "parse_tag({}) accepts the wire type {}", any, w);
                ensure!(WireType::from_value(w).is_err(), "from_value({}) is accepted", w);
                let b = varint(any as u64);
                ensure!(Reader::new(&b[..]).read_tag().is_err(), "read_tag accepts the wire type {}", w);
            }
        }
        let w = gen_u(&mut cx.s, 32) as u32;
        ensure!(WireType::from_value(w).is_ok() == (w == 0 || w == 2), "from_value({})", w);
    }
    Ok(())
}

fn c08_skip(cx: &mut Cx) -> Out {
    for _ in 0..8 {
        let mut b = any_varint(&mut cx.s);
        if cx.s.bool() {
            *b.last_mut().unwrap() |= 0x80;
            let n = cx.s.idx(12);
            b.extend(std::iter::repeat(0x80).take(n));
            b.push(0);
        }
        cx.note(|| format!("skip {:?}", b));
        cx.nontrivial |= b.len() > 1;
        b.push(0x41);
        let mut r = Reader::new(&b[..]);
        r.skip_field(WireType::Varint).map_err(|e| format!("skip of {:?}: {}", b, e))?;
        let mut rest = vec![];
        io::Read::read_to_end(&mut r, &mut rest).unwrap();
        ensure!(rest == [0x41], "skipping the varint of {:?} leaves {:?}", b, rest);
    }
    Ok(())
}

fn c08_field(cx: &mut Cx) -> Out {
    let t = cx.target();
    let v = gen_small(&mut cx.s, &t.ty());
    let x = t.build(&v);
    let n = (KEY_MAX as u64 + cx.s.below(1 << 20)) as u32;
    cx.note(|| format!("{:?} as field {}", v, n));
    cx.nontrivial = true;
    let ok = n <= KEY_MAX;
    let want = encode_nested(&t.ty(), &v, Some(n), true);
    for can_omit in [false, true] {
        let size = x.size_nested(Some(n), can_omit);
        let mut out = vec![];
        x.cache_size();
        let r = x.serialize_nested(Some(n), can_omit, &mut out);
        if can_omit && want.is_empty() {
            continue;
        }
        ensure!(size.is_ok() == ok, "the size as field {} is {:?}", n, size.ok());
        ensure!(r.is_ok() == ok, "writing as field {} is {:?}, wrote {:?}", n, r.is_ok(), out);
    }
    Ok(())
}
