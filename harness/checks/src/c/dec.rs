//! C04, C05, C06, C07, C09: the decoding side.

use std::io::{self, Read};

use engine::{
    inst::{Inst, Target},
    io::{Feed, Plan, Sink},
    live::{new_tap, same_val, with_reader, Live},
    mem,
    model::*,
    ops::{gen_op, places, Kit},
    val::*,
};
use steit::{de::Reader, wire_fmt::WireType};

use crate::{
    c::wire::ser,
    cx::{Check, Cx, Out},
    gen::*,
};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C04",
            quick: 1_600_000,
            thorough: 12_000_000,
            rule: "A case draws a type and a byte string (a valid encoding, one damaged by up to three edits, tag-shaped input with hostile lengths, or random bytes) and deserializes, merges or merges it nested, from a stream that counts reads, under a memory meter, against the reference decoder. Non-trivial: the input is not a valid encoding and longer than one byte.",
            scenarios: &[(6, "deserialize", c04_de), (4, "merge", c04_merge), (3, "nested", c04_nested)],
        },
        Check {
            id: "C05",
            quick: 700_000,
            thorough: 8_000_000,
            rule: "A case draws a message type and value, encodes it with unknown and mistyped fields (varints up to 64 bits, payloads up to 20000 bytes), reordered fields and explicit defaults at every level, drops some fields, and decodes into a default or an existing value. Non-trivial: at least one ignorable field or reordering occurs.",
            scenarios: &[(5, "decode", c05_decode), (4, "merge", c05_merge), (2, "log entries", c05_log)],
        },
        Check {
            id: "C06",
            quick: 1_000_000,
            thorough: 8_000_000,
            rule: "A case draws a type, an existing value and one to four updates, merges them one by one or as a concatenation (bare, nested, attached to a runtime or not) and compares with the reference merge. Non-trivial: the existing value and an update are both non-default.",
            scenarios: &[(6, "sequence", c06_sequence), (3, "concatenation", c06_concat), (2, "nested", c06_nested)],
        },
        Check {
            id: "C07",
            quick: 500_000,
            thorough: 4_000_000,
            rule: "A case draws a type and value (or a log) and a plan of short reads or writes, interruptions and a failure at one offset; small inputs are tried with a failure at every offset. Non-trivial: the plan interrupted, split or failed the transfer of at least two bytes.",
            scenarios: &[
                (4, "chunked decoding", c07_chunked),
                (4, "failing reader", c07_reader),
                (4, "failing writer", c07_writer),
                (2, "consumption", c07_consumption),
                (3, "replay", c07_replay),
            ],
        },
        Check {
            id: "C09",
            quick: 2_000_000,
            thorough: 8_000_000,
            rule: "A case draws a byte stream of tagged, nested and raw pieces, a chunking, and a sequence of end-of-input probes, reads, tag reads, skips, nested and borrowed readers (possibly abandoned half-read or announcing more than there is), compared step by step with a cursor over the bytes. Non-trivial: at least one nested reader and one probe before a read.",
            scenarios: &[(1, "operations", c09)],
        },
    ]
}

// ---------------------------------------------------------------- C04

/// What the reference decoder says about merging `bytes` into `v`.
fn expect(ty: &Ty, v: &mut Val, bytes: &[u8]) -> Result<(), E> {
    merge(ty, v, bytes)
}

fn memory_ok(peak: usize, len: usize) -> Out {
    let bound = (2 << 20) + len * (64 << 10);
    ensure!(peak <= bound, "decoding {} bytes took {} bytes of memory", len, peak);
    Ok(())
}

/// After any outcome the value must be usable and self-consistent.
fn usable(x: &dyn Inst, ty: &Ty, what: &str) -> Out {
    let v = x.view();
    let b = ser(x)?;
    ensure!(b.len() as u32 == x.compute_size(), "{}: the value left behind reports a wrong size", what);
    let d = decode(ty, &b).map_err(|e| format!("{}: the value left behind {:?} does not parse: {:?}", what, v, e))?;
    same_val(&v, &d, what)
}

fn verdict(cx: &mut Cx, want: Result<(), E>, v: &Val, got: Result<(), io::Error>, x: Option<&dyn Inst>, bytes: &[u8]) -> Out {
    match (&want, &got) {
        (Ok(()), _) => cx.label("well-formed"),
        (Err(E::Bad(w)), _) => cx.label(w),
        (Err(E::Unspec(_)), _) => cx.label("unspecified"),
    }
    match want {
        Ok(()) => {
            if let Err(e) = got {
                return Err(format!("well-formed input {:?} is rejected: {}; expected {:?}", bytes, e, v));
            }
            same_val(v, &x.unwrap().view(), &format!("well-formed input {:?}", bytes))
        }
        Err(E::Bad(why)) => {
            ensure!(got.is_err(), "input {:?} is accepted in spite of: {}; result {:?}", bytes, why, x.map(|x| x.view()));
            Ok(())
        }
        Err(E::Unspec(_)) => Ok(()),
    }
}

fn c04_de(cx: &mut Cx) -> Out {
    let t = cx.target();
    let ty = t.ty();
    let (b, kind) = input(&mut cx.s, &ty);
    cx.label(kind);
    cx.nontrivial = b.len() > 1 && !kind.starts_with("valid");
    cx.note(|| format!("bytes {:?}", b));
    let mut v = default_val(&ty);
    let want = expect(&ty, &mut v, &b);
    let mut feed = Feed::new(&b);
    let (got, peak) = mem::peak(|| with_reader(&mut feed, |r| t.deserialize(r)));
    memory_ok(peak, b.len())?;
    let (got, x) = match got {
        Ok(x) => (Ok(()), Some(x)),
        Err(e) => (Err(e), None),
    };
    verdict(cx, want, &v, got, x.as_deref(), &b)?;
    if let Some(x) = x {
        usable(&*x, &ty, "after decoding")?;
    }
    Ok(())
}

fn start(cx: &mut Cx, t: &dyn Target) -> (Val, Box<dyn Inst>) {
    let ty = t.ty();
    let v = gen_small(&mut cx.s, &ty);
    cx.note(|| format!("existing {:?}", v));
    let mut x = t.build(&v);
    if t.is_state() && cx.s.bool() {
        let (_, rt) = new_tap();
        x.set_runtime(rt);
    }
    (v, x)
}

fn c04_merge(cx: &mut Cx) -> Out {
    let t = cx.target();
    let ty = t.ty();
    let (mut v, mut x) = start(cx, t);
    let (b, kind) = input(&mut cx.s, &ty);
    cx.label(kind);
    cx.nontrivial = b.len() > 1 && !kind.starts_with("valid");
    cx.note(|| format!("bytes {:?}", b));
    let want = expect(&ty, &mut v, &b);
    let mut feed = Feed::new(&b);
    let (got, peak) = mem::peak(|| with_reader(&mut feed, |r| x.merge(r)));
    memory_ok(peak, b.len())?;
    verdict(cx, want, &v, got, Some(&*x), &b)?;
    usable(&*x, &ty, "after merging")
}

fn c04_nested(cx: &mut Cx) -> Out {
    let t = cx.target();
    let ty = t.ty();
    let (mut v, mut x) = start(cx, t);
    let (p, kind) = input(&mut cx.s, &ty);
    cx.label(kind);
    let mut b = vec![];
    if !is_varint(&ty) {
        match cx.s.weighted(&[4, 1, 1]) {
            0 => put_varint(&mut b, p.len() as u64),
            1 => put_varint(&mut b, p.len() as u64 + 1 + cx.s.below(300)),
            _ => b = hostile_varint(&mut cx.s),
        }
    }
    b.extend(&p);
    cx.note(|| format!("bytes {:?}", b));
    cx.nontrivial = b.len() > 1 && !kind.starts_with("valid");
    let mut c = Cur::new(&b);
    let want = if is_varint(&ty) {
        merge_cur(&ty, &mut v, &mut c)
    } else {
        c.nested().and_then(|mut n| merge_cur(&ty, &mut v, &mut n))
    };
    // a size wider than 64 bits is undefined, but must not hurt
    let wt = if is_varint(&ty) { WireType::Varint } else { WireType::Sized };
    let mut feed = Feed::new(&b);
    let (got, peak) = mem::peak(|| with_reader(&mut feed, |r| x.merge_nested(wt, r)));
    memory_ok(peak, b.len())?;
    verdict(cx, want, &v, got, Some(&*x), &b)?;
    usable(&*x, &ty, "after merging")
}

// ---------------------------------------------------------------- C05

/// Resets a random part of the fields of the outermost message to their defaults.
fn drop_fields(cx: &mut Cx, ty: &Ty, v: &Val) -> Val {
    match (ty, v) {
        (Ty::Msg(id), Val::Msg(vi, fs)) => {
            let d = def(*id);
            Val::Msg(
                *vi,
                d.vars[*vi]
                    .fields
                    .iter()
                    .zip(fs)
                    .map(|(f, x)| if cx.s.chance(1, 3) { default_val(&f.ty) } else { x.clone() })
                    .collect(),
            )
        }
        (_, v) => v.clone(),
    }
}

fn noise_labels(cx: &mut Cx, n: &Noise) {
    cx.label_if(n.unknown > 0, "unknown field");
    cx.label_if(n.mistyped > 0, "mistyped field");
    cx.label_if(n.reordered > 0, "reordered");
    cx.label_if(n.explicit > 0, "explicit default");
    cx.label_if(n.padded > 0, "padded varint");
    cx.label_if(n.big > 0, "large ignorable field");
    cx.nontrivial |= n.total() > 0;
}

fn c05_decode(cx: &mut Cx) -> Out {
    let t = if cx.s.chance(3, 4) { cx.msg() } else { cx.target() };
    let ty = t.ty();
    let v = gen_val(&mut cx.s, &ty);
    let v = drop_fields(cx, &ty, &v);
    let mut n = Noise::with_padding(10, &mut cx.s);
    let b = noisy(&mut cx.s, &ty, &v, &mut n);
    cx.note(|| format!("value {:?}", v));
    cx.note(|| format!("bytes {:?} with {:?}", b, n));
    noise_labels(cx, &n);
    let x = with_reader(&mut &b[..], |r| t.deserialize(r)).map_err(|e| format!("decoding {:?} failed: {}", b, e))?;
    same_val(&v, &x.view(), &format!("decoding {:?}", b))
}

fn c05_merge(cx: &mut Cx) -> Out {
    let t = cx.msg();
    let ty = t.ty();
    let (old, mut x) = start(cx, t);
    let v = gen_val(&mut cx.s, &ty);
    let v = drop_fields(cx, &ty, &v);
    let mut n = Noise::with_padding(10, &mut cx.s);
    let b = noisy(&mut cx.s, &ty, &v, &mut n);
    // explicit defaults do overwrite, so the reference reads the same bytes
    let mut want = old.clone();
    merge(&ty, &mut want, &b).map_err(|e| format!("harness: {:?}", e))?;
    if n.explicit == 0 {
        // without them the ignorable fields must make no difference at all
        let mut plain = old.clone();
        merge(&ty, &mut plain, &encode(&ty, &v)).map_err(|e| format!("harness: {:?}", e))?;
        if plain.canon() != want.canon() {
            return Err(format!("harness: noise is not neutral: {:?} {:?}", plain, want));
        }
    }
    cx.note(|| format!("update {:?}", v));
    cx.note(|| format!("bytes {:?} with {:?}", b, n));
    noise_labels(cx, &n);
    with_reader(&mut &b[..], |r| x.merge(r)).map_err(|e| format!("merging {:?} failed: {}", b, e))?;
    same_val(&want, &x.view(), &format!("merging {:?} into {:?}", b, old))
}

fn c05_log(cx: &mut Cx) -> Out {
    let t = cx.state();
    let ty = t.ty();
    let v = gen_small(&mut cx.s, &ty);
    let mut live = Live::new(t, &v, &[]);
    let mut log = vec![];
    for _ in 0..cx.s.count(1, 4) {
        if let Some((p, op)) = gen_op(&mut cx.s, &ty, &live.model, &Kit::plain()) {
            let (_, _, want) = live.apply(&p, &op);
            log.extend(want);
        }
    }
    let mut n = Noise::with_padding(8, &mut cx.s);
    let b: Vec<u8> = log.iter().flat_map(|e| noisy_entry(&mut cx.s, e, &mut n)).collect();
    cx.note(|| format!("from {:?} the log {:?} with {:?}", v, log, n));
    noise_labels(cx, &n);
    let mut y = t.build(&v);
    y.set_runtime(new_tap().1);
    with_reader(&mut &b[..], |r| y.replay(r)).map_err(|e| format!("replaying {:?} failed: {}", b, e))?;
    same_val(&mask_no_state(&ty, &live.model), &mask_no_state(&ty, &y.view()), "replay of entries with unknown fields")
}

// ---------------------------------------------------------------- C06

fn update(cx: &mut Cx, ty: &Ty) -> Vec<u8> {
    let v = gen_small(&mut cx.s, ty);
    cx.note(|| format!("update {:?}", v));
    if cx.s.chance(1, 4) {
        let mut n = Noise::with_padding(3, &mut cx.s);
        let b = noisy(&mut cx.s, ty, &v, &mut n);
        cx.note(|| format!("written as {:?}", b));
        return b;
    }
    encode(ty, &v)
}

fn c06_sequence(cx: &mut Cx) -> Out {
    let t = cx.target();
    let ty = t.ty();
    let (mut v, mut x) = start(cx, t);
    let busy = v != default_val(&ty);
    for _ in 0..cx.s.count(1, 4) {
        let b = update(cx, &ty);
        if b.len() > 1 && busy {
            cx.nontrivial = true;
        }
        let before = v.clone();
        merge(&ty, &mut v, &b).map_err(|e| format!("harness: {:?}", e))?;
        with_reader(&mut &b[..], |r| x.merge(r)).map_err(|e| format!("merging {:?} failed: {}", b, e))?;
        same_val(&v, &x.view(), &format!("merging {:?} into {:?}", b, before))?;
        if t.is_state() && cx.s.chance(1, 4) {
            if let Some((p, op)) = gen_op(&mut cx.s, &ty, &v, &Kit::plain()) {
                cx.note(|| format!("{:?} at {:?}", op, p));
                apply(&ty, &mut v, &p, &op, &mut vec![], &mut vec![]);
                x.apply(&p, &op);
            }
        }
    }
    usable(&*x, &ty, "after merging")
}

fn c06_concat(cx: &mut Cx) -> Out {
    let t = cx.msg();
    let ty = t.ty();
    let (v, mut x) = start(cx, t);
    let mut y = t.build(&v);
    let mut all = vec![];
    let mut want = v.clone();
    // an enum's variant tag occurs once, so its updates are of one variant
    let first = gen_small(&mut cx.s, &ty);
    for i in 0..1 + cx.s.below(4) {
        let u = if i == 0 { first.clone() } else { gen_small(&mut cx.s, &ty) };
        let is_enum = engine::inst::is_enum(&ty);
        if is_enum && u.msg().0 != first.msg().0 {
            continue;
        }
        cx.note(|| format!("update {:?}", u));
        let b = encode(&ty, &u);
        let cut = if is_enum && i > 0 {
            let mut c = Cur::new(&b);
            c.varint(32).unwrap();
            c.pos
        } else {
            0
        };
        all.extend(&b[cut..]);
        merge(&ty, &mut want, &b).map_err(|e| format!("harness: {:?}", e))?;
        with_reader(&mut &b[..], |r| x.merge(r)).map_err(|e| format!("merging {:?} failed: {}", b, e))?;
    }
    cx.nontrivial = v != default_val(&ty) && all.len() > 2;
    with_reader(&mut &all[..], |r| y.merge(r)).map_err(|e| format!("merging {:?} failed: {}", all, e))?;
    same_val(&want, &x.view(), "merging one after another")?;
    same_val(&want, &y.view(), "merging the concatenation")
}

fn c06_nested(cx: &mut Cx) -> Out {
    let t = cx.target();
    let ty = t.ty();
    let (mut v, mut x) = start(cx, t);
    let u = gen_small(&mut cx.s, &ty);
    cx.note(|| format!("update {:?}", u));
    cx.nontrivial = v != default_val(&ty) && u != default_val(&ty);
    let mut b = encode_nested(&ty, &u, None, false);
    merge(&ty, &mut v, &encode(&ty, &u)).map_err(|e| format!("harness: {:?}", e))?;
    b.extend([7, 7]);
    let wt = x.wire_type();
    let mut src = &b[..];
    let rest = with_reader(&mut src, |r| {
        x.merge_nested(wt, r)?;
        let mut rest = vec![];
        io::Read::read_to_end(r, &mut rest)?;
        Ok::<_, io::Error>(rest)
    })
    .map_err(|e| format!("merging {:?} failed: {}", b, e))?;
    ensure!(rest == [7, 7], "merging the nested {:?} leaves {:?}", b, rest);
    same_val(&v, &x.view(), "nested merge")
}

// ---------------------------------------------------------------- C07

fn c07_chunked(cx: &mut Cx) -> Out {
    let t = cx.target();
    let ty = t.ty();
    let (b, kind) = input(&mut cx.s, &ty);
    let plan = Plan::gen(&mut cx.s);
    cx.label(kind);
    cx.note(|| format!("bytes {:?} by {:?}", b, plan));
    cx.nontrivial = b.len() > 1;
    let old = gen_small(&mut cx.s, &ty);
    let (mut x, mut y) = (t.build(&old), t.build(&old));
    let want = with_reader(&mut &b[..], |r| x.merge(r));
    let mut feed = Feed::with_plan(&b, plan);
    let got = with_reader(&mut feed, |r| y.merge(r));
    match (&want, &got) {
        (Ok(()), Ok(())) => same_val(&x.view(), &y.view(), "decoding from a choppy stream"),
        (Err(a), Err(b)) => {
            ensure!(a.kind() == b.kind(), "the error depends on chunking: {:?} and {:?}", a, b);
            Ok(())
        }
        (a, b) => Err(format!("at once: {:?}, choppy: {:?}", a, b)),
    }
}

fn c07_reader(cx: &mut Cx) -> Out {
    let t = cx.target();
    let ty = t.ty();
    let v = gen_small(&mut cx.s, &ty);
    let mut n = Noise::with_padding(3, &mut cx.s);
    let b = noisy(&mut cx.s, &ty, &v, &mut n);
    let mut plan = Plan::gen(&mut cx.s);
    plan.kind = cx.s.below(3) as u8;
    plan.once = cx.s.bool();
    cx.note(|| format!("bytes {:?} by {:?}", b, plan));
    cx.nontrivial = b.len() > 1;
    let offsets: Vec<usize> = if b.len() <= 48 {
        (0..=b.len()).collect()
    } else {
        (0..6).map(|_| cx.s.idx(b.len() + 1)).collect()
    };
    let nested = cx.s.bool();
    for f in offsets {
        let mut p = plan.clone();
        p.fail_at = Some(f);
        let mut x = t.build(&v);
        let mut full = vec![];
        if nested && !is_varint(&ty) {
            put_varint(&mut full, b.len() as u64);
        }
        full.extend(&b);
        let mut feed = Feed::with_plan(&full, p);
        let wt = x.wire_type();
        let r = with_reader(&mut feed, |r| if nested { x.merge_nested(wt, r) } else { x.merge(r) });
        match r {
            Ok(()) => ensure!(!feed.fired, "the reader failed at byte {} of {:?} but decoding succeeded", f, full),
            Err(e) => ensure!(feed.fired, "decoding {:?} failed with {} before the reader did", full, e),
        }
        usable(&*x, &ty, "after a failed read")?;
    }
    Ok(())
}

fn c07_writer(cx: &mut Cx) -> Out {
    let t = cx.target();
    let ty = t.ty();
    let v = gen_val(&mut cx.s, &ty);
    let x = t.build(&v);
    let mut plan = Plan::gen(&mut cx.s);
    plan.kind = cx.s.below(4) as u8;
    plan.once = cx.s.bool();
    let bytes = x.to_bytes();
    cx.note(|| format!("value {:?} by {:?}", v, plan));
    cx.nontrivial = bytes.len() > 1;
    let mut ok = Sink::with_plan(plan.clone());
    let form = cx.s.below(3);
    let write = |w: &mut dyn io::Write| match form {
        0 => x.serialize(w),
        1 => {
            x.cache_size();
            x.serialize_cached(w)
        }
        _ => {
            x.cache_size();
            x.serialize_nested(Some(77), false, w)
        }
    };
    let mut whole = vec![];
    write(&mut whole).map_err(|e| format!("writing to memory failed: {}", e))?;
    write(&mut ok).map_err(|e| format!("writing in small or interrupted steps failed: {}", e))?;
    ensure!(ok.data == whole, "writing in small steps gives {:?} in place of {:?}", ok.data, whole);
    let offsets: Vec<usize> = if whole.len() <= 48 {
        (0..=whole.len()).collect()
    } else {
        (0..6).map(|_| cx.s.idx(whole.len() + 1)).collect()
    };
    for f in offsets {
        let mut p = plan.clone();
        p.fail_at = Some(f);
        let mut sink = Sink::with_plan(p);
        let r = write(&mut sink);
        ensure!(r.is_err() == sink.fired, "the writer failed: {}; serialization: {:?}", sink.fired, r);
        ensure!(whole.starts_with(&sink.data), "a failed serialization wrote {:?}, not a prefix of {:?}", sink.data, whole);
        ensure!(f >= whole.len() || r.is_err(), "serialization of {} bytes succeeded on a writer that took {}", whole.len(), f);
        ensure!(x.compute_size() as usize == bytes.len(), "the size changed after a failed serialization");
        ensure!(x.to_bytes() == bytes, "the serialization changed after a failed one");
    }
    same_val(&v, &x.view(), "after failed serializations")
}

fn c07_consumption(cx: &mut Cx) -> Out {
    let t = cx.target();
    let ty = t.ty();
    let v = gen_val(&mut cx.s, &ty);
    let mut n = Noise::with_padding(3, &mut cx.s);
    let p = noisy(&mut cx.s, &ty, &v, &mut n);
    let mut b = vec![];
    if !is_varint(&ty) {
        put_varint(&mut b, p.len() as u64);
    }
    b.extend(&p);
    let len = b.len();
    b.extend((0..40).map(|i| i as u8));
    let mut plan = Plan::gen(&mut cx.s);
    plan.interrupts = false;
    // the stream after the value may even be broken
    let broken = cx.s.bool();
    if broken {
        plan.fail_at = Some(len + 1);
    }
    cx.note(|| format!("value {:?} of {} bytes by {:?}", v, len, plan));
    cx.nontrivial = len > 1;
    let mut feed = Feed::with_plan(&b, plan);
    let wt = t.default().wire_type();
    let x = with_reader(&mut feed, |r| t.deserialize_nested(wt, r)).map_err(|e| format!("decoding {:?} failed: {}", b, e))?;
    same_val(&v, &x.view(), "nested decode")?;
    ensure!(
        feed.pos == len || feed.pos == len + 1,
        "decoding a nested value of {} bytes took {} bytes of the stream",
        len, feed.pos
    );
    Ok(())
}

fn c07_replay(cx: &mut Cx) -> Out {
    let t = cx.state();
    let ty = t.ty();
    let v = gen_small(&mut cx.s, &ty);
    let mut live = Live::new(t, &v, &[]);
    let mut log = vec![];
    let mut states = vec![(0usize, v.clone())];
    for _ in 0..cx.s.count(1, 5) {
        if let Some((p, op)) = gen_op(&mut cx.s, &ty, &live.model, &Kit::plain()) {
            cx.note(|| format!("{:?} at {:?}", op, p));
            let before = states.last().unwrap().1.clone();
            let (_, _, want) = live.apply(&p, &op);
            let mut m = before;
            for e in want {
                log.extend(e.framed());
                replay_entry(&ty, &mut m, &e, &mut false).map_err(|e| format!("harness: {:?}", e))?;
                states.push((log.len(), m.clone()));
            }
        }
    }
    let mut plan = Plan::gen(&mut cx.s);
    plan.kind = cx.s.below(3) as u8;
    plan.once = cx.s.bool();
    cx.note(|| format!("log of {} bytes by {:?}", log.len(), plan));
    cx.nontrivial = log.len() > 1;
    let mut offsets: Vec<Option<usize>> = vec![None];
    for _ in 0..3 {
        offsets.push(Some(cx.s.idx(log.len() + 1)));
    }
    for f in offsets {
        let mut p = plan.clone();
        p.fail_at = f;
        let mut y = t.build(&v);
        y.set_runtime(new_tap().1);
        let mut feed = Feed::with_plan(&log, p);
        let r = with_reader(&mut feed, |r| y.replay(r));
        ensure!(r.is_err() == feed.fired, "the reader failed: {}; replay: {:?}", feed.fired, r);
        let upto = f.unwrap_or(usize::MAX);
        let want = &states.iter().rev().find(|(e, _)| *e <= upto).unwrap().1;
        same_val(
            &mask_no_state(&ty, want),
            &mask_no_state(&ty, &y.view()),
            &format!("replay of a log whose reader fails at {:?}", f),
        )?;
        usable(&*y, &ty, "after a failed replay")?;
    }
    let _ = places;
    Ok(())
}

// ---------------------------------------------------------------- C09

/// The operations of a reader of any kind.
trait Rd {
    fn eof(&mut self) -> io::Result<bool>;
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize>;
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()>;
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> io::Result<usize>;
    fn read_tag(&mut self) -> io::Result<(u32, WireType)>;
    fn skip(&mut self, wt: WireType) -> io::Result<()>;
    fn nested(&mut self, f: &mut dyn FnMut(&mut dyn Rd) -> Out) -> io::Result<Out>;
    fn borrowed(&mut self, f: &mut dyn FnMut(&mut dyn Rd) -> Out) -> Out;
}

impl<R: io::Read> Rd for Reader<R> {
    fn eof(&mut self) -> io::Result<bool> { Reader::eof(self) }
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { Read::read(self, buf) }
    fn read_exact(&mut self, buf: &mut [u8]) -> io::Result<()> { Read::read_exact(self, buf) }
    fn read_to_end(&mut self, buf: &mut Vec<u8>) -> io::Result<usize> { Read::read_to_end(self, buf) }
    fn read_tag(&mut self) -> io::Result<(u32, WireType)> { Reader::read_tag(self) }
    fn skip(&mut self, wt: WireType) -> io::Result<()> { Reader::skip_field(self, wt) }
    fn nested(&mut self, f: &mut dyn FnMut(&mut dyn Rd) -> Out) -> io::Result<Out> {
        let mut n = Reader::nested(self)?;
        // through a borrow, as merging does
        let mut n = n.as_mut_read();
        Ok(f(&mut n))
    }
    fn borrowed(&mut self, f: &mut dyn FnMut(&mut dyn Rd) -> Out) -> Out {
        let mut b = self.as_mut_read();
        f(&mut b)
    }
}

struct World<'a> {
    data: &'a [u8],
    hints: &'a Hints,
    pos: usize,
    /// where the innermost enclosing window that really ends does so
    stop: bool,
    steps: u32,
    probed: bool,
    nested: u32,
}

/// What a position of the stream was written as.
type Hints = std::collections::BTreeMap<usize, Piece>;

#[derive(Clone, Copy, PartialEq)]
enum Piece {
    Tag,
    Varint,
    Sized,
    Raw,
}

fn stream(cx: &mut Cx, depth: u32, out: &mut Vec<u8>, hints: &mut Hints) {
    for _ in 0..cx.s.below(5) {
        match cx.s.weighted(&[3, 3, 2, 4, 1]) {
            0 => {
                hints.insert(out.len(), Piece::Tag);
                let t = cx.s.below(40) << 3;
                put_varint(out, t);
                hints.insert(out.len(), Piece::Varint);
                let v = any_varint(&mut cx.s);
                out.extend(v);
            }
            1 => {
                hints.insert(out.len(), Piece::Tag);
                put_varint(out, cx.s.below(40) << 3 | 2);
                hints.insert(out.len(), Piece::Sized);
                let n = cx.s.idx(9);
                out.push(n as u8);
                hints.entry(out.len()).or_insert(Piece::Raw);
                let b = cx.s.bytes(n);
                out.extend(b);
            }
            2 => {
                hints.insert(out.len(), Piece::Raw);
                let n = cx.s.idx(6);
                let b = cx.s.bytes(n);
                out.extend(b);
            }
            3 if depth < 5 => {
                hints.insert(out.len(), Piece::Sized);
                let (mut p, mut inner) = (vec![], Hints::new());
                stream(cx, depth + 1, &mut p, &mut inner);
                let n = match cx.s.weighted(&[12, 1]) {
                    0 => p.len() as u64,
                    _ => p.len() as u64 + cx.s.below(4),
                };
                put_varint(out, n);
                hints.extend(inner.into_iter().map(|(k, h)| (k + out.len(), h)));
                out.extend(p);
            }
            _ => {
                hints.insert(out.len(), Piece::Sized);
                let n = match cx.s.weighted(&[120, 20, 1]) {
                    0 => 100 + cx.s.idx(60),
                    1 => 250 + cx.s.idx(10),
                    _ => *cx.s.pick(&[4096, 8191, 8192, 8193, 10000, 16384, 65536, 70000]),
                };
                put_varint(out, n as u64);
                hints.entry(out.len()).or_insert(Piece::Raw);
                out.extend((0..n).map(|i| if i % 251 == 0 { 7 } else { 5 }));
            }
        }
    }
}

/// Drives a reader whose window nominally ends at `end` and whose data ends at `hard`.
fn drive(cx: &mut Cx, r: &mut dyn Rd, w: &mut World, end: usize, hard: usize, depth: u32) -> Out {
    let n_ops = 1 + cx.s.below(if depth == 0 { 14 } else { 8 });
    let mut pending = false;
    for _ in 0..n_ops {
        if w.stop || w.steps > 60 {
            break;
        }
        w.steps += 1;
        let lim = end.min(hard);
        let left = lim - w.pos;
        let from = w.pos;
        let torn = end > hard;
        let op = match w.hints.get(&w.pos).copied().filter(|_| left > 0 && cx.s.chance(7, 8)) {
            None if left == 0 && cx.s.chance(19, 20) => *cx.s.pick(&[0, 0, 0, 6, 7]),
            // inside the data of something: raw access only, mostly
            None if cx.s.chance(5, 6) => *cx.s.pick(&[0, 1, 1, 2, 7]),
            None => cx.s.weighted(&[5, 3, 2, 3, 3, 5, 2, 1]),
            // probing and borrowing fit everywhere
            Some(_) if cx.s.chance(1, 3) => *cx.s.pick(&[0, 0, 0, 6]),
            Some(Piece::Tag) => 3,
            Some(Piece::Varint) => 4,
            Some(Piece::Sized) => *cx.s.pick(&[5, 5, 8]),
            Some(Piece::Raw) => *cx.s.pick(&[1, 2]),
        };
        match op {
            0 => {
                cx.note(|| format!("{}eof at {}", "  ".repeat(depth as usize), w.pos));
                let got = r.eof();
                if left == 0 && torn {
                    ensure!(got.is_err(), "eof at {} in a window that should go on: {:?}", w.pos, got);
                    w.stop = true;
                } else {
                    let got = got.map_err(|e| format!("eof failed: {}", e))?;
                    ensure!(got == (left == 0), "eof at {} of a window up to {} is {}", w.pos, lim, got);
                    if !got {
                        pending = true;
                        w.probed = true;
                    }
                }
                continue;
            }
            1 => {
                let k = if cx.s.chance(1, 20) { *cx.s.pick(&[64, 200, 256, 300, 1024, 8192, 9000, 80000]) } else { cx.s.idx(8) };
                cx.note(|| format!("{}read {} at {}", "  ".repeat(depth as usize), k, w.pos));
                let mut buf = vec![0xAA; k];
                let got = r.read(&mut buf);
                if left == 0 && torn && k > 0 {
                    ensure!(got.is_err(), "a read at {} past the data is {:?}", w.pos, got);
                    w.stop = true;
                    continue;
                }
                let m = got.map_err(|e| format!("read failed: {}", e))?;
                ensure!(m <= k.min(left), "a read of {} with {} left returns {}", k, left, m);
                ensure!(m > 0 || k == 0 || left == 0, "a read of {} with {} left returns nothing", k, left);
                ensure!(buf[..m] == w.data[w.pos..w.pos + m], "a read at {} returns {:?}, expected {:?}", w.pos, &buf[..m], &w.data[w.pos..w.pos + m]);
                w.pos += m;
                if m == 0 {
                    continue;
                }
            }
            2 => {
                let k = if cx.s.chance(1, 20) { *cx.s.pick(&[64, 128, 200, 256, 300, 1024, 8192, 9000, 80000]) } else { cx.s.idx(6) };
                let k = if cx.s.chance(9, 10) { k.min(left) } else { k };
                cx.note(|| format!("{}read_exact {} at {}", "  ".repeat(depth as usize), k, w.pos));
                let mut buf = vec![0xAA; k];
                let got = r.read_exact(&mut buf);
                if k > left {
                    ensure!(got.is_err(), "read_exact of {} with {} left succeeds", k, left);
                    w.stop = true;
                    continue;
                }
                got.map_err(|e| format!("read_exact failed: {}", e))?;
                ensure!(buf == w.data[w.pos..w.pos + k], "read_exact at {} returns {:?}, expected {:?}", w.pos, buf, &w.data[w.pos..w.pos + k]);
                w.pos += k;
                if k == 0 {
                    continue;
                }
            }
            3 => {
                let mut c = Cur { buf: &w.data[..lim], pos: w.pos };
                cx.note(|| format!("{}read_tag at {}", "  ".repeat(depth as usize), w.pos));
                let want = c.tag();
                let got = r.read_tag();
                match want {
                    Ok((n, v)) => {
                        let got = got.map_err(|e| format!("read_tag at {} failed: {}", w.pos, e))?;
                        ensure!(got == (n, if v { WireType::Varint } else { WireType::Sized }), "read_tag at {} is {:?}, expected {}", w.pos, got, n);
                        w.pos = c.pos;
                    }
                    Err(E::Bad(m)) => {
                        ensure!(got.is_err(), "read_tag at {} is {:?} in spite of: {}", w.pos, got, m);
                        w.stop = true;
                        continue;
                    }
                    Err(_) => {
                        w.stop = true;
                        continue;
                    }
                }
            }
            4 | 8 => {
                let v = match w.hints.get(&w.pos) {
                    Some(h) if cx.s.chance(7, 8) => *h == Piece::Varint,
                    _ => cx.s.bool(),
                };
                let wt = if v { WireType::Varint } else { WireType::Sized };
                cx.note(|| format!("{}skip {:?} at {}", "  ".repeat(depth as usize), wt, w.pos));
                let mut c = Cur { buf: &w.data[..lim], pos: w.pos };
                let want = c.skip(v);
                let got = r.skip(wt);
                match want {
                    Ok(()) => {
                        got.map_err(|e| format!("skip at {} failed: {}", w.pos, e))?;
                        w.pos = c.pos;
                    }
                    Err(E::Bad(m)) => {
                        ensure!(got.is_err(), "skip at {} succeeds in spite of: {}", w.pos, m);
                        w.stop = true;
                        continue;
                    }
                    Err(_) => {
                        w.stop = true;
                        continue;
                    }
                }
            }
            5 => {
                let mut c = Cur { buf: &w.data[..lim], pos: w.pos };
                let size = c.varint(64);
                cx.note(|| format!("{}nested of {:?} at {}", "  ".repeat(depth as usize), size, w.pos));
                match size {
                    Ok(n) => {
                        w.pos = c.pos;
                        w.nested += 1;
                        let inner_end = w.pos.saturating_add(n.min(usize::MAX as u64 / 2) as usize);
                        let res = r
                            .nested(&mut |r| drive(cx, r, w, inner_end, lim, depth + 1))
                            .map_err(|e| format!("nested failed: {}", e))?;
                        res?;
                    }
                    Err(E::Bad(m)) => {
                        let got = r.nested(&mut |_| Ok(()));
                        ensure!(got.is_err(), "nested at {} succeeds in spite of: {}", w.pos, m);
                        w.stop = true;
                        continue;
                    }
                    Err(_) => {
                        w.stop = true;
                        continue;
                    }
                }
            }
            6 => {
                cx.note(|| format!("{}borrow at {}", "  ".repeat(depth as usize), w.pos));
                r.borrowed(&mut |r| drive(cx, r, w, end, hard, depth + 1))?;
            }
            _ => {
                cx.note(|| format!("{}read_to_end at {}", "  ".repeat(depth as usize), w.pos));
                let mut buf = vec![];
                let got = r.read_to_end(&mut buf);
                ensure!(buf == w.data[w.pos..lim], "read_to_end at {} returns {:?}, expected {:?}", w.pos, buf, &w.data[w.pos..lim]);
                ensure!(got.is_err() == torn, "read_to_end in a window up to {} of {}: {:?}", end, hard, got);
                w.pos = lim;
                if torn {
                    w.stop = true;
                    continue;
                }
            }
        }
        if w.pos > from {
            pending = false;
        }
    }
    if pending && depth > 0 && !w.stop {
        // a byte looked at belongs to the reader that looked
        let mut buf = [0];
        let m = r.read(&mut buf).map_err(|e| format!("read failed: {}", e))?;
        ensure!(m == 1 && buf[0] == w.data[w.pos], "the byte at {} is lost after a probe", w.pos);
        w.pos += 1;
        pending = false;
    }
    if depth == 0 && pending {
        w.steps = 1000;
    }
    Ok(())
}

fn c09(cx: &mut Cx) -> Out {
    let mut data = vec![];
    let mut hints = Hints::new();
    for _ in 0..2 {
        stream(cx, 0, &mut data, &mut hints);
    }
    let mut plan = Plan::gen(&mut cx.s);
    plan.interrupts = false;
    cx.note(|| format!("stream {:?} by {:?}", data, plan));
    let mut r = Reader::new(Feed::with_plan(&data, plan));
    let mut w = World { data: &data, hints: &hints, pos: 0, stop: false, steps: 0, probed: false, nested: 0 };
    let mut pending = false;
    for _ in 0..3 {
        if !w.stop && w.steps < 60 {
            drive(cx, &mut r, &mut w, data.len(), data.len(), 0)?;
            pending = w.steps == 1000;
        }
    }
    cx.nontrivial = w.nested > 0 && w.probed;
    cx.label_if(w.nested > 1, "several nested readers");
    if w.stop {
        cx.label("ended by an error");
        return Ok(());
    }
    let how = cx.s.below(2);
    if how == 0 {
        let mut rest = vec![];
        io::Read::read_to_end(&mut r, &mut rest).map_err(|e| e.to_string())?;
        ensure!(rest == data[w.pos..], "the remaining bytes are {:?}, expected {:?}", rest, &data[w.pos..]);
        ensure!(r.eof().map_err(|e| e.to_string())?, "no end of input after reading everything");
        ensure!(r.into_inner().pos == data.len(), "the underlying stream is not at its end");
    } else {
        let at = r.into_inner().pos;
        ensure!(at == w.pos || (pending && at == w.pos + 1), "the underlying stream is at {}, expected {}", at, w.pos);
    }
    Ok(())
}
