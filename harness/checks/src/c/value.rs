//! C20: equality and hashing. C21: List and Map as collections. C22: constructors and setters.

use std::{collections::BTreeMap, fmt::Debug, iter::FromIterator};

use engine::{
    bind::{Bind, KeyBind, Port, WITH},
    inst::{Inst, Target},
    live::{at, new_tap, same_val, with_reader, Live, Tap},
    model::{apply, encode, Entry, How, Op, Step},
    ops::{gen_op, poke_model, Kit},
    src::Src,
    val::*,
};
use steit::{
    log::loggers::NoopLogger,
    rt::Runtime,
    state::State,
    types::{List, Map, Maybe},
};

use super::log::{construct, kit, merge_bytes};
use crate::{
    cx::{Check, Cx, Out},
    gen::base,
    item::Item,
};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C20",
            quick: 1_000_000,
            thorough: 12_000_000,
            rule: "A case draws two values of one type, equal, differing in one place, differing only in excluded fields, or unrelated, made by different constructions, histories, attachments and cache states; ==, != and hashes in both directions and of clones are compared with the contents. Non-trivial: the values have three or more nodes and differ in representation (history, attachment, order or excluded fields) or in exactly one place.",
            scenarios: &[(6, "any type", c20_any), (4, "after histories", c20_states), (2, "maybe and option", c20_maybe)],
        },
        Check {
            id: "C21",
            quick: 800_000,
            thorough: 10_000_000,
            rule: "A case draws an item type, a construction and a sequence of calls of the whole collection API, whose results and contents are compared with a vector or an ordered map. Non-trivial: five or more calls, with an element removed or replaced.",
            scenarios: &[(5, "list", c21_list), (5, "map", c21_map)],
        },
        Check {
            id: "C22",
            quick: 700_000,
            thorough: 10_000_000,
            rule: "A case draws a type and compares default, every constructor and chains of setters (plain, foreign-wired and closure setters, on the root and on nested messages) with the definition. Non-trivial: three or more setter calls of which one changed a variant or ran a closure, or a constructor of a type with three or more fields.",
            scenarios: &[(2, "constructors", c22_new), (5, "states", c22_state), (4, "plain messages", c22_plain), (2, "chains", c22_chain)],
        },
    ]
}

fn nodes(v: &Val) -> usize {
    1 + match v {
        Val::Opt(Some(x)) => nodes(x),
        Val::Seq(xs) | Val::Msg(_, xs) => xs.iter().map(nodes).sum(),
        Val::HMap(xs) => xs.iter().map(|(_, x)| nodes(x)).sum(),
        Val::Map(xs) => xs.iter().map(|(_, x)| nodes(x)).sum(),
        _ => 0,
    }
}

// ---------------------------------------------------------------- C20

/// Changes one place of a value.
fn tweak(s: &mut Src, ty: &Ty, v: &Val) -> Val {
    let bits = |b: &u32| if *b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
    match (strip(ty), v) {
        (_, Val::Bool(b)) => Val::Bool(!b),
        (Ty::U(n), Val::U(x)) => Val::U((x ^ (1 << s.below(*n as u64))) & bits(n)),
        (Ty::I(n), Val::I(x)) => {
            let y = x ^ (1 << s.below(*n as u64 - 1));
            Val::I(if s.bool() { y } else { !y })
        }
        (_, Val::Str(x)) => {
            let mut y = x.clone();
            if s.bool() || y.pop().is_none() {
                y.push(*s.pick(&['\0', 'a', 'é']));
            }
            Val::Str(y)
        }
        (_, Val::Bytes(x)) => {
            let mut y = x.clone();
            match (s.below(3), y.len()) {
                (0, n) if n > 0 => {
                    let i = s.idx(n);
                    y[i] ^= 1 << s.below(8);
                }
                (1, n) if n > 0 => drop(y.pop()),
                _ => y.push(0),
            }
            Val::Bytes(y)
        }
        (Ty::Opt(t), Val::Opt(None)) => Val::Opt(Some(Box::new(gen_small(s, t)))),
        (Ty::Opt(t), Val::Opt(Some(x))) => Val::Opt(if s.bool() { None } else { Some(Box::new(tweak(s, t, x))) }),
        (Ty::Vec(t), Val::Seq(xs)) | (Ty::List(t), Val::Seq(xs)) => {
            let mut ys = xs.clone();
            match (s.below(5), ys.len()) {
                (0, n) if n > 0 => drop(ys.pop()),
                (1, n) if n > 1 => ys.swap(0, n - 1),
                (2 | 3, n) if n > 0 => {
                    let i = s.idx(n);
                    ys[i] = tweak(s, t, &xs[i]);
                }
                (4, _) => ys.push(default_val(t)),
                _ => ys.push(gen_small(s, t)),
            }
            Val::Seq(ys)
        }
        (Ty::Arr(_, t), Val::Seq(xs)) => {
            let mut ys = xs.clone();
            let i = s.idx(xs.len());
            ys[i] = tweak(s, t, &xs[i]);
            Val::Seq(ys)
        }
        (Ty::Tup(ts), Val::Seq(xs)) => {
            let mut ys = xs.clone();
            let i = s.idx(xs.len());
            ys[i] = tweak(s, &ts[i], &xs[i]);
            Val::Seq(ys)
        }
        (Ty::Map(b, t), Val::Map(xs)) => {
            let mut ys = xs.clone();
            match (s.below(4), ys.len()) {
                (0, n) if n > 0 => drop(ys.remove(s.idx(n))),
                (1 | 2, n) if n > 0 => {
                    let i = s.idx(n);
                    ys[i].1 = tweak(s, t, &xs[i].1);
                }
                (3, n) if n > 0 => {
                    // same values under another key
                    let k = gen_key(s, *b);
                    let i = s.idx(n);
                    if ys.iter().all(|x| x.0 != k) {
                        ys[i].0 = k;
                    }
                }
                _ => {
                    let k = gen_key(s, *b);
                    if ys.iter().all(|x| x.0 != k) {
                        ys.push((k, if s.bool() { default_val(t) } else { gen_small(s, t) }));
                    }
                }
            }
            Val::Map(ys)
        }
        (Ty::HMap(_, t), Val::HMap(xs)) if !xs.is_empty() => {
            let mut ys = xs.clone();
            let i = s.idx(ys.len());
            if s.bool() {
                ys.remove(i);
            } else {
                ys[i].1 = tweak(s, t, &xs[i].1);
            }
            Val::HMap(ys)
        }
        (Ty::Msg(id), Val::Msg(vi, fs)) => {
            let d = def(*id);
            let n = fs.len();
            if d.vars.len() > 1 && (n == 0 || s.chance(1, 4)) {
                let other = (vi + 1 + s.idx(d.vars.len() - 1)) % d.vars.len();
                return default_variant(*id, other);
            }
            let mut gs = fs.clone();
            if n > 0 {
                let i = s.idx(n);
                gs[i] = tweak(s, &d.vars[*vi].fields[i].ty, &fs[i]);
            }
            Val::Msg(*vi, gs)
        }
        (_, v) => v.clone(),
    }
}

/// Redraws every field excluded from equality (or only from hashing).
fn redraw(s: &mut Src, ty: &Ty, v: &Val, hash: bool) -> Val {
    match (strip(ty), v) {
        (Ty::Opt(t), Val::Opt(Some(x))) => Val::Opt(Some(Box::new(redraw(s, t, x, hash)))),
        (Ty::List(t), Val::Seq(xs)) | (Ty::Vec(t), Val::Seq(xs)) | (Ty::Arr(_, t), Val::Seq(xs)) => {
            Val::Seq(xs.iter().map(|x| redraw(s, t, x, hash)).collect())
        }
        (Ty::Tup(ts), Val::Seq(xs)) => Val::Seq(ts.iter().zip(xs).map(|(t, x)| redraw(s, t, x, hash)).collect()),
        (Ty::Map(_, t), Val::Map(xs)) => Val::Map(xs.iter().map(|(k, x)| (*k, redraw(s, t, x, hash))).collect()),
        (Ty::HMap(_, t), Val::HMap(xs)) => Val::HMap(xs.iter().map(|(k, x)| (k.clone(), redraw(s, t, x, hash))).collect()),
        (Ty::Msg(id), Val::Msg(vi, fs)) => {
            let d = &def(*id).vars[*vi];
            Val::Msg(
                *vi,
                d.fields
                    .iter()
                    .zip(fs)
                    .map(|(fd, x)| {
                        if fd.no_eq || (hash && fd.no_hash) {
                            if s.bool() { gen_small(s, &fd.ty) } else { tweak(s, &fd.ty, x) }
                        } else {
                            redraw(s, &fd.ty, x, hash)
                        }
                    })
                    .collect(),
            )
        }
        (_, v) => v.clone(),
    }
}

/// Reorders the entries of maps.
fn reorder(s: &mut Src, v: &Val) -> Val {
    match v {
        Val::Opt(Some(x)) => Val::Opt(Some(Box::new(reorder(s, x)))),
        Val::Seq(xs) => Val::Seq(xs.iter().map(|x| reorder(s, x)).collect()),
        Val::Msg(i, xs) => Val::Msg(*i, xs.iter().map(|x| reorder(s, x)).collect()),
        Val::HMap(xs) => Val::HMap(xs.iter().map(|(k, x)| (k.clone(), reorder(s, x))).collect()),
        Val::Map(xs) => {
            let mut ys: Vec<_> = xs.iter().map(|(k, x)| (*k, reorder(s, x))).collect();
            for i in (1..ys.len()).rev() {
                ys.swap(i, s.idx(i + 1));
            }
            Val::Map(ys)
        }
        v => v.clone(),
    }
}

fn other_value(cx: &mut Cx, ty: &Ty, v: &Val) -> (Val, &'static str) {
    let s = &mut cx.s;
    match s.weighted(&[4, 6, 2, 2, 1]) {
        0 => (reorder(s, v), "the same value"),
        1 => {
            let t = tweak(s, ty, v);
            (if s.bool() { reorder(s, &t) } else { t }, "one place changed")
        }
        2 => (redraw(s, ty, v, false), "fields excluded from equality redrawn"),
        3 => (redraw(s, ty, v, true), "fields excluded from hashing redrawn"),
        _ => (gen_val(s, ty), "another value"),
    }
}

/// A value made in one of several ways and left in some cache state.
fn realize(cx: &mut Cx, t: &dyn Target, v: &Val) -> Result<Box<dyn Inst>, String> {
    let ty = t.ty();
    let mut x = match cx.s.weighted(&[4, 2, 2, 1]) {
        0 => t.build(v),
        1 => {
            let b = encode(&ty, v);
            with_reader(&mut &b[..], |r| t.deserialize(r)).map_err(|e| format!("deserialization failed: {}", e))?
        }
        2 => {
            let mut x = t.default();
            merge_bytes(&mut *x, &encode(&ty, v)).map_err(|e| format!("merge failed: {}", e))?;
            x
        }
        _ => t.build(v).clone_box(),
    };
    if t.is_state() && cx.s.bool() {
        let (_, rt) = new_tap();
        x.set_runtime(at(&rt, &base(&mut cx.s)));
    }
    stir(cx, &*x);
    Ok(x)
}

/// Leaves caches in some state.
fn stir(cx: &mut Cx, x: &dyn Inst) {
    match cx.s.below(4) {
        0 => drop(x.to_bytes()),
        1 => drop(x.cache_size()),
        2 => drop(x.compute_size()),
        _ => (),
    }
}

fn compare(cx: &mut Cx, ty: &Ty, x: &dyn Inst, v: &Val, y: &dyn Inst, w: &Val, how: &str) -> Out {
    let want = mask_no_eq(ty, v, false).canon() == mask_no_eq(ty, w, false).canon();
    let got = (x.eq(y), y.eq(x));
    ensure!(
        got == (want, want),
        "{}: == says {} and {}, expected {} for {:?} and {:?}",
        how,
        got.0,
        got.1,
        want,
        v,
        w
    );
    let same_hash = mask_no_eq(ty, v, true).canon() == mask_no_eq(ty, w, true).canon();
    if let (true, Some(a), Some(b)) = (same_hash, x.hash_code(), y.hash_code()) {
        ensure!(a == b, "{}: hashes differ for {:?} and {:?}", how, v, w);
        cx.label("hashes compared");
    }
    for x in [x, y] {
        let c = x.clone_box();
        ensure!(x.eq(x), "{}: a value differs from itself", how);
        ensure!(x.eq(&*c) && c.eq(x), "{}: a value differs from its clone", how);
        ensure!(x.hash_code() == c.hash_code(), "{}: the hash of a value differs from that of its clone", how);
        ensure!(c.view().canon() == x.view().canon(), "{}: the clone of {:?} is {:?}", how, x.view(), c.view());
        ensure!(c.eq(y) == x.eq(y), "{}: a clone compares differently from its original", how);
    }
    cx.label(if want { "equal" } else { "different" });
    Ok(())
}

fn c20_any(cx: &mut Cx) -> Out {
    let t = cx.target();
    let ty = t.ty();
    let v = gen_val(&mut cx.s, &ty);
    let (w, how) = other_value(cx, &ty, &v);
    cx.note(|| format!("{}: {:?} and {:?}", how, v, w));
    let x = realize(cx, t, &v)?;
    let y = realize(cx, t, &w)?;
    compare(cx, &ty, &*x, &v, &*y, &w, how)?;
    cx.nontrivial = nodes(&v) >= 3 && how != "another value";
    Ok(())
}

fn c20_states(cx: &mut Cx) -> Out {
    let t = cx.state();
    let ty = t.ty();
    let b = base(&mut cx.s);
    let mut live = construct(cx, t, &b)?;
    let kit = kit(&[&live.rt.clone()]);
    let mut n = 0;
    for _ in 0..cx.s.count(1, 6) {
        if let Some((p, op)) = gen_op(&mut cx.s, &ty, &live.model, &kit) {
            cx.note(|| format!("{:?} at {:?}", op, p));
            live.apply(&p, &op);
            n += 1;
        }
        stir(cx, &*live.x);
    }
    live.same("a history")?;
    let (w, how) = other_value(cx, &ty, &live.model);
    cx.note(|| format!("{}: {:?} and {:?}", how, live.model, w));
    let y = realize(cx, t, &w)?;
    compare(cx, &ty, &*live.x, &live.model, &*y, &w, how)?;
    // a change through the public API shows
    if let Some((p, op)) = gen_op(&mut cx.s, &ty, &live.model, &kit) {
        cx.note(|| format!("{:?} at {:?} on a clone", op, p));
        let (before, old) = (live.x.clone_box(), live.model.clone());
        live.apply(&p, &op);
        let model = live.model.clone();
        compare(cx, &ty, &*live.x, &model, &*before, &old, "before and after an operation")?;
    }
    cx.nontrivial = n >= 2 && nodes(&w) >= 3;
    Ok(())
}

fn maybes<T: Bind + State + Debug>(cx: &mut Cx, to_option: Option<fn(&Maybe<T>) -> Option<T>>) -> Out {
    let ty = T::ty();
    let opt = |s: &mut Src| if s.chance(1, 4) { None } else { Some(gen_small(s, &ty)) };
    let a = opt(&mut cx.s);
    let b = match (&a, cx.s.below(3)) {
        (a, 0) => a.clone(),
        (Some(x), 1) => Some(tweak(&mut cx.s, &ty, x)),
        _ => opt(&mut cx.s),
    };
    cx.note(|| format!("Maybe of {}: {:?} and {:?}", show_ty(&ty), a, b));
    let build = |v: &Option<Val>| v.as_ref().map(T::build);
    let (tap, rt) = new_tap();
    let here = at(&rt, &base(&mut cx.s));
    let x: Maybe<T> = match (cx.s.below(3), build(&a)) {
        (0, Some(x)) => Maybe::some(here.clone(), x),
        (0, None) => Maybe::none(here.clone()),
        (1, x) => Maybe::from_option(here.clone(), x),
        (_, x) => {
            let mut m = Maybe::with_runtime(here.clone());
            if let Some(x) = x {
                m.set_some_value(x);
            }
            m
        }
    };
    let want = a == b;
    ensure!((x == build(&b)) == want, "Maybe {:?} == Option {:?} says {}", a, b, !want);
    ensure!((x != build(&b)) != want, "Maybe {:?} != Option {:?} says {}", a, b, want);
    ensure!(x == build(&a), "Maybe {:?} differs from the same Option", a);
    ensure!(x.is_some() == a.is_some() && x.is_none() == a.is_none(), "is_some or is_none of {:?} is wrong", a);
    if let Some(f) = to_option {
        ensure!(f(&x) == build(&a), "to_option of {:?} is wrong", a);
    }
    let y = Maybe::from_option(Runtime::new(), build(&b));
    ensure!((x == y) == want && (y == x) == want, "Maybe {:?} == Maybe {:?} says {}", a, b, !want);
    let z = x.clone();
    ensure!(z == x && z == build(&a), "a clone of Maybe {:?} differs", a);
    cx.nontrivial = a.is_some() && b.is_some();
    let _ = tap;
    Ok(())
}

fn c20_maybe(cx: &mut Cx) -> Out {
    match cx.s.below(6) {
        0 => maybes::<u8>(cx, Some(Maybe::to_option)),
        1 => maybes::<i64>(cx, Some(Maybe::to_option)),
        2 => maybes::<bool>(cx, Some(Maybe::to_option)),
        3 => maybes::<Item>(cx, None),
        4 => maybes::<List<u16>>(cx, None),
        _ => maybes::<Maybe<u8>>(cx, None),
    }
}

// ---------------------------------------------------------------- C21

/// A runtime for a collection: its logger may keep, pause or drop entries.
fn any_runtime(cx: &mut Cx) -> Runtime {
    let rt = match cx.s.below(4) {
        0 => Runtime::new(),
        1 => Runtime::with_logger(NoopLogger),
        _ => Tap::default().runtime(),
    };
    let rt = at(&rt, &base(&mut cx.s));
    if cx.s.chance(1, 6) {
        rt.pause_logger();
    }
    rt
}

fn few(cx: &mut Cx, ty: &Ty, n: u64) -> Vec<Val> {
    if n > 1 && cx.s.chance(1, 500) {
        // many
        let vs: Vec<Val> = (0..3).map(|_| gen_small(&mut cx.s, ty)).collect();
        let n = *cx.s.pick(&[127, 128, 129, 255, 256, 257, 300]);
        return (0..n).map(|_| cx.s.pick(&vs).clone()).collect();
    }
    let n = cx.s.below(n + 1);
    (0..n).map(|_| gen_small(&mut cx.s, ty)).collect()
}

/// A value of an item, perhaps attached elsewhere.
fn item<T: Bind + State>(cx: &mut Cx, v: &Val) -> T {
    let mut x = T::build(v);
    if cx.s.chance(1, 4) {
        x.set_runtime(any_runtime(cx));
    }
    x
}

fn list_ops<T: Bind + State>(cx: &mut Cx) -> Out {
    let ty = T::ty();
    let rt = any_runtime(cx);
    let mut want = few(cx, &ty, 6);
    let items: Vec<T> = want.iter().map(|v| item(cx, v)).collect();
    cx.note(|| format!("List of {}: {:?}", show_ty(&ty), want));
    let mut x: List<T> = match cx.s.below(5) {
        0 => List::from_iter(rt, items),
        1 => {
            let mut x: List<T> = items.into_iter().collect();
            x.set_runtime(rt);
            x
        }
        2 => {
            let mut x = List::new(rt);
            items.into_iter().for_each(|i| drop(x.push(i)));
            x
        }
        3 => {
            want = vec![];
            List::new(rt)
        }
        _ => {
            let mut x = List::default();
            x.set_runtime(rt);
            want = vec![];
            x
        }
    };
    let mut removed = 0;
    let n = cx.s.count(1, 14);
    for _ in 0..n {
        let len = want.len();
        // mostly valid indices
        let i = match cx.s.weighted(&[8, 1, 1]) {
            0 if len > 0 => cx.s.idx(len),
            1 => len,
            _ => len + cx.s.idx(3),
        };
        let call = cx.s.weighted(&[6, 3, 3, 4, 2, 3, 2, 2, 2, 2, 1, 1]);
        match call {
            0 => {
                let v = gen_small(&mut cx.s, &ty);
                cx.note(|| format!("push {:?}", v));
                let y = item(cx, &v);
                let got = x.push(y);
                ensure!(got == len, "push returned the index {} for the item at {}", got, len);
                want.push(v);
            }
            1 => {
                let v = gen_small(&mut cx.s, &ty);
                cx.note(|| format!("push_with {:?}", v));
                let mut runs = 0;
                let got = x.push_with(|rt| {
                    runs += 1;
                    let mut y = T::build(&v);
                    y.set_runtime(rt);
                    y
                });
                ensure!(got == len && runs == 1, "push_with returned the index {} for the item at {}, calling the closure {} times", got, len, runs);
                want.push(v);
            }
            2 => {
                cx.note(|| "pop".into());
                let (got, w) = (x.pop().map(|x| x.view()), want.pop());
                ensure!(got.as_ref().map(Val::canon) == w.as_ref().map(Val::canon), "pop returned {:?}, expected {:?}", got, w);
                removed += w.is_some() as u32;
            }
            3 => {
                cx.note(|| format!("swap_remove {}", i));
                let got = x.swap_remove(i).map(|x| x.view());
                let w = if i < len { Some(want.swap_remove(i)) } else { None };
                ensure!(got.as_ref().map(Val::canon) == w.as_ref().map(Val::canon), "swap_remove({}) of {} items returned {:?}, expected {:?}", i, len, got, w);
                removed += w.is_some() as u32;
            }
            4 => {
                let got = x.get(i).map(|x| x.view());
                ensure!(got.as_ref().map(Val::canon) == want.get(i).map(Val::canon), "get({}) of {} items returned {:?}", i, len, got);
            }
            5 | 6 if i < len => {
                let v = gen_small(&mut cx.s, &ty);
                cx.note(|| format!("overwrite {} by {:?}", i, v));
                let y: T = item(cx, &v);
                match call {
                    5 => *x.get_mut(i).ok_or("get_mut of an existing item returned nothing")? = y,
                    _ => x[i] = y,
                }
                want[i] = v;
                removed += 1;
            }
            5 | 6 => ensure!(x.get_mut(i).is_none(), "get_mut({}) of {} items returned an item", i, len),
            7 if i < len => {
                let got = x[i].view();
                ensure!(got.canon() == want[i].canon(), "[{}] is {:?}, expected {:?}", i, got, want[i]);
            }
            8 => {
                let vs = few(cx, &ty, 1);
                if let Some(v) = vs.first() {
                    cx.note(|| format!("overwrite all by {:?} through iter_mut", v));
                    let mut n = 0;
                    for y in if cx.s.bool() { x.iter_mut() } else { (&mut x).into_iter() } {
                        *y = T::build(v);
                        n += 1;
                    }
                    ensure!(n == len, "iter_mut yields {} of {} items", n, len);
                    want.iter_mut().for_each(|w| *w = v.clone());
                }
            }
            9 => {
                let c = x.clone();
                ensure!(c == x, "a clone differs");
                if cx.s.bool() {
                    cx.note(|| "continue with a clone".into());
                    x = c;
                }
            }
            10 => {
                ensure!(x.first().map(|x| x.view().canon()) == want.first().map(Val::canon), "first is wrong");
                ensure!(x.last().map(|x| x.view().canon()) == want.last().map(Val::canon), "last is wrong");
            }
            _ => {
                let b: Vec<Val> = x.iter().rev().map(|x| x.view().canon()).collect();
                let w: Vec<Val> = want.iter().rev().map(Val::canon).collect();
                ensure!(b == w, "backwards, the list yields {:?}, expected {:?}", b, w);
            }
        }
        let wc: Vec<Val> = want.iter().map(Val::canon).collect();
        let by_iter: Vec<Val> = x.iter().map(|x| x.view().canon()).collect();
        ensure!(by_iter == wc, "the list yields {:?}, expected {:?}", by_iter, wc);
        let by_ref: Vec<Val> = (&x).into_iter().map(|x| x.view().canon()).collect();
        ensure!(by_ref == wc, "&list yields {:?}, expected {:?}", by_ref, wc);
        let by_mut: Vec<Val> = x.iter_mut().map(|x| x.view().canon()).collect();
        ensure!(by_mut == wc, "iter_mut yields {:?}, expected {:?}", by_mut, wc);
        let by_index: Vec<Val> = (0..want.len()).map(|i| x[i].view().canon()).collect();
        ensure!(by_index == wc, "indices yield {:?}, expected {:?}", by_index, wc);
        ensure!(x.len() == wc.len() && x.is_empty() == wc.is_empty(), "len is {}, expected {}", x.len(), wc.len());
        ensure!(x.get(wc.len()).is_none() && x.get_mut(wc.len()).is_none(), "there is an item past the end");
    }
    cx.nontrivial = n >= 5 && removed > 0;
    Ok(())
}

fn c21_list(cx: &mut Cx) -> Out {
    match cx.s.below(9) {
        0 => list_ops::<u8>(cx),
        1 => list_ops::<i64>(cx),
        2 => list_ops::<bool>(cx),
        3 => list_ops::<Item>(cx),
        4 => list_ops::<List<u16>>(cx),
        5 => list_ops::<Maybe<u8>>(cx),
        6 => list_ops::<Map<u16, Item>>(cx),
        7 => list_ops::<Box<Item>>(cx),
        _ => list_ops::<Maybe<List<Item>>>(cx),
    }
}

fn map_ops<K: KeyBind, T: Bind + State>(cx: &mut Cx) -> Out
where
    Map<K, T>: Clone,
{
    let ty = T::ty();
    let rt = any_runtime(cx);
    // few keys, so that they meet
    let mut keys: Vec<u32> = (0..5).map(|_| gen_key(&mut cx.s, K::BITS)).collect();
    let vals = few(cx, &ty, 6);
    if vals.len() > 100 {
        keys.extend((0..vals.len() as u32).filter(|k| key_ok(K::BITS, *k)));
    }
    let pairs: Vec<(u32, Val)> = match vals.len() > 100 {
        true => keys.iter().copied().zip(vals).collect(),
        _ => vals.into_iter().map(|v| (*cx.s.pick(&keys), v)).collect(),
    };
    cx.note(|| format!("Map of {} by {} bits: {:?}", show_ty(&ty), K::BITS, pairs));
    let items: Vec<(K, T)> = pairs.iter().map(|(k, v)| (K::from_u32(*k), item(cx, v))).collect();
    let mut want: BTreeMap<u32, Val> = pairs.into_iter().collect();
    let mut x: Map<K, T> = match cx.s.below(5) {
        0 => Map::from_iter(rt, items),
        1 => {
            let mut x: Map<K, T> = items.into_iter().collect();
            x.set_runtime(rt);
            x
        }
        2 => {
            let mut x = Map::new(rt);
            items.into_iter().for_each(|(k, y)| drop(x.insert(k, y)));
            x
        }
        3 => {
            want.clear();
            Map::new(rt)
        }
        _ => {
            let mut x = Map::default();
            x.set_runtime(rt);
            want.clear();
            x
        }
    };
    let mut removed = 0;
    let n = cx.s.count(1, 14);
    for _ in 0..n {
        let k = *cx.s.pick(&keys);
        let key = K::from_u32(k);
        let here = want.get(&k).map(Val::canon);
        let call = cx.s.weighted(&[6, 3, 5, 2, 3, 2, 2, 2, 2, 1]);
        match call {
            0 => {
                let v = gen_small(&mut cx.s, &ty);
                cx.note(|| format!("insert {} {:?}", k, v));
                let y = item(cx, &v);
                let got = x.insert(key, y).map(|x| x.view().canon());
                ensure!(got == here, "insert({}) returned {:?}, expected {:?}", k, got, here);
                want.insert(k, v);
                removed += here.is_some() as u32;
            }
            1 => {
                let v = gen_small(&mut cx.s, &ty);
                cx.note(|| format!("insert_with {} {:?}", k, v));
                let mut runs = 0;
                let got = x
                    .insert_with(key, |rt| {
                        runs += 1;
                        let mut y = T::build(&v);
                        y.set_runtime(rt);
                        y
                    })
                    .map(|x| x.view().canon());
                ensure!(got == here && runs == 1, "insert_with({}) returned {:?}, expected {:?}, calling the closure {} times", k, got, here, runs);
                want.insert(k, v);
                removed += here.is_some() as u32;
            }
            2 => {
                cx.note(|| format!("remove {}", k));
                let got = x.remove(&key).map(|x| x.view().canon());
                ensure!(got == here, "remove({}) returned {:?}, expected {:?}", k, got, here);
                want.remove(&k);
                removed += here.is_some() as u32;
            }
            3 => {
                let got = x.get(&key).map(|x| x.view().canon());
                ensure!(got == here, "get({}) returned {:?}, expected {:?}", k, got, here);
            }
            4 | 5 if here.is_some() => {
                let v = gen_small(&mut cx.s, &ty);
                cx.note(|| format!("overwrite {} by {:?}", k, v));
                let y: T = item(cx, &v);
                match call {
                    4 => *x.get_mut(&key).ok_or("get_mut of an existing key returned nothing")? = y,
                    _ => x[&key] = y,
                }
                want.insert(k, v);
                removed += 1;
            }
            4 | 5 => ensure!(x.get_mut(&key).is_none(), "get_mut of the absent key {} returned an entry", k),
            6 if here.is_some() => {
                let got = x[&key].view().canon();
                ensure!(Some(&got) == here.as_ref(), "[{}] is {:?}, expected {:?}", k, got, here);
            }
            7 => {
                if let Some(v) = few(cx, &ty, 1).pop() {
                    cx.note(|| format!("overwrite all by {:?} through iter_mut", v));
                    let mut seen = vec![];
                    for (k, y) in if cx.s.bool() { x.iter_mut() } else { (&mut x).into_iter() } {
                        seen.push(k.to_u32());
                        *y = T::build(&v);
                    }
                    seen.sort();
                    ensure!(seen.iter().eq(want.keys()), "iter_mut yields the keys {:?} of {:?}", seen, want.keys());
                    want.values_mut().for_each(|w| *w = v.clone());
                }
            }
            8 => {
                let c = x.clone();
                if cx.s.bool() {
                    cx.note(|| "continue with a clone".into());
                    x = c;
                }
            }
            _ => ensure!(x.contains(&key) == here.is_some(), "contains({}) is {}", k, here.is_none()),
        }
        let wc: Vec<(u32, Val)> = want.iter().map(|(k, v)| (*k, v.canon())).collect();
        let order = |mut xs: Vec<(u32, Val)>| {
            xs.sort();
            xs
        };
        let by_iter = order(x.iter().map(|(k, x)| (k.to_u32(), x.view().canon())).collect());
        ensure!(by_iter == wc, "the map yields {:?}, expected {:?}", by_iter, wc);
        let by_ref = order((&x).into_iter().map(|(k, x)| (k.to_u32(), x.view().canon())).collect());
        ensure!(by_ref == wc, "&map yields {:?}, expected {:?}", by_ref, wc);
        let by_mut = order(x.iter_mut().map(|(k, x)| (k.to_u32(), x.view().canon())).collect());
        ensure!(by_mut == wc, "iter_mut yields {:?}, expected {:?}", by_mut, wc);
        ensure!(x.len() == wc.len(), "len is {}, expected {}", x.len(), wc.len());
        for k in &keys {
            let key = K::from_u32(*k);
            let w = want.get(k).map(Val::canon);
            ensure!(x.contains(&key) == w.is_some(), "contains({}) is {}", k, w.is_none());
            ensure!(x.get(&key).map(|x| x.view().canon()) == w, "get({}) is not {:?}", k, w);
            ensure!(x.get_mut(&key).map(|x| x.view().canon()) == w, "get_mut({}) is not {:?}", k, w);
            if w.is_some() {
                ensure!(Some(x[&key].view().canon()) == w, "[{}] is not {:?}", k, w);
            }
        }
    }
    cx.nontrivial = n >= 5 && removed > 0;
    Ok(())
}

fn c21_map(cx: &mut Cx) -> Out {
    match cx.s.below(10) {
        0 => map_ops::<u8, u8>(cx),
        1 => map_ops::<u16, i64>(cx),
        2 => map_ops::<u32, bool>(cx),
        3 => map_ops::<u8, Item>(cx),
        4 => map_ops::<u32, Item>(cx),
        5 => map_ops::<u16, List<u16>>(cx),
        6 => map_ops::<Port, Item>(cx),
        7 => map_ops::<Port, u32>(cx),
        8 => map_ops::<u32, Map<u8, Item>>(cx),
        _ => map_ops::<u16, Maybe<Item>>(cx),
    }
}

// ---------------------------------------------------------------- C22

fn c22_new(cx: &mut Cx) -> Out {
    let t = cx.target();
    let ty = t.ty();
    let want = default_val(&ty);
    same_val(&want, &t.default().view(), "default")?;
    let (tap, rt) = new_tap();
    let b = base(&mut cx.s);
    let here = at(&rt, &b);
    cx.note(|| format!("at {:?}", b));
    if t.is_state() {
        let x = t.with_runtime(here.clone());
        same_val(&want, &x.view(), "with_runtime")?;
        engine::live::wired(&*x, &rt, &b, &ty, "with_runtime")?;
    }
    let xs = t.ctors(&here);
    let mut fields = 0;
    if let Ty::Msg(id) = &ty {
        let d = def(*id);
        for (i, x) in xs.iter().enumerate() {
            let (want, name) = match i {
                0 => (default_val(&ty), "the default constructor".to_string()),
                i => (default_variant(*id, i - 1), format!("the constructor of {}", d.vars[i - 1].name)),
            };
            same_val(&want, &x.view(), &name)?;
            if t.is_state() {
                engine::live::wired(&**x, &rt, &b, &ty, &name)?;
            }
            let size = x.compute_size() as usize;
            let w = encode(&ty, &want).len();
            ensure!(size == w, "{} makes a value of the size {}, expected {}", name, size, w);
        }
        ensure!(xs.len() == if d.is_enum { 1 + d.vars.len() } else { 1 } || d.builtin || xs.is_empty(), "harness: {} constructors", xs.len());
        fields = d.vars.iter().map(|v| v.fields.len()).sum();
    }
    ensure!(tap.len() == 0, "construction logged {:?}", tap.since(0));
    cx.nontrivial = fields >= 3;
    Ok(())
}

/// The place a closure of the operation must be given.
fn target_path(op: &Op, want: &[Entry]) -> Option<Vec<u32>> {
    match (op, want.last()?) {
        (_, Entry::Update(p, _)) => Some(p.clone()),
        _ => None,
    }
}

fn c22_state(cx: &mut Cx) -> Out {
    let t = cx.state();
    let b = base(&mut cx.s);
    let mut live = construct(cx, t, &b)?;
    let (_ftap, frt) = new_tap();
    let kit = kit(&[&frt, &live.rt.clone()]);
    let (mut calls, mut special) = (0, 0);
    for _ in 0..cx.s.count(2, 10) {
        let Some((p, op)) = gen_op(&mut cx.s, &live.ty, &live.model, &kit) else { return Ok(()) };
        cx.note(|| format!("{:?} at {:?}", op, p));
        let before = live.model.clone();
        WITH.with(|w| w.borrow_mut().clear());
        let (want_res, res, want) = live.apply(&p, &op);
        let given = WITH.with(|w| w.borrow().clone());
        ensure!(res.canon() == want_res.canon(), "{:?} returned {:?}, expected {:?}", op, res, want_res);
        live.same(&format!("{:?} at {:?}", op, p))?;
        if let Op::Set { how, .. } = &op {
            calls += 1;
            special += (want.len() > 1) as u32;
            match how {
                How::With | How::WithOps(_) => {
                    special += 1;
                    ensure!(!given.is_empty(), "the closure of {:?} was not called", op);
                    ensure!(given.len() == 1 || matches!(how, How::WithOps(_)), "the closure of {:?} was called {} times", op, given.len());
                    let rt = &given[0];
                    let path = rt.path().collect_values();
                    let at = target_path(&op, &want).expect("harness: a setter without an update");
                    ensure!(path == at, "the closure of {:?} was given the path {:?}, expected {:?}", op, path, at);
                    ensure!(std::sync::Arc::ptr_eq(rt.logger(), live.rt.logger()), "the closure of {:?} was given another logger", op);
                }
                _ => ensure!(given.is_empty(), "harness: a closure without a closure"),
            }
        }
        let _ = before;
    }
    cx.nontrivial = calls >= 3 && special >= 1;
    Ok(())
}

/// The messages with setters within a plain value, reachable through fields.
fn plain_places(ty: &Ty, v: &Val, at: &mut Vec<Step>, out: &mut Vec<(Vec<Step>, usize)>) {
    if let (Ty::Msg(id), Val::Msg(vi, fs)) = (strip(ty), v) {
        let d = def(*id);
        if !d.setters || d.is_state {
            return;
        }
        if d.vars.iter().any(|v| !v.fields.is_empty()) {
            out.push((at.clone(), *id));
        }
        for (i, (fd, x)) in d.vars[*vi].fields.iter().zip(fs).enumerate() {
            at.push(Step::F(*vi, i));
            plain_places(&fd.ty, x, at, out);
            at.pop();
        }
    }
}

fn c22_plain(cx: &mut Cx) -> Out {
    let env = cx.env;
    let able: Vec<usize> = env
        .plains
        .iter()
        .copied()
        .filter(|i| match env.targets[*i].ty() {
            Ty::Msg(id) => {
                let d = def(id);
                d.setters && !d.is_state && d.vars.iter().any(|v| !v.fields.is_empty())
            }
            _ => false,
        })
        .collect();
    if able.is_empty() {
        return Ok(());
    }
    let t = &*env.targets[*cx.s.pick(&able)];
    cx.note(|| format!("type {}", t.name()));
    let ty = t.ty();
    let mut model = gen_val(&mut cx.s, &ty);
    let mut x = t.build(&model);
    cx.note(|| format!("{:?}", model));
    let (mut calls, mut special) = (0, 0);
    for _ in 0..cx.s.count(1, 8) {
        let mut ps = vec![];
        plain_places(&ty, &model, &mut vec![], &mut ps);
        let (path, id) = cx.s.pick(&ps).clone();
        let d = def(id);
        let all: Vec<(usize, usize)> =
            d.vars.iter().enumerate().flat_map(|(i, v)| (0..v.fields.len()).map(move |j| (i, j))).collect();
        let (var, field) = *cx.s.pick(&all);
        let fty = &d.vars[var].fields[field].ty;
        let val = match cx.s.below(4) {
            0 => default_val(fty),
            _ => gen_small(&mut cx.s, fty),
        };
        let op = Op::Set { var, field, val, how: How::Plain };
        cx.note(|| format!("{:?} at {:?}", op, path));
        let before = model.clone();
        let mut log = vec![];
        apply(&ty, &mut model, &path, &op, &mut vec![], &mut log);
        x.apply(&path, &op);
        same_val(&model, &x.view(), &format!("{:?} at {:?}", op, path))?;
        let (bytes, want) = (x.to_bytes(), encode(&ty, &model));
        ensure!(bytes.len() == want.len(), "{:?} at {:?}: {} bytes are written, expected {}", op, path, bytes.len(), want.len());
        calls += 1;
        special += (before != model) as u32;
    }
    cx.nontrivial = calls >= 3 && special >= 2;
    Ok(())
}

/// Setters in one chain, the later ones after the earlier ones.
fn c22_chain(cx: &mut Cx) -> Out {
    let ty = Item::ty();
    let mut model = gen_small(&mut cx.s, &ty);
    let mut x = Item::build(&model);
    let (tap, rt) = new_tap();
    x.set_runtime(rt.clone());
    let fds = &match &ty {
        Ty::Msg(id) => def(*id),
        _ => unreachable!(),
    }
    .vars[0]
        .fields;
    let draw = |s: &mut Src, i: usize| gen_small(s, &fds[i].ty);
    let (a, b, c, d, e) = (draw(&mut cx.s, 0), draw(&mut cx.s, 1), draw(&mut cx.s, 2), draw(&mut cx.s, 3), draw(&mut cx.s, 0));
    cx.note(|| format!("{:?}: n={:?} xs={:?} m={:?} e={:?} n={:?}", model, a, b, c, d, e));
    x.set_n(Bind::build(&a))
        .set_xs_with(|rt| {
            let mut l: List<u16> = List::new(rt);
            for v in b.seq() {
                l.push(u16::build(v));
            }
            l
        })
        .set_m(Bind::build(&c))
        .set_e_with(|rt| {
            let mut e = <Maybe<Maybe<u8>> as Bind>::build(&d);
            e.set_runtime(rt);
            e
        })
        .set_n(Bind::build(&e));
    for (i, v) in [(1, &b), (2, &c), (3, &d), (0, &e)] {
        poke_model(&mut model, &[Step::F(0, i)], v);
    }
    same_val(&model, &x.view(), "a chain of setters")?;
    let got = tap.since(0);
    let paths: Vec<Vec<u32>> = got.iter().map(|e| e.path().to_vec()).collect();
    let want: Vec<Vec<u32>> = [0usize, 1, 2, 3, 0].iter().map(|i| vec![fds[*i].tag]).collect();
    ensure!(paths == want, "a chain of setters logged {:?}", got);
    let mut bad = None;
    x.wiring(&mut vec![], &mut |at, r| {
        if r.path().collect_values() != at || !std::sync::Arc::ptr_eq(r.logger(), rt.logger()) {
            bad = Some(at.to_vec());
        }
    });
    ensure!(bad.is_none(), "a chain of setters left the node at {:?} attached elsewhere", bad);
    cx.nontrivial = true;
    Ok(())
}
