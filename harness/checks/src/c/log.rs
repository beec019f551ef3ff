//! C10-C18: mutation, logging, replication.

use std::io;

use engine::{
    bind::{Bind, WITH},
    inst::{Inst, Target},
    io::Feed,
    live::{at, new_tap, same_val, wired, with_reader, Live, Tap},
    model::*,
    ops::{gen_op, places, Kit},
    val::*,
};
use steit::{
    de::{Deserialize, Reader},
    rt::Runtime,
    state::State,
    types::{List, Map, Maybe},
};

use super::wire::{ser, sizes};
use crate::{
    cx::{Check, Cx, Out},
    gen::*,
    item::Item,
};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C10",
            quick: 300_000,
            thorough: 4_000_000,
            rule: "A case draws a state type, an initial value and a sequence of mutations through the state API (values wired elsewhere beforehand, *_with closures, nested access by every accessor); replicas made by construction, deserialization and cloning replay the bytes of the log in single entries, random batches, or all at the end. Non-trivial: at least three mutations that changed the value.",
            scenarios: &[(4, "stepwise", c10_steps), (2, "batches", c10_batches)],
        },
        Check {
            id: "C11",
            quick: 700_000,
            thorough: 5_000_000,
            rule: "A case draws a state type, a position of attachment and a history of mutations, merges, replays and clones; every mutation's return value, contents and log entries are compared with the model. Non-trivial: at least three entries were expected.",
            scenarios: &[(1, "history", c11)],
        },
        Check {
            id: "C12",
            quick: 600_000,
            thorough: 4_000_000,
            rule: "A case draws a state type and a sequence of constructions, decodings, merges, replays (valid and damaged), clones, comparisons, serializations, reads and rewirings around attached states, with closures of *_with setters in between; the log length must not move. Non-trivial: at least four silent operations on a state with three or more nodes.",
            scenarios: &[(5, "any type", c12_any), (2, "collections", c12_typed)],
        },
        Check {
            id: "C13",
            quick: 1_500_000,
            thorough: 4_000_000,
            rule: "A case draws runtimes and states that share one logger and a sequence of pauses, unpauses, direct log calls and mutations, with pauses inside *_with closures and replacements of the inner logger; return values, entries and contents are compared with a counting model. Non-trivial: an entry was logged after at least two pauses, and one was dropped.",
            scenarios: &[(4, "history", c13), (2, "closures", c13_closures)],
        },
        Check {
            id: "C14",
            quick: 500_000,
            thorough: 4_000_000,
            rule: "A case draws a state type, a way to construct it and a history of mutations, merges (also damaged ones), replays, updates of inner nodes and re-attachments; after every step every node's path and logger are compared with its position; or runtimes are derived from each other and compared with a model path; or a list of lists around 256 or 65536 items long is built in one of five ways and then grows, shrinks, swaps and moves, and its items are asked for their paths and mutated. Non-trivial: at least three steps, and a node at depth two or more; or two siblings or parents; or three steps on a long list.",
            scenarios: &[(6000, "history", c14), (400, "runtimes", c14_runtimes), (1, "long lists", c14_long)],
        },
        Check {
            id: "C15",
            quick: 500_000,
            thorough: 4_000_000,
            rule: "A case attaches a state in turn to several positions of two logs, or moves values between lists and maps of several logs, and mutates them at each stop; contents stay, and entries appear only in the right log at the right paths. Non-trivial: at least two re-attachments with a mutation after each.",
            scenarios: &[(3, "re-attach", c15_attach), (3, "move", c15_move)],
        },
        Check {
            id: "C16",
            quick: 400_000,
            thorough: 4_000_000,
            rule: "A case runs a history of mutations and takes snapshots at random moments (of the live state or of a replica); each snapshot plus the entries logged since must reproduce the live state at later moments. Non-trivial: a snapshot after the first and before the last mutation.",
            scenarios: &[(1, "history", c16)],
        },
        Check {
            id: "C17",
            quick: 300_000,
            thorough: 8_000_000,
            rule: "A case draws a state and a log of valid, damaged, misaddressed and hostile entries, noise and torn ends; the outcome is compared with the model entry by entry, and the state is used afterwards. Non-trivial: an entry after the first is reported as an error.",
            scenarios: &[(5, "entries", c17), (1, "bytes", c17_bytes)],
        },
        Check {
            id: "C18",
            quick: 1_000_000,
            thorough: 4_000_000,
            rule: "A case draws a state type, an attachment and a history; is_root and is_child of the state and every node below are compared with the position, and a valid log is replayed on the root and on a node below. Non-trivial: a replay that changes the root, or a refused one below it.",
            scenarios: &[(1, "nodes", c18)],
        },
    ]
}

// ---------------------------------------------------------------- helpers

pub fn replay(x: &mut dyn Inst, bytes: &[u8]) -> io::Result<()> {
    let mut f = Feed::new(bytes);
    with_reader(&mut f, |r| x.replay(r))
}

pub fn merge_bytes(x: &mut dyn Inst, bytes: &[u8]) -> io::Result<()> {
    let mut f = Feed::new(bytes);
    with_reader(&mut f, |r| x.merge(r))
}

/// A state at `base`, constructed in one of many ways.
pub fn construct(cx: &mut Cx, t: &dyn Target, base: &[u32]) -> Result<Live, String> {
    let ty = t.ty();
    let (tap, rt) = new_tap();
    let here = at(&rt, base);
    let (x, model) = match cx.s.weighted(&[8, 1, 2, 2, 2, 1, 2]) {
        0 => {
            let v = gen_val(&mut cx.s, &ty);
            let mut x = t.build(&v);
            x.set_runtime(here);
            (x, v)
        }
        1 => (t.with_runtime(here), default_val(&ty)),
        2 => {
            let mut xs = t.ctors(&here);
            match (xs.len(), &ty) {
                (n, Ty::Msg(id)) if n > 0 => {
                    let i = cx.s.idx(n);
                    let v = if i == 0 { default_val(&ty) } else { default_variant(*id, i - 1) };
                    (xs.swap_remove(i), v)
                }
                _ => (t.with_runtime(here), default_val(&ty)),
            }
        }
        3 => {
            let v = gen_val(&mut cx.s, &ty);
            let b = encode(&ty, &v);
            let mut x = with_reader(&mut &b[..], |r| t.deserialize(r)).map_err(|e| format!("deserialization failed: {}", e))?;
            x.set_runtime(here);
            (x, v)
        }
        4 => {
            let v = gen_val(&mut cx.s, &ty);
            let mut x = t.with_runtime(here);
            merge_bytes(&mut *x, &encode(&ty, &v)).map_err(|e| format!("merge failed: {}", e))?;
            (x, v)
        }
        5 => {
            let v = gen_val(&mut cx.s, &ty);
            (t.assemble(&v, here), v)
        }
        _ => {
            let v = gen_val(&mut cx.s, &ty);
            let mut x = t.build(&v);
            x.set_runtime(here);
            let y = x.clone_box();
            (y, v)
        }
    };
    let live = Live { ty, x, model, tap, rt, base: base.to_vec() };
    cx.note(|| format!("attached at {:?}: {:?}", live.base, live.model));
    live.same("construction")?;
    Ok(live)
}

pub fn kit(rts: &[&Runtime]) -> Kit {
    let mut foreign = vec![];
    for rt in rts {
        foreign.push((*rt).clone());
        foreign.push(rt.nested(1));
        foreign.push(rt.nested(0).nested(700));
    }
    Kit { foreign, with: true }
}

fn same_masked(ty: &Ty, want: &Val, got: &Val, what: &str) -> Out {
    same_val(&mask_no_state(ty, want), &mask_no_state(ty, got), what)
}

fn root_copy(t: &dyn Target, live: &Live, how: usize) -> Result<Live, String> {
    let (tap, rt) = new_tap();
    let mut x = match how {
        0 => t.build(&live.model),
        1 => {
            let b = ser(&*live.x)?;
            with_reader(&mut &b[..], |r| t.deserialize(r)).map_err(|e| format!("deserialization failed: {}", e))?
        }
        _ => live.x.clone_box(),
    };
    x.set_runtime(rt.clone());
    Ok(Live { ty: live.ty.clone(), x, model: live.model.clone(), tap, rt, base: vec![] })
}

fn frames(entries: &[Entry]) -> Vec<u8> {
    entries.iter().flat_map(|e| e.framed()).collect()
}

/// One random operation, unchecked apart from its return; false if the type has none.
fn mutate_live(cx: &mut Cx, live: &mut Live, kit: &Kit) -> Result<bool, String> {
    let Some((p, op)) = gen_op(&mut cx.s, &live.ty, &live.model, kit) else { return Ok(false) };
    cx.note(|| format!("{:?} at {:?}", op, p));
    live.apply(&p, &op);
    live.same("a mutation")?;
    Ok(true)
}

// ---------------------------------------------------------------- C10

fn c10_steps(cx: &mut Cx) -> Out {
    let t = cx.state();
    let mut live = construct(cx, t, &[])?;
    live.tap.pluck_bytes();
    let mut replicas = vec![root_copy(t, &live, 0)?, root_copy(t, &live, 1)?, root_copy(t, &live, 2)?];
    let (ftap, frt) = new_tap();
    let kit = kit(&[&frt, &live.rt.clone()]);
    let (n, mut changed) = (cx.s.count(2, 14), 0);
    for _ in 0..n {
        let before = live.model.clone();
        let mark = live.tap.len();
        if !mutate_live(cx, &mut live, &kit)? {
            return Ok(());
        }
        changed += (before != live.model) as u32;
        let entries = live.tap.since(mark);
        let bytes = live.tap.pluck_bytes();
        for (i, r) in replicas.iter_mut().enumerate() {
            let res = if i == 0 {
                entries.iter().try_for_each(|e| replay(&mut *r.x, &e.framed()))
            } else {
                replay(&mut *r.x, &bytes)
            };
            res.map_err(|e| format!("replaying {:?} failed: {}", entries, e))?;
            same_masked(&live.ty, &live.model, &r.view(), &format!("replica #{} after {:?}", i, entries))?;
            ensure!(
                mask_no_state(&live.ty, &live.model) != live.model || mask_no_state(&live.ty, &r.view()) != r.view() || live.x.eq(&*r.x),
                "replica #{} does not equal the live state by == after {:?}",
                i,
                entries
            );
        }
    }
    cx.nontrivial = changed >= 3;
    let _ = ftap;
    Ok(())
}

fn c10_batches(cx: &mut Cx) -> Out {
    let t = cx.state();
    let mut live = construct(cx, t, &[])?;
    live.tap.pluck_bytes();
    let how = cx.s.idx(3);
    let mut single = root_copy(t, &live, 0)?;
    let mut batch = root_copy(t, &live, how)?;
    let (_ftap, frt) = new_tap();
    let kit = kit(&[&frt]);
    let n = cx.s.count(3, 20);
    let mut changed = 0;
    let mark = live.tap.len();
    for _ in 0..n {
        let before = live.model.clone();
        if !mutate_live(cx, &mut live, &kit)? {
            return Ok(());
        }
        changed += (before != live.model) as u32;
        if cx.s.chance(1, 4) {
            let b = live.tap.pluck_bytes();
            replay(&mut *batch.x, &b).map_err(|e| format!("replaying a batch failed: {}", e))?;
            same_masked(&live.ty, &live.model, &batch.view(), "replica after a batch")?;
        }
    }
    let b = live.tap.pluck_bytes();
    replay(&mut *batch.x, &b).map_err(|e| format!("replaying a batch failed: {}", e))?;
    same_masked(&live.ty, &live.model, &batch.view(), "replica after the last batch")?;
    let all = live.tap.since(mark);
    replay(&mut *single.x, &frames(&all)).map_err(|e| format!("replaying the whole log failed: {}", e))?;
    same_masked(&live.ty, &live.model, &single.view(), "replica after the whole log")?;
    cx.nontrivial = changed >= 3;
    Ok(())
}

// ---------------------------------------------------------------- C11

fn c11(cx: &mut Cx) -> Out {
    let t = cx.state();
    let base = base(&mut cx.s);
    let mut live = construct(cx, t, &base)?;
    let (_ftap, frt) = new_tap();
    let kit = kit(&[&frt, &live.rt.clone()]);
    let mut logged = 0;
    for _ in 0..cx.s.count(2, 12) {
        match cx.s.weighted(&[12, 2, 2, 1, 1]) {
            0 => {
                if let Some((p, op)) = gen_op(&mut cx.s, &live.ty, &live.model, &kit) {
                    cx.note(|| format!("{:?} at {:?}", op, p));
                    let mark = live.tap.len();
                    live.step(&p, &op)?;
                    logged += live.tap.len() - mark;
                }
            }
            1 => {
                let u = gen_small(&mut cx.s, &live.ty);
                cx.note(|| format!("merge {:?}", u));
                let b = encode(&live.ty, &u);
                merge(&live.ty, &mut live.model, &b).map_err(|e| format!("harness: {:?}", e))?;
                merge_bytes(&mut *live.x, &b).map_err(|e| format!("merge failed: {}", e))?;
                live.same("merge")?;
            }
            2 if base.is_empty() => {
                let mut other = Live::new(t, &live.model, &[]);
                if let Some((p, op)) = gen_op(&mut cx.s, &live.ty, &live.model, &Kit::plain()) {
                    cx.note(|| format!("replay of {:?} at {:?}", op, p));
                    other.apply(&p, &op);
                    replay(&mut *live.x, &other.tap.pluck_bytes()).map_err(|e| format!("replay failed: {}", e))?;
                    same_masked(&live.ty, &other.model, &live.view(), "replay")?;
                    live.model = live.view();
                }
            }
            3 => {
                cx.note(|| "continue with a clone".into());
                live.x = live.x.clone_box();
            }
            _ => {
                cx.note(|| "serialize".into());
                ser(&*live.x)?;
            }
        }
    }
    cx.nontrivial = logged >= 3;
    Ok(())
}

// ---------------------------------------------------------------- C12

fn silent(tap: &Tap, mark: usize, what: &str) -> Out {
    let got = tap.since(mark);
    ensure!(got.is_empty(), "{} logged {:?}", what, got);
    Ok(())
}

fn c12_any(cx: &mut Cx) -> Out {
    let t = cx.state();
    let ty = t.ty();
    let base = base(&mut cx.s);
    let mut live = construct(cx, t, &base)?;
    silent(&live.tap, 0, "construction")?;
    let (ftap, frt) = new_tap();
    let kit = kit(&[&frt, &live.rt.clone()]);
    let mut quiet = 0;
    for _ in 0..cx.s.count(3, 10) {
        let mark = live.tap.len();
        let here = at(&live.rt, &live.base);
        let what = match cx.s.weighted(&[3, 2, 2, 3, 2, 2, 2, 2, 3, 2, 2]) {
            0 => {
                // mutations log what they should, their closures nothing
                if let Some((p, op)) = gen_op(&mut cx.s, &ty, &live.model, &kit) {
                    cx.note(|| format!("{:?} at {:?}", op, p));
                    live.step(&p, &op)?;
                }
                silent(&ftap, 0, "a value wired elsewhere that was moved in")?;
                continue;
            }
            1 => {
                t.with_runtime(here.clone());
                for x in t.ctors(&here) {
                    x.view();
                }
                t.default();
                "construction"
            }
            2 => {
                let y = live.x.clone_box();
                live.x.eq(&*y);
                y.hash_code();
                live.x.hash_code();
                if cx.s.bool() {
                    live.x = y;
                }
                "cloning, comparing or hashing"
            }
            3 => {
                let (b, kind) = input(&mut cx.s, &ty);
                cx.note(|| format!("merge {:?} ({})", b, kind));
                let _ = merge_bytes(&mut *live.x, &b);
                live.model = live.view();
                "merging"
            }
            4 => {
                live.x.compute_size();
                live.x.cache_size();
                live.x.cached_size();
                ser(&*live.x)?;
                live.x.to_bytes();
                live.x.size_nested(Some(3), true).map_err(|e| e.to_string())?;
                live.view();
                "sizing, serializing or reading"
            }
            5 => {
                let mut y = live.x.clone_box();
                y.set_runtime(live.rt.nested(9));
                y.set_runtime(frt.nested(2));
                live.x.set_runtime(here);
                "rewiring"
            }
            6 => {
                let mut other = Live::new(t, &live.model, &[]);
                for _ in 0..1 + cx.s.below(4) {
                    mutate_live(cx, &mut other, &Kit::plain())?;
                }
                let b = other.tap.pluck_bytes();
                let res = replay(&mut *live.x, &b);
                cx.note(|| format!("replay: {:?}", res));
                live.model = live.view();
                "replaying"
            }
            7 => {
                let b = some_log(cx, t, &live.model);
                cx.note(|| format!("replay {:?}", b));
                let _ = replay(&mut *live.x, &b);
                live.model = live.view();
                "replaying a damaged log"
            }
            8 => {
                let v = gen_small(&mut cx.s, &ty);
                let b = encode(&ty, &v);
                let mut y = with_reader(&mut &b[..], |r| t.deserialize(r)).map_err(|e| e.to_string())?;
                y.set_runtime(here);
                if cx.s.bool() {
                    live.x = y;
                    live.model = v;
                }
                "deserializing and attaching"
            }
            9 => {
                let (p, nty) = some_place(cx, &live);
                let (b, _) = input(&mut cx.s, &nty);
                cx.note(|| format!("update of {:?} with {:?}", p, b));
                live.x.node(&p, &mut |n| {
                    let mut f = Feed::new(&b);
                    let _ = with_reader(&mut f, |r| n.handle_update(r));
                });
                live.model = live.view();
                "an update of a node"
            }
            _ => {
                let (p, _) = some_place(cx, &live);
                live.x.node(&p, &mut |n| {
                    n.view();
                    n.is_root();
                    let rt = n.runtime();
                    let _ = (rt.path().collect_values(), rt.is_root(), rt.is_child(), rt.get_field_number(), format!("{:?}", rt));
                    let _ = rt.nested(3);
                });
                "reading a node"
            }
        };
        cx.note(|| what.into());
        quiet += 1;
        silent(&live.tap, mark, what)?;
        silent(&ftap, 0, what)?;
    }
    cx.nontrivial = quiet >= 4 && live.model.nodes() >= 3;
    Ok(())
}

/// A position that holds a state (not a primitive).
pub fn some_place(cx: &mut Cx, live: &Live) -> (Vec<Step>, Ty) {
    let ps = places(&live.ty, &live.model);
    if ps.is_empty() {
        return (vec![], strip(&live.ty).clone());
    }
    let p = &ps[cx.s.idx(ps.len())];
    (p.path.clone(), p.ty.clone())
}

fn c12_typed(cx: &mut Cx) -> Out {
    fn go<T: Bind + State>(cx: &mut Cx) -> Out {
        let (tap, rt) = new_tap();
        let ty = T::ty();
        cx.note(|| format!("items of type {}", show_ty(&ty)));
        let n = 1 + cx.s.idx(4);
        let vals: Vec<Val> = (0..n).map(|_| gen_small(&mut cx.s, &ty)).collect();
        cx.nontrivial = vals.iter().any(|v| *v != default_val(&ty));
        let items = || {
            vals.iter().enumerate().map(|(i, v)| {
                let mut x = T::build(v);
                x.set_runtime(rt.nested(i as u32));
                x
            })
        };
        let here = rt.nested(4);
        let list = List::from_iter(here.clone(), items());
        silent(&tap, 0, "List::from_iter")?;
        let back: List<T> = items().collect();
        silent(&tap, 0, "collecting a List")?;
        same_val(&Val::Seq(vals.clone()), &list.view(), "List::from_iter")?;
        let _ = (list == back, list.iter().count(), list.first().is_some(), list.get(0).is_some(), list.len());
        let mut list = list;
        list.iter_mut().for_each(|x| { x.compute_size(); });
        (&mut list).into_iter().for_each(|x| { x.compute_size(); });
        let _ = (list.get_mut(0).is_some(), list.get_mut(99).is_none());
        drop(List::<T>::new(here.clone()));
        silent(&tap, 0, "using a List")?;
        let mut map = Map::<u16, T>::from_iter(here.clone(), items().enumerate().map(|(i, x)| (i as u16 * 9, x)));
        silent(&tap, 0, "Map::from_iter")?;
        let _: Map<u8, T> = items().enumerate().map(|(i, x)| (i as u8, x)).collect();
        let _ = (map.iter().count(), map.iter_mut().count(), map.get(&0).is_some(), map.get_mut(&9).is_some(), map.contains(&1), map.len());
        drop(Map::<u8, T>::new(here.clone()));
        silent(&tap, 0, "using a Map")?;
        let some = Maybe::some(here.clone(), items().next().unwrap());
        let none = Maybe::<T>::none(here.clone());
        let _ = (some.is_some(), none.is_none(), some == none);
        Maybe::from_option(here.clone(), items().next());
        Maybe::<T>::from_option(here.clone(), None);
        silent(&tap, 0, "building a Maybe")?;
        let mut boxed = Box::new(some);
        boxed.set_runtime(rt.nested(5));
        drop(Box::<List<T>>::with_runtime(here));
        silent(&tap, 0, "boxing")
    }
    let f = *cx.s.pick(&[go::<u8>, go::<i64>, go::<bool>, go::<Maybe<u16>>, go::<List<u8>>, go::<Map<u8, List<i8>>>, go::<Item>, go::<Box<Item>>, go::<Maybe<Item>>]);
    f(cx)
}

/// Bytes of a log for `v`: mostly valid entries, some damage.
fn some_log(cx: &mut Cx, t: &dyn Target, v: &Val) -> Vec<u8> {
    let mut other = Live::new(t, v, &[]);
    for _ in 0..cx.s.count(1, 4) {
        if let Some((p, op)) = gen_op(&mut cx.s, &other.ty, &other.model, &Kit::plain()) {
            other.apply(&p, &op);
        }
    }
    let mut b = frames(&other.tap.since(0));
    for _ in 0..cx.s.below(3) {
        let c = b.clone();
        mutate(&mut cx.s, &mut b, &c);
    }
    b
}

// ---------------------------------------------------------------- C13

fn rand_entry(cx: &mut Cx) -> Entry {
    let n = if cx.s.chance(1, 100) { *cx.s.pick(&[20, 126, 127, 128, 130, 300]) } else { cx.s.idx(4) };
    let path: Vec<u32> = (0..n).map(|_| gen_key(&mut cx.s, 32)).collect();
    match cx.s.idx(4) {
        0 => Entry::Update(path, gen_bytes(&mut cx.s)),
        1 => Entry::Push(path, gen_bytes(&mut cx.s)),
        2 => Entry::Pop(path),
        _ => Entry::Remove(path, gen_u(&mut cx.s, 32) as u32),
    }
}

/// The library's entry for a model entry.
pub fn lib_entry(e: &Entry) -> steit::log::LogEntry {
    use steit::{log::LogEntry, rt::SizeCache, types::Bytes};
    match e {
        Entry::Update(p, b) => LogEntry::Update { path: p.clone(), value: Bytes::from_raw(b.clone()), size_cache: SizeCache::new() },
        Entry::Push(p, b) => LogEntry::ListPush { path: p.clone(), item: Bytes::from_raw(b.clone()), size_cache: SizeCache::new() },
        Entry::Pop(p) => LogEntry::ListPop { path: p.clone(), size_cache: SizeCache::new() },
        Entry::Remove(p, k) => LogEntry::MapRemove { path: p.clone(), key: *k, size_cache: SizeCache::new() },
    }
}

/// Logs through one of the runtime's methods; returns what it should log.
pub fn log_call(cx: &mut Cx, rt: &Runtime) -> Result<Vec<Entry>, String> {
    let path = rt.path().collect_values();
    let child = |k: u32| {
        let mut p = path.clone();
        p.push(k);
        p
    };
    let k = gen_key(&mut cx.s, 32);
    let x = gen_u(&mut cx.s, 64);
    let payload = varint(x);
    let (res, want) = match cx.s.below(12) {
        0 => (rt.log_update(&x), vec![Entry::Update(path, payload)]),
        1 => (rt.log_update_child(k, &x), vec![Entry::Update(child(k), payload)]),
        2 => (rt.log_list_push(&x), vec![Entry::Push(path, payload)]),
        3 => (rt.log_list_pop(), vec![Entry::Pop(path)]),
        4 => (rt.log_map_remove(k), vec![Entry::Remove(path, k)]),
        5 => (rt.log(rt.entry_update(&x)), vec![Entry::Update(path, payload)]),
        6 => (rt.log(rt.entry_map_remove(k)), vec![Entry::Remove(path, k)]),
        7 => {
            let es: Vec<Entry> = (0..cx.s.idx(4)).map(|_| rand_entry(cx)).collect();
            (rt.log_multi(es.iter().map(lib_entry).collect()), es)
        }
        8 => (
            rt.log_multi(vec![rt.entry_list_push(&x), rt.entry_list_pop(), rt.entry_update_child(k, &x), rt.entry_update(&x)]),
            vec![Entry::Push(path.clone(), payload.clone()), Entry::Pop(path.clone()), Entry::Update(child(k), payload.clone()), Entry::Update(path, payload)],
        ),
        9 => {
            let mut b = rt.logger().lock().unwrap();
            let e = rand_entry(cx);
            (b.log(lib_entry(&e)), vec![e])
        }
        _ => {
            let e = rand_entry(cx);
            (rt.log(lib_entry(&e)), vec![e])
        }
    };
    res.map_err(|e| format!("logging {:?} failed: {}", want, e))?;
    Ok(want)
}

fn c13(cx: &mut Cx) -> Out {
    let t = cx.state();
    let ty = t.ty();
    let tap = Tap::default();
    let (rt, handle) = Runtime::with_logger_returned(tap.clone());
    let mut taps = vec![tap];
    let (a, b) = (rt.nested(1), rt.nested(2).nested(7));
    let rts = [rt.clone(), a.clone(), a.sibling(3), b.parent(), b.clone(), rt.nested(1).clone(), b.parent().parent()];
    let v = gen_small(&mut cx.s, &ty);
    let mut x = t.build(&v);
    x.set_runtime(b.clone());
    let mut lives: Vec<Live> = vec![Live { ty: ty.clone(), x, model: v.clone(), tap: taps[0].clone(), rt: rt.clone(), base: vec![2, 7] }];
    let mut x = t.build(&v);
    x.set_runtime(a.clone());
    lives.push(Live { ty: ty.clone(), x, model: v.clone(), tap: taps[0].clone(), rt: rt.clone(), base: vec![1] });
    cx.note(|| format!("value {:?}", v));
    let mut count = 0u32;
    let (mut paused_twice, mut logged, mut dropped) = (false, 0, 0);
    for _ in 0..cx.s.count(4, 20) {
        let cur = taps.last().unwrap().clone();
        let mark = cur.len();
        let mut want: Vec<Entry> = vec![];
        let i = cx.s.idx(rts.len());
        let mut before = Val::Bool(false);
        // counts must not be bounded by a narrow type
        let many = |cx: &mut Cx| match cx.s.below(60) {
            0 => *cx.s.pick(&[16, 127, 128, 255, 256, 257]) as u32,
            1 if cx.s.chance(1, 40) => *cx.s.pick(&[32768, 65535, 65537]) as u32,
            _ => 1,
        };
        let what = match cx.s.weighted(&[5, 6, 5, 5, 1, 1]) {
            0 => {
                for _ in 1..many(cx) {
                    rts[i].pause_logger();
                    count += 1;
                }
                let got = if cx.s.bool() { rts[i].pause_logger() } else { rts[i].logger().lock().unwrap().pause() };
                count += 1;
                paused_twice |= count >= 2;
                ensure!(got == count, "pausing returned {} with {} pauses outstanding", got, count);
                "pause"
            }
            1 => {
                // at times all of them, or all but one
                let n = if count > 10 && cx.s.bool() { count - cx.s.below(2) as u32 } else { many(cx) };
                for _ in 1..n {
                    rts[i].unpause_logger();
                    count = count.saturating_sub(1);
                }
                let got = if cx.s.bool() { rts[i].unpause_logger() } else { rts[i].logger().lock().unwrap().unpause() };
                count = count.saturating_sub(1);
                ensure!(got == count, "unpausing returned {} with {} pauses outstanding", got, count);
                "unpause"
            }
            2 => {
                want = log_call(cx, &rts[i])?;
                "a log call"
            }
            3 => {
                let live = &mut lives[cx.s.idx(2)];
                if let Some((p, op)) = gen_op(&mut cx.s, &ty, &live.model, &Kit::plain()) {
                    cx.note(|| format!("{:?} at {:?} while {} pauses", op, p, count));
                    before = live.model.clone();
                    let (want_res, res, w) = live.apply(&p, &op);
                    ensure!(res.canon() == want_res.canon(), "{:?} returned {:?}, expected {:?}", op, res, want_res);
                    live.same("a mutation while paused")?;
                    want = w;
                    // entries relative to this state
                    let got = cur.since(mark);
                    let expect: &[Entry] = if count == 0 { &want } else { &[] };
                    live.same_entries(&before, expect, &got, &format!("with {} pauses outstanding", count))?;
                    if count == 0 { logged += want.len() } else { dropped += want.len() }
                }
                continue;
            }
            4 => {
                let new = Tap::default();
                handle.lock().unwrap().replace(new.clone());
                taps.push(new);
                for l in &mut lives {
                    l.tap = taps.last().unwrap().clone();
                }
                "replacing the logger"
            }
            _ => {
                let n = handle.lock().unwrap().len();
                ensure!(n == cur.len(), "the handle gives access to another logger");
                "reading the logger"
            }
        };
        cx.note(|| format!("{} via runtime {} ({} pauses)", what, i, count));
        let _ = before;
        let expect: &[Entry] = if count == 0 { &want } else { &[] };
        let got = cur.since(mark);
        ensure!(got == expect, "{} with {} pauses outstanding logged {:?}, expected {:?}", what, count, got, expect);
        if count == 0 { logged += want.len() } else { dropped += want.len() }
    }
    cx.nontrivial = paused_twice && logged > 0 && dropped > 0;
    Ok(())
}

fn c13_closures(cx: &mut Cx) -> Out {
    let (tap, rt) = new_tap();
    let mut list: List<u64> = List::new(rt.nested(5));
    let mut map: Map<u8, u64> = Map::new(rt.nested(6));
    let mut maybe: Maybe<u64> = Maybe::none(rt.nested(7));
    let mut count = 0u32;
    let mut want: Vec<Entry> = vec![];
    let (mut deep, mut dropped) = (false, false);
    fn body(cx: &mut Cx, rt: &Runtime, count: &mut u32, want: &mut Vec<Entry>, steps: u64, deep: &mut bool, dropped: &mut bool) -> Out {
        for _ in 0..steps {
            match cx.s.below(3) {
                0 => {
                    let n = rt.pause_logger();
                    *count += 1;
                    *deep |= *count >= 2;
                    ensure!(n == *count, "pausing returned {} with {} pauses outstanding", n, count);
                }
                1 => {
                    let n = rt.unpause_logger();
                    *count = count.saturating_sub(1);
                    ensure!(n == *count, "unpausing returned {} with {} pauses outstanding", n, count);
                }
                _ => {
                    let w = log_call(cx, rt)?;
                    if *count == 0 {
                        want.extend(w);
                    } else {
                        *dropped |= !w.is_empty();
                    }
                }
            }
        }
        Ok(())
    }
    for _ in 0..cx.s.count(2, 6) {
        let n = cx.s.below(4);
        body(cx, &rt, &mut count, &mut want, n, &mut deep, &mut dropped)?;
        let val = gen_u(&mut cx.s, 64);
        let inside = cx.s.below(5);
        let kind = cx.s.idx(3);
        let key = cx.s.below(3) as u8;
        cx.note(|| format!("with {} pauses: closure kind {} storing {}, {} steps inside", count, kind, val, inside));
        let was = maybe.is_some();
        if kind == 2 && !was {
            // the switch of the variant is logged before the closure runs
            if count == 0 {
                want.push(Entry::Update(vec![7], vec![1]));
            } else {
                dropped = true;
            }
        }
        let mut err = Ok(());
        let mut outer = count + 1;
        {
            let (err, outer, want, deep, dropped) = (&mut err, &mut outer, &mut want, &mut deep, &mut dropped);
            let mut f = |r: Runtime| {
                *deep |= *outer >= 2;
                *err = body(cx, &r, outer, want, inside, deep, dropped);
                val
            };
            match kind {
                0 => {
                    list.push_with(f);
                }
                1 => {
                    map.insert_with(key, f);
                }
                _ => {
                    maybe.set_some_value_with(|r| f(r));
                }
            }
        }
        err?;
        count = outer.saturating_sub(1);
        let e = match kind {
            0 => Entry::Push(vec![5], varint(val)),
            1 => Entry::Update(vec![6, key as u32], varint(val)),
            _ => Entry::Update(vec![7, 1, 0], varint(val)),
        };
        if count == 0 {
            want.push(e);
        } else {
            dropped = true;
        }
        let got = tap.since(0);
        ensure!(got == want, "logged {:?}, expected {:?}", got, want);
        let n = rt.pause_logger();
        ensure!(n == count + 1, "{} pauses outstanding after a closure, expected {}", n - 1, count);
        rt.unpause_logger();
        ensure!(kind != 0 || list.last() == Some(&val), "the closure's value was not stored");
        ensure!(kind != 1 || map.get(&key) == Some(&val), "the closure's value was not stored");
        ensure!(kind != 2 || maybe == Some(val), "the closure's value was not stored");
    }
    cx.nontrivial = deep && dropped && !want.is_empty();
    Ok(())
}

// ---------------------------------------------------------------- C14

fn depth(x: &dyn Inst) -> usize {
    let mut d = 0;
    x.wiring_from(&[], &mut |p, _| d = d.max(p.len()));
    d
}

/// Runtimes derived from each other address the positions they were asked for.
fn c14_runtimes(cx: &mut Cx) -> Out {
    let (tap, root) = new_tap();
    let b = base(&mut cx.s);
    let mut all: Vec<(Runtime, Vec<u32>)> = vec![(root.clone(), vec![]), (at(&root, &b), b)];
    let mut moved = 0;
    for _ in 0..cx.s.count(4, 20) {
        let (rt, path) = cx.s.pick(&all).clone();
        let k = gen_key(&mut cx.s, 32);
        let how = cx.s.below(5);
        let (rt, path, what) = match how {
            0 | 1 => (rt.nested(k), [&path[..], &[k]].concat(), "nested"),
            2 if !path.is_empty() => (rt.sibling(k), [&path[..path.len() - 1], &[k]].concat(), "sibling"),
            3 if !path.is_empty() => (rt.parent(), path[..path.len() - 1].to_vec(), "parent"),
            _ => (rt.clone(), path, "clone"),
        };
        moved += (what == "sibling" || what == "parent") as usize;
        cx.note(|| format!("{} with {}: {:?}", what, k, path));
        ensure!(rt.path().collect_values() == path, "a runtime made by {} is at {:?}, expected {:?}", what, rt.path().collect_values(), path);
        ensure!(rt.is_root() == path.is_empty() && rt.is_child() != path.is_empty(), "a runtime at {:?} says is_root: {}, is_child: {}", path, rt.is_root(), rt.is_child());
        if let Some(last) = path.last() {
            ensure!(rt.field_number() == *last, "a runtime at {:?} says its field number is {}", path, rt.field_number());
        }
        // a state there logs there
        let mark = tap.len();
        let mut m: Map<u32, u8> = Map::new(rt.clone());
        m.insert(3, 4);
        let mut want = path.clone();
        want.push(3);
        ensure!(tap.since(mark) == [Entry::Update(want.clone(), vec![4])], "a map at {:?} logged {:?}", path, tap.since(mark));
        all.push((rt, path));
    }
    for (rt, path) in &all {
        ensure!(rt.path().collect_values() == *path, "a runtime at {:?} is at {:?} later", path, rt.path().collect_values());
    }
    cx.nontrivial = moved >= 2;
    Ok(())
}

/// Lists whose indices need more than one or two bytes.
fn c14_long(cx: &mut Cx) -> Out {
    type L = List<List<u8>>;
    let (mut tap, rt) = new_tap();
    let mut b = base(&mut cx.s);
    let edge: usize = if cx.s.below(3) == 0 { 256 } else { 65536 };
    let n = edge - 3 + cx.s.below(9) as usize;
    let how = cx.s.below(5);
    cx.note(|| format!("{} items at {:?}, made in way {}", n, b, how));
    let mut rt = at(&rt, &b);
    // mostly a few items that are not empty
    let mut model: Vec<Vec<u8>> = vec![vec![]; n];
    for _ in 0..3 {
        let i = cx.s.below(n as u64) as usize;
        model[i] = vec![1 + cx.s.below(100) as u8];
    }
    let item = |xs: &Vec<u8>| List::from_iter(Runtime::new(), xs.iter().copied());
    let nested = |model: &[Vec<u8>]| {
        let mut out = vec![];
        for xs in model {
            out.push(xs.len() as u8);
            out.extend(xs);
        }
        out
    };
    let mut list: L = match how {
        0 => List::from_iter(rt.clone(), model.iter().map(item)),
        1 => {
            let mut l: L = List::from_iter(Runtime::new(), model.iter().map(item));
            l.set_runtime(rt.clone());
            l
        }
        2 => {
            let cut = n - cx.s.below(9) as usize;
            let mut l: L = List::from_iter(rt.clone(), model[..cut].iter().map(item));
            let bytes = nested(&model[cut..]);
            l.merge(&mut Reader::new(&bytes[..])).map_err(|e| format!("merge failed: {}", e))?;
            l
        }
        3 => {
            let mut l: L = List::new(rt.clone());
            let bytes = nested(&model);
            l.merge(&mut Reader::new(&bytes[..])).map_err(|e| format!("merge failed: {}", e))?;
            l
        }
        _ => {
            let cut = n - cx.s.below(9) as usize;
            let mut l: L = List::from_iter(rt.clone(), model[..cut].iter().map(item));
            for xs in &model[cut..] {
                l.push(item(xs));
            }
            tap.pluck_bytes();
            l
        }
    };
    let path = |b: &[u32], i: usize| [b, &[i as u32]].concat();
    // the replica follows the log at the root
    let mut replica: L = List::from_iter(Runtime::new(), model.iter().map(item));
    let mut steps = 0;
    for _ in 0..cx.s.count(3, 12) {
        let mark = tap.len();
        let len = model.len();
        let i = match cx.s.below(4) {
            0 => cx.s.below(len as u64) as usize,
            1 => len - 1 - cx.s.below(4.min(len as u64)) as usize,
            _ => (edge - 3 + cx.s.below(6) as usize).min(len - 1),
        };
        let mut touched = vec![i];
        let mut want = vec![];
        let what = match cx.s.below(8) {
            0 | 1 => {
                let xs = vec![cx.s.below(128) as u8];
                want.push(Entry::Push(b.clone(), xs.clone()));
                let at = if cx.s.bool() { list.push(item(&xs)) } else { list.push_with(|rt| List::from_iter(rt, xs.iter().copied())) };
                ensure!(at == len, "push returned {}, expected {}", at, len);
                model.push(xs);
                touched.push(len);
                "push"
            }
            2 => {
                want.push(Entry::Pop(b.clone()));
                let got = list.pop();
                let exp = model.pop();
                ensure!(got.map(|l| l.to_vec()) == exp, "pop returned another item than the last");
                "pop"
            }
            3 | 4 => {
                want.push(Entry::Pop(b.clone()));
                if i != len - 1 {
                    want.push(Entry::Update(path(&b, i), model[len - 1].clone()));
                }
                let got = list.swap_remove(i);
                let exp = model.swap_remove(i);
                ensure!(got.map(|l| l.to_vec()) == Some(exp), "swap_remove({}) returned another item", i);
                "swap_remove"
            }
            5 => {
                let xs = vec![7, cx.s.below(128) as u8];
                let bytes = Entry::Push(vec![], xs.clone()).framed();
                let r = list.replay(&mut Reader::new(&bytes[..]));
                if b.is_empty() {
                    r.map_err(|e| format!("replay failed: {}", e))?;
                    model.push(xs.clone());
                    replica.push(item(&xs));
                    touched.push(len);
                } else {
                    ensure!(r.is_err(), "a replay was accepted below the root");
                }
                "replay"
            }
            6 => {
                let more: Vec<Vec<u8>> = (0..1 + cx.s.below(3)).map(|_| vec![cx.s.below(9) as u8]).collect();
                let bytes = nested(&more);
                list.merge(&mut Reader::new(&bytes[..])).map_err(|e| format!("merge failed: {}", e))?;
                touched.extend(len..len + more.len());
                for xs in more {
                    replica.push(item(&xs));
                    model.push(xs);
                }
                "merge"
            }
            _ => {
                // to another log
                let bytes = tap.pluck_bytes();
                if b.is_empty() {
                    replica.replay(&mut Reader::new(&bytes[..])).map_err(|e| format!("replay failed: {}", e))?;
                }
                let (t, r) = new_tap();
                b = base(&mut cx.s);
                rt = at(&r, &b);
                tap = t;
                list.set_runtime(rt.clone());
                replica = List::from_iter(Runtime::new(), model.iter().map(item));
                "set_runtime"
            }
        };
        cx.note(|| format!("{} ({}) at {} items", what, i, len));
        steps += 1;
        ensure!(list.len() == model.len(), "{} items after {}, expected {}", list.len(), what, model.len());
        if what != "set_runtime" {
            let got = tap.since(mark);
            ensure!(got == want, "{} at {} items logged {:?}, expected {:?}", what, len, got, want);
        }
        // the items around the edge, the last and the touched ones know where they are
        touched.extend([0, edge - 1, edge, edge + 1, list.len() - 1]);
        for i in touched {
            if i >= list.len() {
                continue;
            }
            let p = list[i].runtime().path().collect_values();
            ensure!(p == path(&b, i), "after {} at {} items, item {} is at {:?}, expected {:?}", what, len, i, p, path(&b, i));
            ensure!(std::sync::Arc::ptr_eq(list[i].runtime().logger(), rt.logger()), "after {}, item {} logs elsewhere", what, i);
            if cx.s.below(3) == 0 {
                let mark = tap.len();
                let x = cx.s.below(128) as u8;
                list.get_mut(i).unwrap().push(x);
                model[i].push(x);
                let got = tap.since(mark);
                let want = [Entry::Push(path(&b, i), vec![x])];
                ensure!(got == want, "a push to item {} of {} logged {:?}, expected {:?}", i, list.len(), got, want);
            }
        }
        if b.is_empty() {
            let bytes = tap.pluck_bytes();
            replica.replay(&mut Reader::new(&bytes[..])).map_err(|e| format!("replay failed after {}: {}", what, e))?;
        }
    }
    for (i, (got, want)) in list.iter().zip(&model).enumerate() {
        ensure!(got.to_vec() == *want, "item {} holds {:?}, expected {:?}", i, got.to_vec(), want);
        let p = got.runtime().path().collect_values();
        ensure!(p == path(&b, i), "item {} is at {:?} at last, expected {:?}", i, p, path(&b, i));
    }
    if b.is_empty() {
        ensure!(replica == list, "the replica differs from the list");
    }
    cx.nontrivial = steps >= 3;
    Ok(())
}

fn c14(cx: &mut Cx) -> Out {
    let t = cx.state();
    let ty = t.ty();
    let base0 = base(&mut cx.s);
    let mut live = construct(cx, t, &base0)?;
    live.wired("construction")?;
    let (_ftap, frt) = new_tap();
    let mut steps = 0;
    let mut deep = depth(&*live.x) >= 2;
    for _ in 0..cx.s.count(2, 9) {
        let kit = kit(&[&frt, &live.rt.clone()]);
        let what = match cx.s.weighted(&[10, 3, 2, 3, 2, 2, 1, 1]) {
            0 => {
                let Some((p, op)) = gen_op(&mut cx.s, &ty, &live.model, &kit) else { continue };
                cx.note(|| format!("{:?} at {:?}", op, p));
                WITH.with(|w| w.borrow_mut().clear());
                // entries carry the paths they were logged at
                live.step(&p, &op)?;
                let given = WITH.with(|w| w.borrow().first().cloned());
                if let Some(rt) = given {
                    let mut path = live.base.clone();
                    let mut v = &live.model;
                    let mut ty = strip(&live.ty);
                    for s in &p {
                        (v, ty) = match (s, v, ty) {
                            (Step::F(vi, f), Val::Msg(_, fs), Ty::Msg(id)) => {
                                let d = def(*id);
                                if d.is_enum {
                                    path.push(d.vars[*vi].tag);
                                }
                                path.push(d.vars[*vi].fields[*f].tag);
                                (&fs[*f], strip(&d.vars[*vi].fields[*f].ty))
                            }
                            (Step::I(i, _), Val::Seq(xs), Ty::List(t)) => {
                                path.push(*i as u32);
                                (&xs[*i], strip(t))
                            }
                            (Step::K(k, _), Val::Map(xs), Ty::Map(_, t)) => {
                                path.push(*k);
                                (&xs.iter().find(|x| x.0 == *k).unwrap().1, strip(t))
                            }
                            x => panic!("harness: {:?}", x),
                        };
                    }
                    match (&op, v, ty) {
                        (Op::Set { var, field, .. }, _, Ty::Msg(id)) => {
                            let d = def(*id);
                            if d.is_enum {
                                path.push(d.vars[*var].tag);
                            }
                            path.push(d.vars[*var].fields[*field].tag);
                        }
                        (Op::Push { .. }, Val::Seq(xs), _) => path.push(xs.len() as u32 - 1),
                        (Op::Insert { key, .. }, ..) => path.push(*key),
                        _ => (),
                    }
                    let got = rt.path().collect_values();
                    ensure!(got == path, "the closure of {:?} at {:?} was given the path {:?}, expected {:?}", op, p, got, path);
                    ensure!(std::sync::Arc::ptr_eq(rt.logger(), live.rt.logger()), "the closure of {:?} was given another logger", op);
                }
                "a mutation"
            }
            1 => {
                let (b, kind) = input(&mut cx.s, &ty);
                cx.note(|| format!("merge {:?} ({})", b, kind));
                let _ = merge_bytes(&mut *live.x, &b);
                live.model = live.view();
                "a merge"
            }
            2 if live.base.is_empty() => {
                let mut other = Live::new(t, &live.model, &[]);
                for _ in 0..1 + cx.s.below(4) {
                    mutate_live(cx, &mut other, &Kit::plain())?;
                }
                let b = other.tap.pluck_bytes();
                replay(&mut *live.x, &b).map_err(|e| format!("replay failed: {}", e))?;
                live.model = live.view();
                "a replay"
            }
            2 | 3 => {
                let b = some_log(cx, t, &live.model);
                cx.note(|| format!("replay {:?}", b));
                let _ = replay(&mut *live.x, &b);
                live.model = live.view();
                "a replay of a damaged log"
            }
            4 => {
                let (p, nty) = some_place(cx, &live);
                let (b, kind) = input(&mut cx.s, &nty);
                cx.note(|| format!("update of {:?} with {:?} ({})", p, b, kind));
                live.x.node(&p, &mut |n| {
                    let mut f = Feed::new(&b);
                    let _ = with_reader(&mut f, |r| n.handle_update(r));
                });
                live.model = live.view();
                "an update of a node"
            }
            5 => {
                let (p, nty) = some_place(cx, &live);
                let (b, kind) = input(&mut cx.s, &nty);
                cx.note(|| format!("merge at {:?} of {:?} ({})", p, b, kind));
                live.x.node(&p, &mut |n| {
                    let mut f = Feed::new(&b);
                    let _ = with_reader(&mut f, |r| n.merge(r));
                });
                live.model = live.view();
                "a merge into a node"
            }
            6 => {
                let (tap, rt) = new_tap();
                live.base = base(&mut cx.s);
                cx.note(|| format!("re-attached at {:?}", live.base));
                live.x.set_runtime(at(&rt, &live.base));
                live.tap = tap;
                live.rt = rt;
                "re-attachment"
            }
            _ => {
                live.x = live.x.clone_box();
                "cloning"
            }
        };
        cx.note(|| what.into());
        steps += 1;
        live.wired(what)?;
        deep |= depth(&*live.x) >= 2;
    }
    cx.nontrivial = steps >= 3 && deep;
    Ok(())
}

// ---------------------------------------------------------------- C15

fn c15_attach(cx: &mut Cx) -> Out {
    let t = cx.state();
    let base0 = base(&mut cx.s);
    let mut live = construct(cx, t, &base0)?;
    let taps = [new_tap(), new_tap(), (live.tap.clone(), live.rt.clone())];
    let lens = |live: &Live| -> Vec<usize> { taps.iter().map(|x| x.0.len()).chain([live.tap.len()]).collect() };
    let _ = lens;
    // copies left behind at earlier positions
    let mut left: Vec<Live> = vec![];
    let (mut moves, mut active) = (0, 0);
    for _ in 0..cx.s.count(1, 5) {
        if cx.s.chance(1, 3) {
            left.push(Live {
                ty: live.ty.clone(),
                x: live.x.clone_box(),
                model: live.model.clone(),
                tap: live.tap.clone(),
                rt: live.rt.clone(),
                base: live.base.clone(),
            });
        }
        let (tap, rt) = taps[cx.s.idx(3)].clone();
        let marks: Vec<usize> = taps.iter().map(|x| x.0.len()).collect();
        live.base = base(&mut cx.s);
        live.tap = tap;
        live.rt = rt;
        let n = taps.iter().position(|x| std::sync::Arc::ptr_eq(&x.0 .0, &live.tap.0)).unwrap();
        cx.note(|| format!("attach at {:?} of log {}", live.base, n));
        live.x.set_runtime(at(&live.rt, &live.base));
        moves += 1;
        live.same("re-attachment")?;
        live.wired("re-attachment")?;
        for (i, x) in taps.iter().enumerate() {
            silent(&x.0, marks[i], "re-attachment")?;
        }
        let mut acted = false;
        for _ in 0..1 + cx.s.below(3) {
            let k = cx.s.idx(left.len() + 2);
            let who = if k < left.len() { &mut left[k] } else { &mut live };
            let marks: Vec<usize> = taps.iter().map(|x| x.0.len()).collect();
            let kit = kit(&[&taps[0].1, &taps[1].1, &taps[2].1]);
            let Some((p, op)) = gen_op(&mut cx.s, &who.ty, &who.model, &kit) else { continue };
            let n = taps.iter().position(|x| std::sync::Arc::ptr_eq(&x.0 .0, &who.tap.0)).unwrap();
            cx.note(|| format!("{:?} at {:?} of the state at {:?} of log {}", op, p, who.base, n));
            who.step(&p, &op)?;
            acted |= k >= left.len();
            for (i, x) in taps.iter().enumerate() {
                if i != n {
                    silent(&x.0, marks[i], &format!("a mutation of a state attached to log {}, in log {},", n, i))?;
                }
            }
        }
        active += acted as u32;
    }
    for l in &left {
        l.wired("a clone left behind")?;
        l.same("a clone left behind")?;
    }
    cx.nontrivial = moves >= 2 && active >= 2;
    Ok(())
}

fn c15_move(cx: &mut Cx) -> Out {
    let f = *cx.s.pick(&[
        moves::<u16>,
        moves::<Maybe<u8>>,
        moves::<List<u16>>,
        moves::<Maybe<List<i8>>>,
        moves::<Map<u8, Maybe<bool>>>,
        moves::<Box<Maybe<u8>>>,
        moves::<Item>,
        moves::<List<Item>>,
        moves::<Maybe<Box<Item>>>,
    ]);
    f(cx)
}

/// Two lists, two maps and a Maybe on separate logs; values move between them with the wiring they have.
fn moves<T: Bind + State>(cx: &mut Cx) -> Out {
    let ty = T::ty();
    cx.note(|| format!("items of type {}", show_ty(&ty)));
    struct Home<C> {
        c: C,
        model: Val,
        tap: Tap,
        rt: Runtime,
        base: Vec<u32>,
        ty: Ty,
    }
    fn home<C: Bind + State>(cx: &mut Cx, tap: (Tap, Runtime)) -> Home<C> {
        let base = base(&mut cx.s);
        let v = gen_small(&mut cx.s, &C::ty());
        let mut c = C::build(&v);
        c.set_runtime(at(&tap.1, &base));
        Home { c, model: v, tap: tap.0, rt: tap.1, base, ty: C::ty() }
    }
    let taps = [new_tap(), new_tap(), new_tap(), new_tap(), new_tap()];
    let mut l0 = home::<List<T>>(cx, taps[0].clone());
    let mut l1 = home::<List<T>>(cx, taps[1].clone());
    let mut m0 = home::<Map<u8, T>>(cx, taps[2].clone());
    let mut m1 = home::<Map<u16, T>>(cx, taps[3].clone());
    let mut o = home::<Maybe<T>>(cx, taps[4].clone());
    let mut hand: Vec<(T, Val)> = vec![];
    let (mut moved, mut mutated) = (0, 0);
    fn expect<C: Bind + State>(h: &Home<C>, before: &Val, mark: usize, want: Vec<Entry>, what: &str) -> Out {
        let got = h.tap.since(mark);
        let strip_base = |e: &Entry| -> Option<Entry> {
            let p = e.path().strip_prefix(&h.base[..])?.to_vec();
            Some(match e {
                Entry::Update(_, b) => Entry::Update(p, b.clone()),
                Entry::Push(_, b) => Entry::Push(p, b.clone()),
                Entry::Pop(_) => Entry::Pop(p),
                Entry::Remove(_, k) => Entry::Remove(p, *k),
            })
        };
        let ok = want.len() == got.len()
            && want.iter().zip(&got).all(|(w, g)| match (strip_base(w), strip_base(g)) {
                (Some(w), Some(g)) => same_entry(&h.ty, before, &w, &g),
                _ => false,
            });
        ensure!(ok, "{}: logged {:?}, expected {:?}", what, got, want);
        same_val(&h.model, &h.c.view(), what)?;
        let mut bad = None;
        h.c.wiring(&mut h.base.clone(), &mut |p, rt| {
            if rt.path().collect_values() != p || !std::sync::Arc::ptr_eq(rt.logger(), h.rt.logger()) {
                bad.get_or_insert_with(|| format!("{}: the node at {:?} reports {:?}", what, p, rt));
            }
        });
        bad.map_or(Ok(()), Err)
    }
    for _ in 0..cx.s.count(4, 16) {
        let marks: Vec<usize> = taps.iter().map(|x| x.0.len()).collect();
        let which = cx.s.idx(5);
        macro_rules! on {
            ($h:ident, $act:expr) => {{
                let before = $h.model.clone();
                let mark = $h.tap.len();
                let (what, path, op): (&str, Vec<Step>, Op) = $act;
                cx.note(|| format!("container {}: {}: {:?} at {:?}", which, what, op, path));
                let mut want = vec![];
                apply(&$h.ty, &mut $h.model, &path, &op, &mut $h.base.clone(), &mut want);
                expect(&$h, &before, mark, want, &format!("container {}: {:?} at {:?}", which, op, path))?;
            }};
        }
        macro_rules! mutate_inside {
            ($h:ident) => {{
                if let Some((p, op)) = gen_op(&mut cx.s, &$h.ty, &$h.model, &kit(&[&taps[0].1, &taps[3].1])) {
                    mutated += 1;
                    on!($h, {
                        $h.c.apply(&p, &op);
                        ("mutation", p, op)
                    });
                }
            }};
        }
        // a value from the hand keeps the wiring of wherever it came from
        let take = |cx: &mut Cx, hand: &mut Vec<(T, Val)>| -> (T, Val) {
            if hand.is_empty() || cx.s.chance(1, 6) {
                let v = gen_small(&mut cx.s, &ty);
                return (T::build(&v), v);
            }
            let i = cx.s.idx(hand.len());
            if cx.s.chance(1, 3) {
                let (x, v) = &hand[i];
                return (x.clone(), v.clone());
            }
            hand.swap_remove(i)
        };
        let act = cx.s.weighted(&[4, 3, 3]);
        match which {
            0 | 1 => {
                let h = if which == 0 { &mut l0 } else { &mut l1 };
                let mut hm = std::mem::replace(h, home::<List<T>>(&mut Cx::new(engine::src::Src::replay(vec![]), cx.env, false), new_tap()));
                match act {
                    0 => {
                        let (x, v) = take(cx, &mut hand);
                        moved += 1;
                        on!(hm, {
                            hm.c.push(x);
                            ("push", vec![], Op::Push { val: v, how: How::Plain })
                        })
                    }
                    1 => {
                        let n = hm.c.len();
                        if n > 0 && cx.s.bool() {
                            let i = cx.s.idx(n);
                            let v = hm.model.seq()[i].clone();
                            on!(hm, {
                                hand.push((hm.c.swap_remove(i).ok_or("swap_remove lost an item")?, v));
                                ("swap_remove", vec![], Op::SwapRemove(i))
                            })
                        } else if n > 0 {
                            let v = hm.model.seq()[n - 1].clone();
                            on!(hm, {
                                hand.push((hm.c.pop().ok_or("pop lost an item")?, v));
                                ("pop", vec![], Op::Pop)
                            })
                        }
                    }
                    _ => mutate_inside!(hm),
                }
                *(if which == 0 { &mut l0 } else { &mut l1 }) = hm;
            }
            2 | 3 => {
                macro_rules! on_map {
                    ($m:ident, $k:ty) => {{
                        match act {
                            0 => {
                                let (x, v) = take(cx, &mut hand);
                                let key = cx.s.below(4) as $k * 63;
                                moved += 1;
                                let old = $m.model.map().iter().find(|e| e.0 == key as u32).map(|e| e.1.clone());
                                on!($m, {
                                    let got = $m.c.insert(key, x);
                                    ensure!(got.is_some() == old.is_some(), "insert returned {:?}", got.map(|x| x.view()));
                                    if let (Some(x), Some(v)) = (got, old) {
                                        hand.push((x, v));
                                    }
                                    ("insert", vec![], Op::Insert { key: key as u32, val: v, how: How::Plain })
                                })
                            }
                            1 => {
                                if !$m.model.map().is_empty() {
                                    let i = cx.s.idx($m.model.map().len());
                                    let (key, v) = $m.model.map()[i].clone();
                                    on!($m, {
                                        hand.push(($m.c.remove(&(key as $k)).ok_or("remove lost an entry")?, v));
                                        ("remove", vec![], Op::Remove(key))
                                    })
                                }
                            }
                            _ => mutate_inside!($m),
                        }
                    }};
                }
                if which == 2 {
                    on_map!(m0, u8)
                } else {
                    on_map!(m1, u16)
                }
            }
            _ => match act {
                0 => {
                    let (x, v) = take(cx, &mut hand);
                    moved += 1;
                    on!(o, {
                        o.c.set_some_value(x);
                        ("set_some_value", vec![], Op::Set { var: 1, field: 0, val: v, how: How::Plain })
                    })
                }
                1 => {
                    // out of and back into a Maybe
                    let (x, v) = take(cx, &mut hand);
                    let m = if cx.s.bool() { Maybe::some(o.rt.nested(99), x) } else { Maybe::from_option(o.rt.clone(), Some(x)) };
                    let mut m = m;
                    m.set_runtime(at(&o.rt, &o.base));
                    o.c = m;
                    o.model = Val::Msg(1, vec![v]);
                    moved += 1;
                    cx.note(|| "Maybe::some".into());
                }
                _ => mutate_inside!(o),
            },
        }
        for (i, x) in taps.iter().enumerate() {
            if i != which {
                silent(&x.0, marks[i], &format!("an operation on container {}, in log {},", which, i))?;
            }
        }
    }
    cx.nontrivial = moved >= 2 && (mutated >= 2 || !matches!(ty, Ty::Msg(_)));
    Ok(())
}

// ---------------------------------------------------------------- C16

fn c16(cx: &mut Cx) -> Out {
    let t = cx.state();
    let mut live = construct(cx, t, &[])?;
    live.tap.pluck_bytes();
    let ty = live.ty.clone();
    let (_ftap, frt) = new_tap();
    let kit = kit(&[&frt]);
    struct Joiner {
        live: Live,
        from: usize,
        at: usize,
    }
    let mut joiners: Vec<Joiner> = vec![];
    let n = 2 + cx.s.below(12) as usize;
    let mut ops = 0;
    for i in 0..n {
        if joiners.len() < 4 && cx.s.chance(2, 5) {
            // a snapshot of the live state, or of a replica that has caught up
            let mark = live.tap.len();
            let behind = joiners.iter().position(|j| j.at == mark);
            let bytes = match behind {
                Some(k) if cx.s.bool() => {
                    cx.note(|| format!("snapshot of replica {}", k));
                    ser(&*joiners[k].live.x)?
                }
                _ => {
                    cx.note(|| "snapshot".into());
                    if cx.s.bool() { ser(&*live.x)? } else { live.x.to_bytes() }
                }
            };
            let how = cx.s.below(3);
            let (tap, rt) = new_tap();
            let mut x;
            if how == 0 {
                x = with_reader(&mut &bytes[..], |r| t.deserialize(r)).map_err(|e| format!("deserialization failed: {}", e))?;
                x.set_runtime(rt.clone());
            } else if how == 1 {
                // shipped as an update of the whole root onto a stale copy
                let stale = gen_small(&mut cx.s, &ty);
                x = t.build(&stale);
                x.set_runtime(rt.clone());
                replay(&mut *x, &Entry::Update(vec![], bytes.clone()).framed()).map_err(|e| format!("replaying a root update failed: {}", e))?;
            } else {
                x = t.with_runtime(rt.clone());
                merge_bytes(&mut *x, &bytes).map_err(|e| format!("merge failed: {}", e))?;
            }
            same_masked(&ty, &live.model, &x.view(), "a replica made from a snapshot")?;
            cx.nontrivial |= ops > 0 && i + 1 < n;
            joiners.push(Joiner { live: Live { ty: ty.clone(), x, model: live.model.clone(), tap, rt, base: vec![] }, from: mark, at: mark });
        }
        if !mutate_live(cx, &mut live, &kit)? {
            return Ok(());
        }
        ops += 1;
        for (k, j) in joiners.iter_mut().enumerate() {
            if i + 1 == n || cx.s.chance(1, 3) {
                let tail = live.tap.since(j.at);
                replay(&mut *j.live.x, &frames(&tail)).map_err(|e| format!("replaying {:?} failed: {}", tail, e))?;
                j.at = live.tap.len();
                same_masked(&ty, &live.model, &j.live.view(), &format!("replica {} from the snapshot at entry {}", k, j.from))?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C17

fn damage_path(cx: &mut Cx, ty: &Ty, p: &mut Vec<u32>) {
    let mut tags = vec![0u32, 1, 2];
    walk_ty(ty, &mut vec![], &mut |t| {
        if let Ty::Msg(id) = t {
            for v in &def(*id).vars {
                tags.push(v.tag);
                tags.extend(v.fields.iter().map(|f| f.tag));
            }
        }
    });
    let any = |cx: &mut Cx| match cx.s.weighted(&[4, 3, 2, 1]) {
        0 => *cx.s.pick(&tags),
        1 => cx.s.below(6) as u32,
        2 => gen_key(&mut cx.s, 32),
        _ => gen_u(&mut cx.s, 32) as u32,
    };
    let n = p.len();
    match cx.s.below(6) {
        0 => p.push(any(cx)),
        1 => {
            p.pop();
        }
        2 if n > 0 => {
            let i = cx.s.idx(n);
            p[i] = any(cx);
        }
        3 if n > 0 => {
            let i = cx.s.idx(n);
            let d = *cx.s.pick(&[1u32, 8, 128, 256, 65536, 1 << 29, u32::MAX]);
            p[i] = p[i].wrapping_add(d);
        }
        4 if n > 0 => {
            let i = cx.s.idx(n);
            p.remove(i);
        }
        _ => {
            let i = cx.s.idx(n + 1);
            let x = any(cx);
            p.insert(i, x);
        }
    }
}

/// A log entry for a state with value `v`, applicable or not.
fn entry_for(cx: &mut Cx, ty: &Ty, v: &Val) -> Entry {
    let mut tap = vec![];
    let e = match gen_op(&mut cx.s, ty, v, &Kit { foreign: vec![], with: false }) {
        Some((p, op)) => {
            apply(ty, &mut v.clone(), &p, &op, &mut vec![], &mut tap);
            match tap.len() {
                0 => rand_entry(cx),
                n => tap[cx.s.idx(n)].clone(),
            }
        }
        None => rand_entry(cx),
    };
    // whole-node updates and operations on existing nodes
    let e = if cx.s.chance(1, 4) {
        let ps = places(ty, v);
        if ps.is_empty() {
            e
        } else {
            let p = &ps[cx.s.idx(ps.len())];
            let mut log = vec![];
            // the log path of a place: by a mutation there
            let path = log_path(ty, v, &p.path);
            match cx.s.below(5) {
                0 => log.push(Entry::Pop(path)),
                1 => log.push(Entry::Remove(path, gen_key(&mut cx.s, 8))),
                2 => {
                    let b = match &p.ty {
                        Ty::List(t) => encode(t, &gen_small(&mut cx.s, t)),
                        _ => vec![],
                    };
                    log.push(Entry::Push(path, b))
                }
                _ => {
                    let (b, _) = if cx.s.bool() { (encode(&p.ty, &gen_small(&mut cx.s, &p.ty)), "") } else { input(&mut cx.s, &p.ty) };
                    log.push(Entry::Update(path, b))
                }
            }
            log.pop().unwrap()
        }
    } else {
        e
    };
    match cx.s.weighted(&[6, 3, 2, 2]) {
        0 => e,
        1 => {
            let mut e = e;
            let p = match &mut e {
                Entry::Update(p, _) | Entry::Push(p, _) | Entry::Pop(p) | Entry::Remove(p, _) => p,
            };
            damage_path(cx, ty, p);
            e
        }
        2 => {
            // another kind at the same place
            let p = e.path().to_vec();
            let b = match &e {
                Entry::Update(_, b) | Entry::Push(_, b) => b.clone(),
                _ => vec![],
            };
            let k = if cx.s.bool() { gen_key(&mut cx.s, 8) } else { gen_u(&mut cx.s, 32) as u32 };
            match cx.s.below(4) {
                0 => Entry::Update(p, b),
                1 => Entry::Push(p, b),
                2 => Entry::Pop(p),
                _ => Entry::Remove(p, k),
            }
        }
        _ => match e {
            Entry::Update(p, mut b) => {
                let c = b.clone();
                mutate(&mut cx.s, &mut b, &c);
                Entry::Update(p, b)
            }
            Entry::Push(p, mut b) => {
                let c = b.clone();
                mutate(&mut cx.s, &mut b, &c);
                Entry::Push(p, b)
            }
            Entry::Remove(p, k) => Entry::Remove(p, k ^ (1 << cx.s.below(32))),
            e => e,
        },
    }
}

pub fn log_path(ty: &Ty, v: &Val, steps: &[Step]) -> Vec<u32> {
    let mut path = vec![];
    let (mut ty, mut v) = (strip(ty), v);
    for s in steps {
        (ty, v) = match (s, v, ty) {
            (Step::F(vi, f), Val::Msg(_, fs), Ty::Msg(id)) => {
                let d = def(*id);
                if d.is_enum {
                    path.push(d.vars[*vi].tag);
                }
                path.push(d.vars[*vi].fields[*f].tag);
                (strip(&d.vars[*vi].fields[*f].ty), &fs[*f])
            }
            (Step::I(i, _), Val::Seq(xs), Ty::List(t)) => {
                path.push(*i as u32);
                (strip(t), &xs[*i])
            }
            (Step::K(k, _), Val::Map(xs), Ty::Map(_, t)) => {
                path.push(*k);
                (strip(t), &xs.iter().find(|x| x.0 == *k).unwrap().1)
            }
            x => panic!("harness: {:?}", x),
        };
    }
    path
}

fn c17(cx: &mut Cx) -> Out {
    let t = cx.state();
    let mut live = construct(cx, t, &[])?;
    live.tap.pluck_bytes();
    let ty = live.ty.clone();
    for _ in 0..cx.s.count(1, 3) {
        // entries are drawn against a shadow that applies them, so that later ones often fit
        let mut shadow = live.model.clone();
        let mut log = vec![];
        let n = cx.s.count(1, 6);
        for _ in 0..n {
            let e = entry_for(cx, &ty, &shadow);
            let mut s2 = shadow.clone();
            if replay_entry(&ty, &mut s2, &e, &mut false).is_ok() {
                shadow = s2;
            }
            let mut f = match cx.s.weighted(&[7, 2, 1]) {
                0 => e.framed(),
                1 => {
                    let mut noise = Noise::with_padding(3, &mut cx.s);
                    noisy_entry(&mut cx.s, &e, &mut noise)
                }
                _ => {
                    let mut f = e.framed();
                    let c = f.clone();
                    mutate(&mut cx.s, &mut f, &c);
                    f
                }
            };
            cx.note(|| format!("entry {:?}", e));
            log.append(&mut f);
        }
        if cx.s.chance(1, 4) && !log.is_empty() {
            let k = cx.s.idx(log.len());
            log.truncate(k);
            cx.note(|| format!("torn after {} bytes", k));
        }
        run_log(cx, &mut live, &log)?;
        afterwards(cx, &mut live)?;
    }
    Ok(())
}

/// Replays `log` and compares with the model.
fn run_log(cx: &mut Cx, live: &mut Live, log: &[u8]) -> Out {
    cx.note(|| format!("log {:?}", log));
    let ty = live.ty.clone();
    let mut c = Cur::new(log);
    let mut want = live.model.clone();
    let mut verdict: Result<(), (E, bool)> = Ok(());
    let mut good = 0;
    let mut last = None;
    while !c.eof() {
        let e = match Entry::parse(&mut c) {
            Ok(e) => e,
            Err(e) => {
                verdict = Err((e, false));
                break;
            }
        };
        let mut ok = false;
        let before = want.clone();
        match replay_entry(&ty, &mut want, &e, &mut ok) {
            Ok(()) => good += 1,
            Err(er) => {
                want = before;
                verdict = Err((er, ok));
                last = Some(e);
                break;
            }
        }
    }
    let res = replay(&mut *live.x, log);
    let got = live.view();
    match (&verdict, &res) {
        (Ok(()), Ok(())) => {
            cx.label("applied");
            same_masked(&ty, &want, &got, "replaying an applicable log")?;
        }
        (Ok(()), Err(e)) => return Err(format!("an applicable log of {} entries was refused: {}", good, e)),
        (Err((E::Unspec(_), _)), _) => cx.label("unspecified"),
        (Err((E::Bad(why), _)), Ok(())) => return Err(format!("a log was replayed although entry {} is bad ({})", good, why)),
        (Err((E::Bad(why), false)), Err(_)) => {
            cx.label(why);
            cx.nontrivial |= good > 0;
            same_masked(&ty, &want, &got, &format!("a log that fails at entry {} ({})", good, why))?;
        }
        (Err((E::Bad(_), true)), Err(_)) => {
            cx.label("payload does not decode");
            cx.nontrivial |= good > 0;
            // only the value it was to replace may be damaged; nothing is inserted
            if let Some(Entry::Update(p, _)) = &last {
                graft(&ty, &mut want, &got, p);
            }
            same_masked(&ty, &want, &got, &format!("a log whose entry {} has a damaged payload, outside its target", good))?;
        }
    }
    live.model = got;
    Ok(())
}

/// Copies the node at a log path, if both have it.
fn graft(ty: &Ty, to: &mut Val, from: &Val, path: &[u32]) {
    let Some((&n, rest)) = path.split_first() else {
        *to = from.clone();
        return;
    };
    match (strip(ty), to, from) {
        (Ty::List(t), Val::Seq(xs), Val::Seq(ys)) => {
            if let (Some(x), Some(y)) = (xs.get_mut(n as usize), ys.get(n as usize)) {
                graft(t, x, y, rest);
            }
        }
        (Ty::Map(_, t), Val::Map(xs), Val::Map(ys)) => {
            if let (Some(x), Some(y)) = (xs.iter_mut().find(|x| x.0 == n), ys.iter().find(|y| y.0 == n)) {
                graft(t, &mut x.1, &y.1, rest);
            }
        }
        (Ty::Msg(id), Val::Msg(vx, xs), Val::Msg(vy, ys)) if vx == vy => {
            let d = def(*id);
            let var = &d.vars[*vx];
            let (tag, rest) = match (d.is_enum, rest.split_first()) {
                (false, _) => (n, rest),
                (true, Some((&f, rest))) if var.tag == n => (f, rest),
                _ => return,
            };
            if let Some(i) = var.fields.iter().position(|f| f.tag == tag) {
                graft(&var.fields[i].ty, &mut xs[i], &ys[i], rest);
            }
        }
        _ => (),
    }
}

fn afterwards(cx: &mut Cx, live: &mut Live) -> Out {
    sizes(&*live.x, &live.ty, 3, 0).map_err(|e| format!("after the log: {}", e))?;
    let other_kit = Kit::plain();
    if let Some((p, op)) = gen_op(&mut cx.s, &live.ty, &live.model, &other_kit) {
        cx.note(|| format!("afterwards {:?} at {:?}", op, p));
        live.step(&p, &op).map_err(|e| format!("after the log: {}", e))?;
        let e = live.tap.pluck_bytes();
        // onto a copy
        let mut entries = vec![];
        if let Some((p, op)) = gen_op(&mut cx.s, &live.ty, &live.model, &other_kit) {
            let mut want = live.model.clone();
            apply(&live.ty, &mut want, &p, &op, &mut vec![], &mut entries);
            replay(&mut *live.x, &frames(&entries)).map_err(|e| format!("after the log: replaying {:?} failed: {}", entries, e))?;
            same_masked(&live.ty, &want, &live.view(), "after the log: replay")?;
            live.model = live.view();
        }
        let _ = e;
    }
    Ok(())
}

fn c17_bytes(cx: &mut Cx) -> Out {
    let t = cx.state();
    let mut live = construct(cx, t, &[])?;
    live.tap.pluck_bytes();
    let mut b = vec![];
    for _ in 0..cx.s.count(1, 5) {
        match cx.s.below(5) {
            0 => b.extend(hostile_varint(&mut cx.s)),
            1 => {
                let n = cx.s.idx(8);
                b.extend(cx.s.bytes(n));
            }
            2 => b.extend([1, 9]),
            3 => {
                let mut e = some_log(cx, t, &live.model);
                b.append(&mut e);
            }
            _ => {
                // kind, path, payload
                let mut e = vec![*cx.s.pick(&[0u8, 8, 9, 12, 1, 7, 13, 0x80])];
                for _ in 0..cx.s.below(4) {
                    e.push(*cx.s.pick(&[2u8, 10, 0, 8, 3, 18]));
                    let n = cx.s.idx(4);
                    e.push(n as u8);
                    e.extend(cx.s.bytes(n));
                }
                b.push(e.len() as u8);
                b.extend(e);
            }
        }
    }
    run_log(cx, &mut live, &b)?;
    afterwards(cx, &mut live)
}

// ---------------------------------------------------------------- C18

fn c18(cx: &mut Cx) -> Out {
    let t = cx.state();
    let base = base(&mut cx.s);
    let mut live = construct(cx, t, &base)?;
    let ty = live.ty.clone();
    for _ in 0..cx.s.count(1, 4) {
        // a valid log, also valid below the root if it were accepted there
        let (p, nty) = some_place(cx, &live);
        let below = cx.s.chance(2, 3);
        let (path, pty) = if below { (p, nty) } else { (vec![], strip(&ty).clone()) };
        let is_root = base.is_empty() && path.is_empty();
        let mut v = default_val(&pty);
        live.x.node(&path, &mut |n| v = n.view());
        let mut entries = vec![];
        match cx.s.below(4) {
            0 => entries.push(Entry::Update(vec![], encode(&pty, &gen_small(&mut cx.s, &pty)))),
            1 => (),
            _ => {
                let mut w = v.clone();
                for _ in 0..1 + cx.s.below(3) {
                    if let Some((p, op)) = gen_op(&mut cx.s, &pty, &w, &Kit::plain()) {
                        apply(&pty, &mut w, &p, &op, &mut vec![], &mut entries);
                    }
                }
            }
        }
        let mut want = v.clone();
        for e in &entries {
            replay_entry(&pty, &mut want, e, &mut false).map_err(|e| format!("harness: {:?}", e))?;
        }
        let bytes = frames(&entries);
        cx.note(|| format!("replay {:?} on {:?} (attached at {:?})", entries, path, base));
        let before = live.view();
        let mut out = None;
        live.x.node(&path, &mut |n| {
            let mut f = Feed::new(&bytes);
            let r = with_reader(&mut f, |r| {
                let r0 = n.replay(r);
                r0
            });
            out = Some((n.is_root(), n.is_child(), r, f.pos, n.view()));
        });
        let (root, child, res, read, got) = out.ok_or("harness: node not visited")?;
        ensure!(root == is_root, "is_root of {:?} attached at {:?} is {}", path, base, root);
        ensure!(child != root, "is_child of {:?} attached at {:?} is {}", path, base, child);
        if is_root {
            res.map_err(|e| format!("replaying {:?} on a root failed: {}", entries, e))?;
            same_masked(&pty, &want, &got, "replaying on a root")?;
            cx.nontrivial |= want != v;
        } else {
            cx.nontrivial = true;
            ensure!(res.is_err(), "replaying {:?} at {:?} below the root at {:?} was accepted", entries, path, base);
            ensure!(read == 0, "a refused replay read {} bytes of the log", read);
            same_val(&before, &live.view(), "a refused replay")?;
        }
        live.model = live.view();
        if path.is_empty() {
            ensure!(live.x.is_root() == is_root && live.x.is_child() != is_root, "is_root or is_child disagrees with the position {:?}", base);
        }
        // the history goes on
        let kit = kit(&[&live.rt.clone()]);
        if cx.s.bool() {
            mutate_live(cx, &mut live, &kit)?;
        }
        // every node below
        let ps: Vec<_> = places(&ty, &live.model).into_iter().map(|p| p.path).collect();
        for p in ps.iter().take(12) {
            let mut r = false;
            live.x.node(p, &mut |n| r = n.is_root());
            ensure!(r == (base.is_empty() && p.is_empty()), "is_root of {:?} attached at {:?} is {}", p, base, r);
        }
    }
    let _ = wired;
    Ok(())
}
