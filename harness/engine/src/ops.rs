//! Random operations on a state value.

use steit::rt::Runtime;

use crate::{
    model::{apply, How, Op, Step},
    src::Src,
    val::*,
};

/// A node that accepts operations: its steps and its type.
pub struct Place<'a> {
    pub path: Vec<Step>,
    pub ty: Ty,
    pub val: &'a Val,
}

const MAX_PLACES: usize = 400;

/// Is the `i`th of `n` items looked into? All of a few, those around boundaries of many.
fn looked_at(i: usize, n: usize) -> bool {
    n <= 64 || i < 16 || i + 8 >= n || matches!(i % 128, 127 | 0 | 1)
}

fn collect<'a>(ty: &Ty, v: &'a Val, at: &mut Vec<Step>, out: &mut Vec<Place<'a>>, state_only: bool) {
    let ty = strip(ty);
    if out.len() >= MAX_PLACES {
        return;
    }
    match (ty, v) {
        (Ty::List(t), Val::Seq(xs)) => {
            out.push(Place { path: at.clone(), ty: ty.clone(), val: v });
            for (i, x) in xs.iter().enumerate().filter(|x| looked_at(x.0, xs.len())) {
                at.push(Step::I(i, 0));
                collect(t, x, at, out, state_only);
                at.pop();
            }
        }
        (Ty::Map(_, t), Val::Map(xs)) => {
            out.push(Place { path: at.clone(), ty: ty.clone(), val: v });
            for (_, (k, x)) in xs.iter().enumerate().filter(|x| looked_at(x.0, xs.len())) {
                at.push(Step::K(*k, 0));
                collect(t, x, at, out, state_only);
                at.pop();
            }
        }
        (Ty::Msg(id), Val::Msg(vi, fs)) => {
            let d = def(*id);
            if state_only && !d.is_state {
                return;
            }
            if d.vars.iter().any(|v| !v.fields.is_empty()) {
                out.push(Place { path: at.clone(), ty: ty.clone(), val: v });
            }
            for (i, (fd, x)) in d.vars[*vi].fields.iter().zip(fs).enumerate() {
                if state_only && fd.no_state {
                    continue;
                }
                at.push(Step::F(*vi, i));
                collect(&fd.ty, x, at, out, state_only);
                at.pop();
            }
        }
        _ => (),
    }
}

pub fn places<'a>(ty: &Ty, v: &'a Val) -> Vec<Place<'a>> {
    let mut out = Vec::new();
    collect(ty, v, &mut Vec::new(), &mut out, true);
    out
}

fn with_vias(s: &mut Src, path: &[Step]) -> Vec<Step> {
    path.iter()
        .map(|x| match x {
            Step::I(i, _) => Step::I(*i, s.below(3) as u8),
            Step::K(k, _) => Step::K(*k, s.below(3) as u8),
            x => x.clone(),
        })
        .collect()
}

/// What the operation generator may use.
#[derive(Clone)]
pub struct Kit {
    /// runtimes a value may have been wired to beforehand
    pub foreign: Vec<Runtime>,
    pub with: bool,
}

impl Kit {
    pub fn plain() -> Self {
        Kit { foreign: vec![], with: true }
    }
}

fn gen_new(s: &mut Src, ty: &Ty, kit: &Kit, depth: u32) -> (Val, How) {
    let mode = if kit.with && depth < 2 { s.weighted(&[6, 3, 2, 2]) } else { s.weighted(&[6, 3]) };
    match mode {
        0 => (gen_new_val(s, ty), How::Plain),
        1 => {
            let v = gen_new_val(s, ty);
            match kit.foreign.len() {
                0 => (v, How::Plain),
                n => (v, How::Foreign(kit.foreign[s.idx(n)].clone())),
            }
        }
        2 => (gen_new_val(s, ty), How::With),
        _ => {
            let mut v = default_val(ty);
            let mut ops = Vec::new();
            for _ in 0..s.below(4) {
                if let Some((p, o)) = gen_op_at(s, ty, &v, kit, depth + 1) {
                    apply(ty, &mut v, &p, &o, &mut vec![], &mut vec![]);
                    ops.push((p, o));
                }
            }
            (v, How::WithOps(ops))
        }
    }
}

fn gen_new_val(s: &mut Src, ty: &Ty) -> Val {
    match s.weighted(&[1, 6, 1]) {
        0 => default_val(ty),
        1 => gen_small(s, ty),
        _ => gen_in(s, ty, &mut Budget::new(20), 0),
    }
}

pub fn gen_op(s: &mut Src, ty: &Ty, v: &Val, kit: &Kit) -> Option<(Vec<Step>, Op)> {
    gen_op_at(s, ty, v, kit, 0)
}

fn gen_op_at(s: &mut Src, ty: &Ty, v: &Val, kit: &Kit, depth: u32) -> Option<(Vec<Step>, Op)> {
    let ps = places(ty, v);
    if ps.is_empty() {
        return None;
    }
    // deep places are as likely as shallow ones
    let max = ps.iter().map(|p| p.path.len()).max().unwrap();
    let want = s.below(max as u64 + 1) as usize;
    let at: Vec<&Place> = ps.iter().filter(|p| p.path.len() == want).collect();
    let place = match at.len() {
        0 => &ps[s.idx(ps.len())],
        n => at[s.idx(n)],
    };
    let path = with_vias(s, &place.path);
    let op = match (&place.ty, place.val) {
        (Ty::List(t), Val::Seq(xs)) => match s.weighted(&[5, 3, 5]) {
            0 => {
                let (val, how) = gen_new(s, t, kit, depth);
                Op::Push { val, how }
            }
            1 => Op::Pop,
            _ => Op::SwapRemove(match s.weighted(&[8, 1, 1]) {
                0 => s.idx(xs.len()),
                1 => xs.len() + s.idx(2),
                _ => xs.len().saturating_sub(1),
            }),
        },
        (Ty::Map(bits, t), Val::Map(xs)) => {
            let present = !xs.is_empty();
            match s.weighted(&[4, 3, 3, 1]) {
                0 => {
                    let key = gen_key(s, *bits);
                    let (val, how) = gen_new(s, t, kit, depth);
                    Op::Insert { key, val, how }
                }
                1 => {
                    let key = if present { xs[s.idx(xs.len())].0 } else { gen_key(s, *bits) };
                    let (val, how) = gen_new(s, t, kit, depth);
                    Op::Insert { key, val, how }
                }
                2 => Op::Remove(if present { xs[s.idx(xs.len())].0 } else { gen_key(s, *bits) }),
                _ => Op::Remove(gen_key(s, *bits)),
            }
        }
        (Ty::Msg(id), Val::Msg(vi, _)) => {
            let d = def(*id);
            let all: Vec<(usize, usize)> = d
                .vars
                .iter()
                .enumerate()
                .flat_map(|(i, v)| (0..v.fields.len()).map(move |j| (i, j)))
                .collect();
            let here: Vec<(usize, usize)> = all.iter().copied().filter(|x| x.0 == *vi).collect();
            let (var, field) = if !here.is_empty() && s.bool() { *s.pick(&here) } else { *s.pick(&all) };
            let fd = &d.vars[var].fields[field];
            let (val, how) = if fd.no_state || !d.is_state {
                (gen_new_val(s, &fd.ty), How::Plain)
            } else {
                gen_new(s, &fd.ty, kit, depth)
            };
            Op::Set { var, field, val, how }
        }
        (t, v) => panic!("harness: {:?} {:?}", t, v),
    };
    Some((path, op))
}

/// The type at the end of a path of steps.
pub fn ty_of_steps(ty: &Ty, path: &[Step]) -> Ty {
    let mut t = strip(ty).clone();
    for p in path {
        t = match (&t, p) {
            (Ty::List(x), Step::I(..)) => strip(x).clone(),
            (Ty::Map(_, x), Step::K(..)) => strip(x).clone(),
            (Ty::Msg(id), Step::F(v, f)) => strip(&def(*id).vars[*v].fields[*f].ty).clone(),
            (t, p) => panic!("harness: {:?} {:?}", t, p),
        };
    }
    t
}

/// Nodes that can be overwritten in place (`Bind::poke`), primitives included.
pub fn poke_places(ty: &Ty, v: &Val) -> Vec<(Vec<Step>, Ty)> {
    fn go(ty: &Ty, v: &Val, at: &mut Vec<Step>, out: &mut Vec<(Vec<Step>, Ty)>) {
        let ty = strip(ty);
        if out.len() >= MAX_PLACES {
            return;
        }
        out.push((at.clone(), ty.clone()));
        let mut below = |step: Step, t: &Ty, x: &Val, at: &mut Vec<Step>| {
            at.push(step);
            go(t, x, at, out);
            at.pop();
        };
        match (ty, v) {
            (Ty::List(t), Val::Seq(xs)) => {
                xs.iter().enumerate().filter(|x| looked_at(x.0, xs.len())).for_each(|(i, x)| below(Step::I(i, 0), t, x, at))
            }
            (Ty::Map(_, t), Val::Map(xs)) => xs.iter().for_each(|(k, x)| below(Step::K(*k, 0), t, x, at)),
            (Ty::Msg(id), Val::Msg(vi, fs)) => def(*id).vars[*vi]
                .fields
                .iter()
                .zip(fs)
                .enumerate()
                .for_each(|(i, (fd, x))| below(Step::F(*vi, i), &fd.ty, x, at)),
            _ => (),
        }
    }
    let mut out = Vec::new();
    go(ty, v, &mut Vec::new(), &mut out);
    out
}

pub fn poke_model(v: &mut Val, path: &[Step], new: &Val) {
    match (path.split_first(), v) {
        (None, v) => *v = new.clone(),
        (Some((Step::I(i, _), r)), Val::Seq(xs)) => poke_model(&mut xs[*i], r, new),
        (Some((Step::K(k, _), r)), Val::Map(xs)) => {
            poke_model(&mut xs.iter_mut().find(|(x, _)| x == k).unwrap().1, r, new)
        }
        (Some((Step::F(_, f), r)), Val::Msg(_, fs)) => poke_model(&mut fs[*f], r, new),
        (p, v) => panic!("harness: poke {:?} {:?}", p, v),
    }
}
