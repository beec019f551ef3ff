// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, Hash, State, Debug)]
pub enum GEnum<T, U> {
    #[steit(tag = 0)]
    Nothing,
    #[steit(tag = 1)]
    One(#[steit(tag = 0)] T),
    #[steit(tag = 2)]
    Both {
        #[steit(tag = 0)]
        x: T,
        #[steit(tag = 9)]
        y: GPair<U, T>,
},
}

impl<T: Bind + State + std::hash::Hash, U: Bind + State + std::hash::Hash> Bind for GEnum<T, U> {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "GEnum", csharp: None, is_enum: true, is_state: true, builtin: false, no_meta: false, setters: true, params: vec!["T", "U"], vars: vec![
            VarDef { name: "Nothing", csharp: None, tag: 0, fields: vec![
            ] },
            VarDef { name: "One", csharp: None, tag: 1, fields: vec![
                FieldDef { name: "f0", csharp: None, tag: 0, ty: <T as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "T" },
            ] },
            VarDef { name: "Both", csharp: None, tag: 2, fields: vec![
                FieldDef { name: "x", csharp: None, tag: 0, ty: <T as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "T" },
                FieldDef { name: "y", csharp: None, tag: 9, ty: <GPair<U, T> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "GPair<U, T>" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        match vi {
            0 => {
                let mut x = Self::new_nothing(Runtime::new());
                x
            }
            1 => {
                let mut x = Self::new_one(Runtime::new());
                if let GEnum::One { 0: g0, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                }
                x
            }
            2 => {
                let mut x = Self::new_both(Runtime::new());
                if let GEnum::Both { x: g0, y: g1, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                    *g1 = Bind::build(&fs[1]);
                }
                x
            }
            _ => panic!("harness: variant index {}", vi),
        }
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(rt.clone()), Self::new_nothing(rt.clone()), Self::new_one(rt.clone()), Self::new_both(rt.clone())] }
    fn view(&self) -> Val {
        match self {
            GEnum::Nothing {  .. } => Val::Msg(0, vec![]),
            GEnum::One { 0: g0,  .. } => Val::Msg(1, vec![g0.view()]),
            GEnum::Both { x: g0, y: g1,  .. } => Val::Msg(2, vec![g0.view(), g1.view()]),
        }
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (GEnum::One { 0: g, .. }, Step::F(1, 0)) => return g.apply(rest, op),
                (GEnum::Both { x: g, .. }, Step::F(2, 0)) => return g.apply(rest, op),
                (GEnum::Both { y: g, .. }, Step::F(2, 1)) => return g.apply(rest, op),
                (_, s) => panic!("GEnum is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on GEnum", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (1, 0) => if is_with(how) { self.set_one_f0_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_one_f0(prep(val, how)) as *mut Self },
            (2, 0) => if is_with(how) { self.set_both_x_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_both_x(prep(val, how)) as *mut Self },
            (2, 1) => if is_with(how) { self.set_both_y_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_both_y(prep(val, how)) as *mut Self },
            x => panic!("harness: no field {:?} in GEnum", x),
        };
        assert!(this == ret, "a setter of GEnum returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (GEnum::One { 0: g, .. }, Step::F(1, 0)) => return g.poke(rest, val),
                (GEnum::Both { x: g, .. }, Step::F(2, 0)) => return g.poke(rest, val),
                (GEnum::Both { y: g, .. }, Step::F(2, 1)) => return g.poke(rest, val),
                (_, s) => panic!("GEnum is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (GEnum::One { 0: g, .. }, Step::F(1, 0)) => return g.node(rest, f),
                (GEnum::Both { x: g, .. }, Step::F(2, 0)) => return g.node(rest, f),
                (GEnum::Both { y: g, .. }, Step::F(2, 1)) => return g.node(rest, f),
                (_, s) => panic!("GEnum is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        match self {
            GEnum::Nothing {  .. } => {
                at.push(0);
                visit(at, State::runtime(self));
                at.pop();
            }
            GEnum::One { 0: g0,  .. } => {
                at.push(1);
                visit(at, State::runtime(self));
                at.push(0); g0.wiring(at, visit); at.pop();
                at.pop();
            }
            GEnum::Both { x: g0, y: g1,  .. } => {
                at.push(2);
                visit(at, State::runtime(self));
                at.push(0); g0.wiring(at, visit); at.pop();
                at.push(9); g1.wiring(at, visit); at.pop();
                at.pop();
            }
        }
    }
}
