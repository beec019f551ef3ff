// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, State, Debug)]
pub struct Cyc2 {
        #[steit(tag = 0)]
        pub back: Map<u32, Cyc>,
        #[steit(tag = 1)]
        pub own: Maybe<Box<Cyc>>,
        #[steit(tag = 2)]
        pub n: i8,
}

impl Bind for Cyc2 {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Cyc2", csharp: None, is_enum: false, is_state: true, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "Cyc2", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "back", csharp: None, tag: 0, ty: <Map<u32, Cyc> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Map<u32, Cyc>" },
                FieldDef { name: "own", csharp: None, tag: 1, ty: <Maybe<Box<Cyc>> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Maybe<Box<Cyc>>" },
                FieldDef { name: "n", csharp: None, tag: 2, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new(Runtime::new());
        x.back = Bind::build(&fs[0]);
        x.own = Bind::build(&fs[1]);
        x.n = Bind::build(&fs[2]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(rt.clone())] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.back.view(), self.own.view(), self.n.view()])
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.back.apply(rest, op),
                (x, Step::F(0, 1)) => return x.own.apply(rest, op),
                (x, Step::F(0, 2)) => return x.n.apply(rest, op),
                (_, s) => panic!("Cyc2 is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on Cyc2", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => if is_with(how) { self.set_back_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_back(prep(val, how)) as *mut Self },
            (0, 1) => if is_with(how) { self.set_own_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_own(prep(val, how)) as *mut Self },
            (0, 2) => if is_with(how) { self.set_n_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_n(prep(val, how)) as *mut Self },
            x => panic!("harness: no field {:?} in Cyc2", x),
        };
        assert!(this == ret, "a setter of Cyc2 returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.back.poke(rest, val),
                (x, Step::F(0, 1)) => return x.own.poke(rest, val),
                (x, Step::F(0, 2)) => return x.n.poke(rest, val),
                (_, s) => panic!("Cyc2 is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.back.node(rest, f),
                (x, Step::F(0, 1)) => return x.own.node(rest, f),
                (x, Step::F(0, 2)) => return x.n.node(rest, f),
                (_, s) => panic!("Cyc2 is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        visit(at, State::runtime(self));
                at.push(0); self.back.wiring(at, visit); at.pop();
                at.push(1); self.own.wiring(at, visit); at.pop();
                at.push(2); self.n.wiring(at, visit); at.pop();
    }
}
