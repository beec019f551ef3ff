// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, State, Debug)]
pub struct Cyc {
        #[steit(tag = 0)]
        pub n: u8,
        #[steit(tag = 1)]
        pub next: List<Cyc2>,
}

impl Bind for Cyc {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Cyc", csharp: None, is_enum: false, is_state: true, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "Cyc", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "n", csharp: None, tag: 0, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "next", csharp: None, tag: 1, ty: <List<Cyc2> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<Cyc2>" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new(Runtime::new());
        x.n = Bind::build(&fs[0]);
        x.next = Bind::build(&fs[1]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(rt.clone())] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.n.view(), self.next.view()])
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.n.apply(rest, op),
                (x, Step::F(0, 1)) => return x.next.apply(rest, op),
                (_, s) => panic!("Cyc is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on Cyc", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => if is_with(how) { self.set_n_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_n(prep(val, how)) as *mut Self },
            (0, 1) => if is_with(how) { self.set_next_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_next(prep(val, how)) as *mut Self },
            x => panic!("harness: no field {:?} in Cyc", x),
        };
        assert!(this == ret, "a setter of Cyc returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.n.poke(rest, val),
                (x, Step::F(0, 1)) => return x.next.poke(rest, val),
                (_, s) => panic!("Cyc is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.n.node(rest, f),
                (x, Step::F(0, 1)) => return x.next.node(rest, f),
                (_, s) => panic!("Cyc is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        visit(at, State::runtime(self));
                at.push(0); self.n.wiring(at, visit); at.pop();
                at.push(1); self.next.wiring(at, visit); at.pop();
    }
}
