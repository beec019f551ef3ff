// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, Eq, Hash, State, Debug)]
pub struct Leaf {
        #[steit(tag = 0)]
        pub a: u8,
        #[steit(tag = 1)]
        pub b: i64,
        #[steit(tag = 2)]
        pub c: bool,
}

impl Bind for Leaf {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Leaf", csharp: None, is_enum: false, is_state: true, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "Leaf", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "a", csharp: None, tag: 0, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "b", csharp: None, tag: 1, ty: <i64 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i64" },
                FieldDef { name: "c", csharp: None, tag: 2, ty: <bool as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "bool" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new(Runtime::new());
        x.a = Bind::build(&fs[0]);
        x.b = Bind::build(&fs[1]);
        x.c = Bind::build(&fs[2]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(rt.clone())] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.a.view(), self.b.view(), self.c.view()])
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.a.apply(rest, op),
                (x, Step::F(0, 1)) => return x.b.apply(rest, op),
                (x, Step::F(0, 2)) => return x.c.apply(rest, op),
                (_, s) => panic!("Leaf is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on Leaf", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => if is_with(how) { self.set_a_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_a(prep(val, how)) as *mut Self },
            (0, 1) => if is_with(how) { self.set_b_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_b(prep(val, how)) as *mut Self },
            (0, 2) => if is_with(how) { self.set_c_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_c(prep(val, how)) as *mut Self },
            x => panic!("harness: no field {:?} in Leaf", x),
        };
        assert!(this == ret, "a setter of Leaf returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.a.poke(rest, val),
                (x, Step::F(0, 1)) => return x.b.poke(rest, val),
                (x, Step::F(0, 2)) => return x.c.poke(rest, val),
                (_, s) => panic!("Leaf is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.a.node(rest, f),
                (x, Step::F(0, 1)) => return x.b.node(rest, f),
                (x, Step::F(0, 2)) => return x.c.node(rest, f),
                (_, s) => panic!("Leaf is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        visit(at, State::runtime(self));
                at.push(0); self.a.wiring(at, visit); at.pop();
                at.push(1); self.b.wiring(at, visit); at.pop();
                at.push(2); self.c.wiring(at, visit); at.pop();
    }
}
