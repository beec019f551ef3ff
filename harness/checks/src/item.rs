// Written by /verif/tools; do not edit.
//! A state for typed scenarios.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;

#[steit_derive(Clone, PartialEq, Eq, Hash, State, Debug)]
pub struct Item {
        #[steit(tag = 0)]
        pub n: u8,
        #[steit(tag = 3)]
        pub xs: List<u16>,
        #[steit(tag = 1)]
        pub m: Maybe<i8>,
        #[steit(tag = 2)]
        pub e: Maybe<Maybe<u8>>,
}

impl Bind for Item {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Item", csharp: None, is_enum: false, is_state: true, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "Item", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "n", csharp: None, tag: 0, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "xs", csharp: None, tag: 3, ty: <List<u16> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<u16>" },
                FieldDef { name: "m", csharp: None, tag: 1, ty: <Maybe<i8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Maybe<i8>" },
                FieldDef { name: "e", csharp: None, tag: 2, ty: <Maybe<Maybe<u8>> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Maybe<Maybe<u8>>" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new(Runtime::new());
        x.n = Bind::build(&fs[0]);
        x.xs = Bind::build(&fs[1]);
        x.m = Bind::build(&fs[2]);
        x.e = Bind::build(&fs[3]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(rt.clone())] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.n.view(), self.xs.view(), self.m.view(), self.e.view()])
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.n.apply(rest, op),
                (x, Step::F(0, 1)) => return x.xs.apply(rest, op),
                (x, Step::F(0, 2)) => return x.m.apply(rest, op),
                (x, Step::F(0, 3)) => return x.e.apply(rest, op),
                (_, s) => panic!("Item is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on Item", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => if is_with(how) { self.set_n_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_n(prep(val, how)) as *mut Self },
            (0, 1) => if is_with(how) { self.set_xs_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_xs(prep(val, how)) as *mut Self },
            (0, 2) => if is_with(how) { self.set_m_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_m(prep(val, how)) as *mut Self },
            (0, 3) => if is_with(how) { self.set_e_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_e(prep(val, how)) as *mut Self },
            x => panic!("harness: no field {:?} in Item", x),
        };
        assert!(this == ret, "a setter of Item returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.n.poke(rest, val),
                (x, Step::F(0, 1)) => return x.xs.poke(rest, val),
                (x, Step::F(0, 2)) => return x.m.poke(rest, val),
                (x, Step::F(0, 3)) => return x.e.poke(rest, val),
                (_, s) => panic!("Item is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.n.node(rest, f),
                (x, Step::F(0, 1)) => return x.xs.node(rest, f),
                (x, Step::F(0, 2)) => return x.m.node(rest, f),
                (x, Step::F(0, 3)) => return x.e.node(rest, f),
                (_, s) => panic!("Item is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        visit(at, State::runtime(self));
                at.push(0); self.n.wiring(at, visit); at.pop();
                at.push(3); self.xs.wiring(at, visit); at.pop();
                at.push(1); self.m.wiring(at, visit); at.pop();
                at.push(2); self.e.wiring(at, visit); at.pop();
    }
}
