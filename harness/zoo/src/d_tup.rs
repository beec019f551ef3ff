// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, Hash, State, Debug)]
pub struct Tup(#[steit(tag = 4)] pub u8, #[steit(tag = 2)] pub Leaf, #[steit(tag = 0)] pub List<i16>, #[steit(tag = 30)] pub Shape);

impl Bind for Tup {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Tup", csharp: None, is_enum: false, is_state: true, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "Tup", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "f0", csharp: None, tag: 4, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "f1", csharp: None, tag: 2, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "f2", csharp: None, tag: 0, ty: <List<i16> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<i16>" },
                FieldDef { name: "f3", csharp: None, tag: 30, ty: <Shape as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Shape" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new(Runtime::new());
        x.0 = Bind::build(&fs[0]);
        x.1 = Bind::build(&fs[1]);
        x.2 = Bind::build(&fs[2]);
        x.3 = Bind::build(&fs[3]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(rt.clone())] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.0.view(), self.1.view(), self.2.view(), self.3.view()])
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.0.apply(rest, op),
                (x, Step::F(0, 1)) => return x.1.apply(rest, op),
                (x, Step::F(0, 2)) => return x.2.apply(rest, op),
                (x, Step::F(0, 3)) => return x.3.apply(rest, op),
                (_, s) => panic!("Tup is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on Tup", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => if is_with(how) { self.set_f0_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_f0(prep(val, how)) as *mut Self },
            (0, 1) => if is_with(how) { self.set_f1_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_f1(prep(val, how)) as *mut Self },
            (0, 2) => if is_with(how) { self.set_f2_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_f2(prep(val, how)) as *mut Self },
            (0, 3) => if is_with(how) { self.set_f3_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_f3(prep(val, how)) as *mut Self },
            x => panic!("harness: no field {:?} in Tup", x),
        };
        assert!(this == ret, "a setter of Tup returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.0.poke(rest, val),
                (x, Step::F(0, 1)) => return x.1.poke(rest, val),
                (x, Step::F(0, 2)) => return x.2.poke(rest, val),
                (x, Step::F(0, 3)) => return x.3.poke(rest, val),
                (_, s) => panic!("Tup is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.0.node(rest, f),
                (x, Step::F(0, 1)) => return x.1.node(rest, f),
                (x, Step::F(0, 2)) => return x.2.node(rest, f),
                (x, Step::F(0, 3)) => return x.3.node(rest, f),
                (_, s) => panic!("Tup is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        visit(at, State::runtime(self));
                at.push(4); self.0.wiring(at, visit); at.pop();
                at.push(2); self.1.wiring(at, visit); at.pop();
                at.push(0); self.2.wiring(at, visit); at.pop();
                at.push(30); self.3.wiring(at, visit); at.pop();
    }
}
