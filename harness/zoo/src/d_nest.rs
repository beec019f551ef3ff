// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, State, Debug)]
pub struct Nest {
        #[steit(tag = 0)]
        pub leaf: Leaf,
        #[steit(tag = 1)]
        pub inner: Inner,
        #[steit(tag = 20)]
        pub other: Inner,
        #[steit(tag = 300)]
        pub flag: bool,
}

impl Bind for Nest {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Nest", csharp: None, is_enum: false, is_state: true, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "Nest", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "leaf", csharp: None, tag: 0, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "inner", csharp: None, tag: 1, ty: <Inner as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Inner" },
                FieldDef { name: "other", csharp: None, tag: 20, ty: <Inner as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Inner" },
                FieldDef { name: "flag", csharp: None, tag: 300, ty: <bool as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "bool" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new(Runtime::new());
        x.leaf = Bind::build(&fs[0]);
        x.inner = Bind::build(&fs[1]);
        x.other = Bind::build(&fs[2]);
        x.flag = Bind::build(&fs[3]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(rt.clone())] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.leaf.view(), self.inner.view(), self.other.view(), self.flag.view()])
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.leaf.apply(rest, op),
                (x, Step::F(0, 1)) => return x.inner.apply(rest, op),
                (x, Step::F(0, 2)) => return x.other.apply(rest, op),
                (x, Step::F(0, 3)) => return x.flag.apply(rest, op),
                (_, s) => panic!("Nest is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on Nest", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => if is_with(how) { self.set_leaf_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_leaf(prep(val, how)) as *mut Self },
            (0, 1) => if is_with(how) { self.set_inner_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_inner(prep(val, how)) as *mut Self },
            (0, 2) => if is_with(how) { self.set_other_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_other(prep(val, how)) as *mut Self },
            (0, 3) => if is_with(how) { self.set_flag_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_flag(prep(val, how)) as *mut Self },
            x => panic!("harness: no field {:?} in Nest", x),
        };
        assert!(this == ret, "a setter of Nest returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.leaf.poke(rest, val),
                (x, Step::F(0, 1)) => return x.inner.poke(rest, val),
                (x, Step::F(0, 2)) => return x.other.poke(rest, val),
                (x, Step::F(0, 3)) => return x.flag.poke(rest, val),
                (_, s) => panic!("Nest is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.leaf.node(rest, f),
                (x, Step::F(0, 1)) => return x.inner.node(rest, f),
                (x, Step::F(0, 2)) => return x.other.node(rest, f),
                (x, Step::F(0, 3)) => return x.flag.node(rest, f),
                (_, s) => panic!("Nest is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        visit(at, State::runtime(self));
                at.push(0); self.leaf.wiring(at, visit); at.pop();
                at.push(1); self.inner.wiring(at, visit); at.pop();
                at.push(20); self.other.wiring(at, visit); at.pop();
                at.push(300); self.flag.wiring(at, visit); at.pop();
    }
}
