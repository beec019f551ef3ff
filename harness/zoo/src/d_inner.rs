// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, State, Debug)]
pub struct Inner {
        #[steit(tag = 3)]
        pub leaf: Leaf,
        #[steit(tag = 1)]
        pub list: List<Leaf>,
        #[steit(tag = 0)]
        pub n: u16,
}

impl Bind for Inner {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Inner", csharp: None, is_enum: false, is_state: true, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "Inner", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "leaf", csharp: None, tag: 3, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "list", csharp: None, tag: 1, ty: <List<Leaf> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<Leaf>" },
                FieldDef { name: "n", csharp: None, tag: 0, ty: <u16 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u16" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new(Runtime::new());
        x.leaf = Bind::build(&fs[0]);
        x.list = Bind::build(&fs[1]);
        x.n = Bind::build(&fs[2]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(rt.clone())] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.leaf.view(), self.list.view(), self.n.view()])
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.leaf.apply(rest, op),
                (x, Step::F(0, 1)) => return x.list.apply(rest, op),
                (x, Step::F(0, 2)) => return x.n.apply(rest, op),
                (_, s) => panic!("Inner is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on Inner", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => if is_with(how) { self.set_leaf_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_leaf(prep(val, how)) as *mut Self },
            (0, 1) => if is_with(how) { self.set_list_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_list(prep(val, how)) as *mut Self },
            (0, 2) => if is_with(how) { self.set_n_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_n(prep(val, how)) as *mut Self },
            x => panic!("harness: no field {:?} in Inner", x),
        };
        assert!(this == ret, "a setter of Inner returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.leaf.poke(rest, val),
                (x, Step::F(0, 1)) => return x.list.poke(rest, val),
                (x, Step::F(0, 2)) => return x.n.poke(rest, val),
                (_, s) => panic!("Inner is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.leaf.node(rest, f),
                (x, Step::F(0, 1)) => return x.list.node(rest, f),
                (x, Step::F(0, 2)) => return x.n.node(rest, f),
                (_, s) => panic!("Inner is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        visit(at, State::runtime(self));
                at.push(3); self.leaf.wiring(at, visit); at.pop();
                at.push(1); self.list.wiring(at, visit); at.pop();
                at.push(0); self.n.wiring(at, visit); at.pop();
    }
}
