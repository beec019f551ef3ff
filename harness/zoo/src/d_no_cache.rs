// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, State, Debug)]
#[steit(no_size_cache)]
pub struct NoCache {
        #[steit(tag = 0)]
        pub a: u32,
        #[steit(tag = 1)]
        pub l: List<Leaf>,
        #[steit(tag = 2)]
        pub leaf: Leaf,
}

impl Bind for NoCache {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "NoCache", csharp: None, is_enum: false, is_state: true, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "NoCache", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "a", csharp: None, tag: 0, ty: <u32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u32" },
                FieldDef { name: "l", csharp: None, tag: 1, ty: <List<Leaf> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<Leaf>" },
                FieldDef { name: "leaf", csharp: None, tag: 2, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new(Runtime::new());
        x.a = Bind::build(&fs[0]);
        x.l = Bind::build(&fs[1]);
        x.leaf = Bind::build(&fs[2]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(rt.clone())] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.a.view(), self.l.view(), self.leaf.view()])
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.a.apply(rest, op),
                (x, Step::F(0, 1)) => return x.l.apply(rest, op),
                (x, Step::F(0, 2)) => return x.leaf.apply(rest, op),
                (_, s) => panic!("NoCache is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on NoCache", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => if is_with(how) { self.set_a_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_a(prep(val, how)) as *mut Self },
            (0, 1) => if is_with(how) { self.set_l_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_l(prep(val, how)) as *mut Self },
            (0, 2) => if is_with(how) { self.set_leaf_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_leaf(prep(val, how)) as *mut Self },
            x => panic!("harness: no field {:?} in NoCache", x),
        };
        assert!(this == ret, "a setter of NoCache returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.a.poke(rest, val),
                (x, Step::F(0, 1)) => return x.l.poke(rest, val),
                (x, Step::F(0, 2)) => return x.leaf.poke(rest, val),
                (_, s) => panic!("NoCache is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.a.node(rest, f),
                (x, Step::F(0, 1)) => return x.l.node(rest, f),
                (x, Step::F(0, 2)) => return x.leaf.node(rest, f),
                (_, s) => panic!("NoCache is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        visit(at, State::runtime(self));
                at.push(0); self.a.wiring(at, visit); at.pop();
                at.push(1); self.l.wiring(at, visit); at.pop();
                at.push(2); self.leaf.wiring(at, visit); at.pop();
    }
}
