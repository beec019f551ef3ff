// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, Hash, State, Debug)]
pub enum PartE {
    #[steit(tag = 0)]
    A {
        #[steit(tag = 0)]
        x: u8,
        #[steit(tag = 1, no_state)]
        y: String,
        #[steit(tag = 2, no_eq_hash)]
        z: u32,
},
    #[steit(tag = 1)]
    B(#[steit(tag = 0, no_state)] Leaf, #[steit(tag = 1)] Leaf, #[steit(tag = 2, no_hash)] i8),
}

impl Bind for PartE {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "PartE", csharp: None, is_enum: true, is_state: true, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "A", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "x", csharp: None, tag: 0, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "y", csharp: None, tag: 1, ty: <String as Bind>::ty(), no_state: true, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "z", csharp: None, tag: 2, ty: <u32 as Bind>::ty(), no_state: false, no_eq: true, no_hash: false, src: "u32" },
            ] },
            VarDef { name: "B", csharp: None, tag: 1, fields: vec![
                FieldDef { name: "f0", csharp: None, tag: 0, ty: <Leaf as Bind>::ty(), no_state: true, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "f1", csharp: None, tag: 1, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "f2", csharp: None, tag: 2, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: true, src: "i8" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        match vi {
            0 => {
                let mut x = Self::new_a(Runtime::new());
                if let PartE::A { x: g0, y: g1, z: g2, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                    *g1 = Bind::build(&fs[1]);
                    *g2 = Bind::build(&fs[2]);
                }
                x
            }
            1 => {
                let mut x = Self::new_b(Runtime::new());
                if let PartE::B { 0: g0, 1: g1, 2: g2, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                    *g1 = Bind::build(&fs[1]);
                    *g2 = Bind::build(&fs[2]);
                }
                x
            }
            _ => panic!("harness: variant index {}", vi),
        }
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(rt.clone()), Self::new_a(rt.clone()), Self::new_b(rt.clone())] }
    fn view(&self) -> Val {
        match self {
            PartE::A { x: g0, y: g1, z: g2,  .. } => Val::Msg(0, vec![g0.view(), g1.view(), g2.view()]),
            PartE::B { 0: g0, 1: g1, 2: g2,  .. } => Val::Msg(1, vec![g0.view(), g1.view(), g2.view()]),
        }
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (PartE::A { x: g, .. }, Step::F(0, 0)) => return g.apply(rest, op),
                (PartE::A { y: g, .. }, Step::F(0, 1)) => return g.apply(rest, op),
                (PartE::A { z: g, .. }, Step::F(0, 2)) => return g.apply(rest, op),
                (PartE::B { 0: g, .. }, Step::F(1, 0)) => return g.apply(rest, op),
                (PartE::B { 1: g, .. }, Step::F(1, 1)) => return g.apply(rest, op),
                (PartE::B { 2: g, .. }, Step::F(1, 2)) => return g.apply(rest, op),
                (_, s) => panic!("PartE is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on PartE", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => if is_with(how) { self.set_a_x_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_a_x(prep(val, how)) as *mut Self },
            (0, 1) => self.set_a_y(Bind::build(val)) as *mut Self,
            (0, 2) => if is_with(how) { self.set_a_z_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_a_z(prep(val, how)) as *mut Self },
            (1, 0) => self.set_b_f0(Bind::build(val)) as *mut Self,
            (1, 1) => if is_with(how) { self.set_b_f1_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_b_f1(prep(val, how)) as *mut Self },
            (1, 2) => if is_with(how) { self.set_b_f2_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_b_f2(prep(val, how)) as *mut Self },
            x => panic!("harness: no field {:?} in PartE", x),
        };
        assert!(this == ret, "a setter of PartE returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (PartE::A { x: g, .. }, Step::F(0, 0)) => return g.poke(rest, val),
                (PartE::A { y: g, .. }, Step::F(0, 1)) => return g.poke(rest, val),
                (PartE::A { z: g, .. }, Step::F(0, 2)) => return g.poke(rest, val),
                (PartE::B { 0: g, .. }, Step::F(1, 0)) => return g.poke(rest, val),
                (PartE::B { 1: g, .. }, Step::F(1, 1)) => return g.poke(rest, val),
                (PartE::B { 2: g, .. }, Step::F(1, 2)) => return g.poke(rest, val),
                (_, s) => panic!("PartE is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (PartE::A { x: g, .. }, Step::F(0, 0)) => return g.node(rest, f),
                (PartE::A { z: g, .. }, Step::F(0, 2)) => return g.node(rest, f),
                (PartE::B { 1: g, .. }, Step::F(1, 1)) => return g.node(rest, f),
                (PartE::B { 2: g, .. }, Step::F(1, 2)) => return g.node(rest, f),
                (_, s) => panic!("PartE is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        match self {
            PartE::A { x: g0, y: g1, z: g2,  .. } => {
                at.push(0);
                visit(at, State::runtime(self));
                at.push(0); g0.wiring(at, visit); at.pop();
                at.push(2); g2.wiring(at, visit); at.pop();
                at.pop();
            }
            PartE::B { 0: g0, 1: g1, 2: g2,  .. } => {
                at.push(1);
                visit(at, State::runtime(self));
                at.push(1); g1.wiring(at, visit); at.pop();
                at.push(2); g2.wiring(at, visit); at.pop();
                at.pop();
            }
        }
    }
}
