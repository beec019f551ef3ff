// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, Eq, Hash, State, Debug)]
#[steit(reserved_tags(9, 10))]
pub enum Shape {
    #[steit(tag = 3)]
    Dot,
    #[steit(tag = 0)]
    Circle {
        #[steit(tag = 0)]
        r: u32,
        #[steit(tag = 1)]
        leaf: Leaf,
},
    #[steit(tag = 1)]
    Pair(#[steit(tag = 0)] i32, #[steit(tag = 5)] Leaf),
    #[steit(tag = 300, reserved_tags(7, 8))]
    LongName {
        #[steit(tag = 2)]
        items: List<u16>,
        #[steit(tag = 1)]
        sub_leaf: Leaf,
},
    #[steit(tag = 7)]
    Empty {
},
    #[steit(tag = 2048)]
    EmptyTuple(),
}

impl Bind for Shape {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Shape", csharp: None, is_enum: true, is_state: true, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "Dot", csharp: None, tag: 3, fields: vec![
            ] },
            VarDef { name: "Circle", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "r", csharp: None, tag: 0, ty: <u32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u32" },
                FieldDef { name: "leaf", csharp: None, tag: 1, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
            ] },
            VarDef { name: "Pair", csharp: None, tag: 1, fields: vec![
                FieldDef { name: "f0", csharp: None, tag: 0, ty: <i32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i32" },
                FieldDef { name: "f1", csharp: None, tag: 5, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
            ] },
            VarDef { name: "LongName", csharp: None, tag: 300, fields: vec![
                FieldDef { name: "items", csharp: None, tag: 2, ty: <List<u16> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<u16>" },
                FieldDef { name: "sub_leaf", csharp: None, tag: 1, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
            ] },
            VarDef { name: "Empty", csharp: None, tag: 7, fields: vec![
            ] },
            VarDef { name: "EmptyTuple", csharp: None, tag: 2048, fields: vec![
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        match vi {
            0 => {
                let mut x = Self::new_dot(Runtime::new());
                x
            }
            1 => {
                let mut x = Self::new_circle(Runtime::new());
                if let Shape::Circle { r: g0, leaf: g1, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                    *g1 = Bind::build(&fs[1]);
                }
                x
            }
            2 => {
                let mut x = Self::new_pair(Runtime::new());
                if let Shape::Pair { 0: g0, 1: g1, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                    *g1 = Bind::build(&fs[1]);
                }
                x
            }
            3 => {
                let mut x = Self::new_long_name(Runtime::new());
                if let Shape::LongName { items: g0, sub_leaf: g1, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                    *g1 = Bind::build(&fs[1]);
                }
                x
            }
            4 => {
                let mut x = Self::new_empty(Runtime::new());
                x
            }
            5 => {
                let mut x = Self::new_empty_tuple(Runtime::new());
                x
            }
            _ => panic!("harness: variant index {}", vi),
        }
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(rt.clone()), Self::new_dot(rt.clone()), Self::new_circle(rt.clone()), Self::new_pair(rt.clone()), Self::new_long_name(rt.clone()), Self::new_empty(rt.clone()), Self::new_empty_tuple(rt.clone())] }
    fn view(&self) -> Val {
        match self {
            Shape::Dot {  .. } => Val::Msg(0, vec![]),
            Shape::Circle { r: g0, leaf: g1,  .. } => Val::Msg(1, vec![g0.view(), g1.view()]),
            Shape::Pair { 0: g0, 1: g1,  .. } => Val::Msg(2, vec![g0.view(), g1.view()]),
            Shape::LongName { items: g0, sub_leaf: g1,  .. } => Val::Msg(3, vec![g0.view(), g1.view()]),
            Shape::Empty {  .. } => Val::Msg(4, vec![]),
            Shape::EmptyTuple {  .. } => Val::Msg(5, vec![]),
        }
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (Shape::Circle { r: g, .. }, Step::F(1, 0)) => return g.apply(rest, op),
                (Shape::Circle { leaf: g, .. }, Step::F(1, 1)) => return g.apply(rest, op),
                (Shape::Pair { 0: g, .. }, Step::F(2, 0)) => return g.apply(rest, op),
                (Shape::Pair { 1: g, .. }, Step::F(2, 1)) => return g.apply(rest, op),
                (Shape::LongName { items: g, .. }, Step::F(3, 0)) => return g.apply(rest, op),
                (Shape::LongName { sub_leaf: g, .. }, Step::F(3, 1)) => return g.apply(rest, op),
                (_, s) => panic!("Shape is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on Shape", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (1, 0) => if is_with(how) { self.set_circle_r_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_circle_r(prep(val, how)) as *mut Self },
            (1, 1) => if is_with(how) { self.set_circle_leaf_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_circle_leaf(prep(val, how)) as *mut Self },
            (2, 0) => if is_with(how) { self.set_pair_f0_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_pair_f0(prep(val, how)) as *mut Self },
            (2, 1) => if is_with(how) { self.set_pair_f1_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_pair_f1(prep(val, how)) as *mut Self },
            (3, 0) => if is_with(how) { self.set_long_name_items_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_long_name_items(prep(val, how)) as *mut Self },
            (3, 1) => if is_with(how) { self.set_long_name_sub_leaf_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_long_name_sub_leaf(prep(val, how)) as *mut Self },
            x => panic!("harness: no field {:?} in Shape", x),
        };
        assert!(this == ret, "a setter of Shape returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (Shape::Circle { r: g, .. }, Step::F(1, 0)) => return g.poke(rest, val),
                (Shape::Circle { leaf: g, .. }, Step::F(1, 1)) => return g.poke(rest, val),
                (Shape::Pair { 0: g, .. }, Step::F(2, 0)) => return g.poke(rest, val),
                (Shape::Pair { 1: g, .. }, Step::F(2, 1)) => return g.poke(rest, val),
                (Shape::LongName { items: g, .. }, Step::F(3, 0)) => return g.poke(rest, val),
                (Shape::LongName { sub_leaf: g, .. }, Step::F(3, 1)) => return g.poke(rest, val),
                (_, s) => panic!("Shape is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (Shape::Circle { r: g, .. }, Step::F(1, 0)) => return g.node(rest, f),
                (Shape::Circle { leaf: g, .. }, Step::F(1, 1)) => return g.node(rest, f),
                (Shape::Pair { 0: g, .. }, Step::F(2, 0)) => return g.node(rest, f),
                (Shape::Pair { 1: g, .. }, Step::F(2, 1)) => return g.node(rest, f),
                (Shape::LongName { items: g, .. }, Step::F(3, 0)) => return g.node(rest, f),
                (Shape::LongName { sub_leaf: g, .. }, Step::F(3, 1)) => return g.node(rest, f),
                (_, s) => panic!("Shape is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        match self {
            Shape::Dot {  .. } => {
                at.push(3);
                visit(at, State::runtime(self));
                at.pop();
            }
            Shape::Circle { r: g0, leaf: g1,  .. } => {
                at.push(0);
                visit(at, State::runtime(self));
                at.push(0); g0.wiring(at, visit); at.pop();
                at.push(1); g1.wiring(at, visit); at.pop();
                at.pop();
            }
            Shape::Pair { 0: g0, 1: g1,  .. } => {
                at.push(1);
                visit(at, State::runtime(self));
                at.push(0); g0.wiring(at, visit); at.pop();
                at.push(5); g1.wiring(at, visit); at.pop();
                at.pop();
            }
            Shape::LongName { items: g0, sub_leaf: g1,  .. } => {
                at.push(300);
                visit(at, State::runtime(self));
                at.push(2); g0.wiring(at, visit); at.pop();
                at.push(1); g1.wiring(at, visit); at.pop();
                at.pop();
            }
            Shape::Empty {  .. } => {
                at.push(7);
                visit(at, State::runtime(self));
                at.pop();
            }
            Shape::EmptyTuple {  .. } => {
                at.push(2048);
                visit(at, State::runtime(self));
                at.pop();
            }
        }
    }
}
