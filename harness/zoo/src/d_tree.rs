// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, State, Debug)]
pub enum Tree {
    #[steit(tag = 0)]
    Tip(#[steit(tag = 0)] i32),
    #[steit(tag = 1)]
    Fork {
        #[steit(tag = 0)]
        left: Box<Tree>,
        #[steit(tag = 1)]
        right: Box<Tree>,
},
    #[steit(tag = 2)]
    Node {
        #[steit(tag = 0)]
        kids: List<Tree>,
        #[steit(tag = 1)]
        by_name: Map<u8, Tree>,
        #[steit(tag = 2)]
        label: u16,
},
}

impl Bind for Tree {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Tree", csharp: None, is_enum: true, is_state: true, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "Tip", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "f0", csharp: None, tag: 0, ty: <i32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i32" },
            ] },
            VarDef { name: "Fork", csharp: None, tag: 1, fields: vec![
                FieldDef { name: "left", csharp: None, tag: 0, ty: <Box<Tree> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Box<Tree>" },
                FieldDef { name: "right", csharp: None, tag: 1, ty: <Box<Tree> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Box<Tree>" },
            ] },
            VarDef { name: "Node", csharp: None, tag: 2, fields: vec![
                FieldDef { name: "kids", csharp: None, tag: 0, ty: <List<Tree> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<Tree>" },
                FieldDef { name: "by_name", csharp: None, tag: 1, ty: <Map<u8, Tree> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Map<u8, Tree>" },
                FieldDef { name: "label", csharp: None, tag: 2, ty: <u16 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u16" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        match vi {
            0 => {
                let mut x = Self::new_tip(Runtime::new());
                if let Tree::Tip { 0: g0, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                }
                x
            }
            1 => {
                let mut x = Self::new_fork(Runtime::new());
                if let Tree::Fork { left: g0, right: g1, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                    *g1 = Bind::build(&fs[1]);
                }
                x
            }
            2 => {
                let mut x = Self::new_node(Runtime::new());
                if let Tree::Node { kids: g0, by_name: g1, label: g2, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                    *g1 = Bind::build(&fs[1]);
                    *g2 = Bind::build(&fs[2]);
                }
                x
            }
            _ => panic!("harness: variant index {}", vi),
        }
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(rt.clone()), Self::new_tip(rt.clone()), Self::new_fork(rt.clone()), Self::new_node(rt.clone())] }
    fn view(&self) -> Val {
        match self {
            Tree::Tip { 0: g0,  .. } => Val::Msg(0, vec![g0.view()]),
            Tree::Fork { left: g0, right: g1,  .. } => Val::Msg(1, vec![g0.view(), g1.view()]),
            Tree::Node { kids: g0, by_name: g1, label: g2,  .. } => Val::Msg(2, vec![g0.view(), g1.view(), g2.view()]),
        }
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (Tree::Tip { 0: g, .. }, Step::F(0, 0)) => return g.apply(rest, op),
                (Tree::Fork { left: g, .. }, Step::F(1, 0)) => return g.apply(rest, op),
                (Tree::Fork { right: g, .. }, Step::F(1, 1)) => return g.apply(rest, op),
                (Tree::Node { kids: g, .. }, Step::F(2, 0)) => return g.apply(rest, op),
                (Tree::Node { by_name: g, .. }, Step::F(2, 1)) => return g.apply(rest, op),
                (Tree::Node { label: g, .. }, Step::F(2, 2)) => return g.apply(rest, op),
                (_, s) => panic!("Tree is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on Tree", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => if is_with(how) { self.set_tip_f0_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_tip_f0(prep(val, how)) as *mut Self },
            (1, 0) => if is_with(how) { self.set_fork_left_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_fork_left(prep(val, how)) as *mut Self },
            (1, 1) => if is_with(how) { self.set_fork_right_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_fork_right(prep(val, how)) as *mut Self },
            (2, 0) => if is_with(how) { self.set_node_kids_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_node_kids(prep(val, how)) as *mut Self },
            (2, 1) => if is_with(how) { self.set_node_by_name_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_node_by_name(prep(val, how)) as *mut Self },
            (2, 2) => if is_with(how) { self.set_node_label_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_node_label(prep(val, how)) as *mut Self },
            x => panic!("harness: no field {:?} in Tree", x),
        };
        assert!(this == ret, "a setter of Tree returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (Tree::Tip { 0: g, .. }, Step::F(0, 0)) => return g.poke(rest, val),
                (Tree::Fork { left: g, .. }, Step::F(1, 0)) => return g.poke(rest, val),
                (Tree::Fork { right: g, .. }, Step::F(1, 1)) => return g.poke(rest, val),
                (Tree::Node { kids: g, .. }, Step::F(2, 0)) => return g.poke(rest, val),
                (Tree::Node { by_name: g, .. }, Step::F(2, 1)) => return g.poke(rest, val),
                (Tree::Node { label: g, .. }, Step::F(2, 2)) => return g.poke(rest, val),
                (_, s) => panic!("Tree is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (Tree::Tip { 0: g, .. }, Step::F(0, 0)) => return g.node(rest, f),
                (Tree::Fork { left: g, .. }, Step::F(1, 0)) => return g.node(rest, f),
                (Tree::Fork { right: g, .. }, Step::F(1, 1)) => return g.node(rest, f),
                (Tree::Node { kids: g, .. }, Step::F(2, 0)) => return g.node(rest, f),
                (Tree::Node { by_name: g, .. }, Step::F(2, 1)) => return g.node(rest, f),
                (Tree::Node { label: g, .. }, Step::F(2, 2)) => return g.node(rest, f),
                (_, s) => panic!("Tree is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        match self {
            Tree::Tip { 0: g0,  .. } => {
                at.push(0);
                visit(at, State::runtime(self));
                at.push(0); g0.wiring(at, visit); at.pop();
                at.pop();
            }
            Tree::Fork { left: g0, right: g1,  .. } => {
                at.push(1);
                visit(at, State::runtime(self));
                at.push(0); g0.wiring(at, visit); at.pop();
                at.push(1); g1.wiring(at, visit); at.pop();
                at.pop();
            }
            Tree::Node { kids: g0, by_name: g1, label: g2,  .. } => {
                at.push(2);
                visit(at, State::runtime(self));
                at.push(0); g0.wiring(at, visit); at.pop();
                at.push(1); g1.wiring(at, visit); at.pop();
                at.push(2); g2.wiring(at, visit); at.pop();
                at.pop();
            }
        }
    }
}
