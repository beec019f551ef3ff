// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, Eq, Hash, State, Debug)]
pub enum Color {
    #[steit(tag = 0)]
    Red,
    #[steit(tag = 1)]
    Green,
    #[steit(tag = 2)]
    Blue,
}

impl Bind for Color {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Color", csharp: None, is_enum: true, is_state: true, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "Red", csharp: None, tag: 0, fields: vec![
            ] },
            VarDef { name: "Green", csharp: None, tag: 1, fields: vec![
            ] },
            VarDef { name: "Blue", csharp: None, tag: 2, fields: vec![
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        match vi {
            0 => {
                let mut x = Self::new_red(Runtime::new());
                x
            }
            1 => {
                let mut x = Self::new_green(Runtime::new());
                x
            }
            2 => {
                let mut x = Self::new_blue(Runtime::new());
                x
            }
            _ => panic!("harness: variant index {}", vi),
        }
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(rt.clone()), Self::new_red(rt.clone()), Self::new_green(rt.clone()), Self::new_blue(rt.clone())] }
    fn view(&self) -> Val {
        match self {
            Color::Red {  .. } => Val::Msg(0, vec![]),
            Color::Green {  .. } => Val::Msg(1, vec![]),
            Color::Blue {  .. } => Val::Msg(2, vec![]),
        }
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (_, s) => panic!("Color is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on Color", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            x => panic!("harness: no field {:?} in Color", x),
        };
        assert!(this == ret, "a setter of Color returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (_, s) => panic!("Color is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (_, s) => panic!("Color is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        match self {
            Color::Red {  .. } => {
                at.push(0);
                visit(at, State::runtime(self));
                at.pop();
            }
            Color::Green {  .. } => {
                at.push(1);
                visit(at, State::runtime(self));
                at.pop();
            }
            Color::Blue {  .. } => {
                at.push(2);
                visit(at, State::runtime(self));
                at.pop();
            }
        }
    }
}
