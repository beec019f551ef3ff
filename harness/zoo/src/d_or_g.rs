// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, Serialize, Deserialize, Debug)]
pub enum OrG<T> {
    #[steit(tag = 0)]
    Many(#[steit(tag = 0)] Vec<T>),
    #[steit(tag = 1)]
    Val(#[steit(tag = 0)] T),
}

impl<T: Bind> Bind for OrG<T> {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "OrG", csharp: None, is_enum: true, is_state: false, builtin: false, no_meta: false, setters: false, params: vec!["T"], vars: vec![
            VarDef { name: "Many", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "f0", csharp: None, tag: 0, ty: <Vec<T> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<T>" },
            ] },
            VarDef { name: "Val", csharp: None, tag: 1, fields: vec![
                FieldDef { name: "f0", csharp: None, tag: 0, ty: <T as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "T" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        match vi {
            0 => {
                let mut x = Self::new_many();
                if let OrG::Many { 0: g0, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                }
                x
            }
            1 => {
                let mut x = Self::new_val();
                if let OrG::Val { 0: g0, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                }
                x
            }
            _ => panic!("harness: variant index {}", vi),
        }
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(), Self::new_many(), Self::new_val()] }
    fn view(&self) -> Val {
        match self {
            OrG::Many { 0: g0,  .. } => Val::Msg(0, vec![g0.view()]),
            OrG::Val { 0: g0,  .. } => Val::Msg(1, vec![g0.view()]),
        }
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (OrG::Many { 0: g, .. }, Step::F(0, 0)) => return g.poke(rest, val),
                (OrG::Val { 0: g, .. }, Step::F(1, 0)) => return g.poke(rest, val),
                (_, s) => panic!("OrG is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
}
