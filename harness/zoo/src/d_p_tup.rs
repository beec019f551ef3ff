// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, Hash, Serialize, Deserialize, Debug)]
#[steit(derive_setters)]
pub struct PTup(#[steit(tag = 1)] pub String, #[steit(tag = 0)] pub Vec<u8>, #[steit(tag = 8)] pub i8);

impl Bind for PTup {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "PTup", csharp: None, is_enum: false, is_state: false, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "PTup", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "f0", csharp: None, tag: 1, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "f1", csharp: None, tag: 0, ty: <Vec<u8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<u8>" },
                FieldDef { name: "f2", csharp: None, tag: 8, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new();
        x.0 = Bind::build(&fs[0]);
        x.1 = Bind::build(&fs[1]);
        x.2 = Bind::build(&fs[2]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new()] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.0.view(), self.1.view(), self.2.view()])
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.0.apply(rest, op),
                (x, Step::F(0, 1)) => return x.1.apply(rest, op),
                (x, Step::F(0, 2)) => return x.2.apply(rest, op),
                (_, s) => panic!("PTup is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on PTup", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => self.set_f0(Bind::build(val)) as *mut Self,
            (0, 1) => self.set_f1(Bind::build(val)) as *mut Self,
            (0, 2) => self.set_f2(Bind::build(val)) as *mut Self,
            x => panic!("harness: no field {:?} in PTup", x),
        };
        assert!(this == ret, "a setter of PTup returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.0.poke(rest, val),
                (x, Step::F(0, 1)) => return x.1.poke(rest, val),
                (x, Step::F(0, 2)) => return x.2.poke(rest, val),
                (_, s) => panic!("PTup is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
}

#[steit_derive(Clone, PartialEq, Hash, Serialize, Default, Debug)]
#[steit(derive_setters)]
pub struct LentPTup<'a>(#[steit(tag = 1)] pub &'a str, #[steit(tag = 0)] pub Vec<u8>, #[steit(tag = 8)] pub i8);
impl PTup {
    pub fn lend(&self) -> LentPTup<'_> {
        let mut x = LentPTup::new();
        x.0 = (&self.0).as_str();
        x.1 = (&self.1).clone();
        x.2 = (&self.2).clone();
        x
    }
}
