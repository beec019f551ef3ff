// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, Serialize, Deserialize, Debug)]
pub struct PlainG<T> {
        #[steit(tag = 0)]
        pub t: T,
        #[steit(tag = 1)]
        pub v: Vec<T>,
        #[steit(tag = 2)]
        pub o: Option<T>,
}

impl<T: Bind> Bind for PlainG<T> {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "PlainG", csharp: None, is_enum: false, is_state: false, builtin: false, no_meta: false, setters: false, params: vec!["T"], vars: vec![
            VarDef { name: "PlainG", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "t", csharp: None, tag: 0, ty: <T as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "T" },
                FieldDef { name: "v", csharp: None, tag: 1, ty: <Vec<T> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<T>" },
                FieldDef { name: "o", csharp: None, tag: 2, ty: <Option<T> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Option<T>" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new();
        x.t = Bind::build(&fs[0]);
        x.v = Bind::build(&fs[1]);
        x.o = Bind::build(&fs[2]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new()] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.t.view(), self.v.view(), self.o.view()])
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.t.poke(rest, val),
                (x, Step::F(0, 1)) => return x.v.poke(rest, val),
                (x, Step::F(0, 2)) => return x.o.poke(rest, val),
                (_, s) => panic!("PlainG is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
}
