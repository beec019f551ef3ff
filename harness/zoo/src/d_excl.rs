// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, Hash, Serialize, Deserialize, Debug)]
#[steit(derive_setters)]
pub struct Excl {
        #[steit(tag = 0, no_eq_hash = true)]
        pub a: String,
        #[steit(tag = 1, no_hash = true)]
        pub b: u32,
        #[steit(tag = 2)]
        pub c: Vec<u8>,
        #[steit(tag = 3, no_eq_hash = true, no_hash = true)]
        pub d: i8,
}

impl Bind for Excl {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Excl", csharp: None, is_enum: false, is_state: false, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "Excl", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "a", csharp: None, tag: 0, ty: <String as Bind>::ty(), no_state: false, no_eq: true, no_hash: false, src: "String" },
                FieldDef { name: "b", csharp: None, tag: 1, ty: <u32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: true, src: "u32" },
                FieldDef { name: "c", csharp: None, tag: 2, ty: <Vec<u8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<u8>" },
                FieldDef { name: "d", csharp: None, tag: 3, ty: <i8 as Bind>::ty(), no_state: false, no_eq: true, no_hash: true, src: "i8" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new();
        x.a = Bind::build(&fs[0]);
        x.b = Bind::build(&fs[1]);
        x.c = Bind::build(&fs[2]);
        x.d = Bind::build(&fs[3]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new()] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.a.view(), self.b.view(), self.c.view(), self.d.view()])
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.a.apply(rest, op),
                (x, Step::F(0, 1)) => return x.b.apply(rest, op),
                (x, Step::F(0, 2)) => return x.c.apply(rest, op),
                (x, Step::F(0, 3)) => return x.d.apply(rest, op),
                (_, s) => panic!("Excl is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on Excl", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => self.set_a(Bind::build(val)) as *mut Self,
            (0, 1) => self.set_b(Bind::build(val)) as *mut Self,
            (0, 2) => self.set_c(Bind::build(val)) as *mut Self,
            (0, 3) => self.set_d(Bind::build(val)) as *mut Self,
            x => panic!("harness: no field {:?} in Excl", x),
        };
        assert!(this == ret, "a setter of Excl returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.a.poke(rest, val),
                (x, Step::F(0, 1)) => return x.b.poke(rest, val),
                (x, Step::F(0, 2)) => return x.c.poke(rest, val),
                (x, Step::F(0, 3)) => return x.d.poke(rest, val),
                (_, s) => panic!("Excl is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
}

#[steit_derive(Clone, PartialEq, Hash, Serialize, Default, Debug)]
#[steit(derive_setters)]
pub struct LentExcl<'a> {
        #[steit(tag = 0, no_eq_hash = true)]
        pub a: &'a str,
        #[steit(tag = 1, no_hash = true)]
        pub b: u32,
        #[steit(tag = 2)]
        pub c: Vec<u8>,
        #[steit(tag = 3, no_eq_hash = true, no_hash = true)]
        pub d: i8,
}
impl Excl {
    pub fn lend(&self) -> LentExcl<'_> {
        let mut x = LentExcl::new();
        x.a = (&self.a).as_str();
        x.b = (&self.b).clone();
        x.c = (&self.c).clone();
        x.d = (&self.d).clone();
        x
    }
}
