// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, Eq, Hash, Serialize, Deserialize, Debug)]
#[steit(derive_setters)]
pub struct Rec2 {
        #[steit(tag = 0)]
        pub x: u32,
        #[steit(tag = 1)]
        pub name: String,
        #[steit(tag = 2)]
        pub kids: Vec<Rec2>,
}

impl Bind for Rec2 {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Rec2", csharp: None, is_enum: false, is_state: false, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "Rec2", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "x", csharp: None, tag: 0, ty: <u32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u32" },
                FieldDef { name: "name", csharp: None, tag: 1, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "kids", csharp: None, tag: 2, ty: <Vec<Rec2> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<Rec2>" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new();
        x.x = Bind::build(&fs[0]);
        x.name = Bind::build(&fs[1]);
        x.kids = Bind::build(&fs[2]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new()] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.x.view(), self.name.view(), self.kids.view()])
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.x.apply(rest, op),
                (x, Step::F(0, 1)) => return x.name.apply(rest, op),
                (x, Step::F(0, 2)) => return x.kids.apply(rest, op),
                (_, s) => panic!("Rec2 is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on Rec2", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => self.set_x(Bind::build(val)) as *mut Self,
            (0, 1) => self.set_name(Bind::build(val)) as *mut Self,
            (0, 2) => self.set_kids(Bind::build(val)) as *mut Self,
            x => panic!("harness: no field {:?} in Rec2", x),
        };
        assert!(this == ret, "a setter of Rec2 returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.x.poke(rest, val),
                (x, Step::F(0, 1)) => return x.name.poke(rest, val),
                (x, Step::F(0, 2)) => return x.kids.poke(rest, val),
                (_, s) => panic!("Rec2 is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
}

#[steit_derive(Clone, PartialEq, Eq, Hash, Serialize, Default, Debug)]
#[steit(derive_setters)]
pub struct LentRec2<'a> {
        #[steit(tag = 0)]
        pub x: u32,
        #[steit(tag = 1)]
        pub name: &'a str,
        #[steit(tag = 2)]
        pub kids: Vec<LentRec2<'a>>,
}
impl Rec2 {
    pub fn lend(&self) -> LentRec2<'_> {
        let mut x = LentRec2::new();
        x.x = (&self.x).clone();
        x.name = (&self.name).as_str();
        x.kids = (&self.kids).iter().map(|x| x.lend()).collect::<Vec<_>>();
        x
    }
}
