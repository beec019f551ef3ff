// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, Serialize, Deserialize, Debug)]
#[steit(no_meta)]
pub struct Tuples {
        #[steit(tag = 0)]
        pub a: (u8, String),
        #[steit(tag = 1)]
        pub b: (i32, bool, Bytes),
        #[steit(tag = 2)]
        pub c: Vec<(u16, Vec<u8>)>,
        #[steit(tag = 3)]
        pub d: (u8, u8, u8, u8),
        #[steit(tag = 4)]
        pub e: (String, Option<u8>, i64, bool, Bytes),
}

impl Bind for Tuples {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Tuples", csharp: None, is_enum: false, is_state: false, builtin: false, no_meta: true, setters: false, params: vec![], vars: vec![
            VarDef { name: "Tuples", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "a", csharp: None, tag: 0, ty: <(u8, String) as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "(u8, String)" },
                FieldDef { name: "b", csharp: None, tag: 1, ty: <(i32, bool, Bytes) as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "(i32, bool, Bytes)" },
                FieldDef { name: "c", csharp: None, tag: 2, ty: <Vec<(u16, Vec<u8>)> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<(u16, Vec<u8>)>" },
                FieldDef { name: "d", csharp: None, tag: 3, ty: <(u8, u8, u8, u8) as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "(u8, u8, u8, u8)" },
                FieldDef { name: "e", csharp: None, tag: 4, ty: <(String, Option<u8>, i64, bool, Bytes) as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "(String, Option<u8>, i64, bool, Bytes)" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new();
        x.a = Bind::build(&fs[0]);
        x.b = Bind::build(&fs[1]);
        x.c = Bind::build(&fs[2]);
        x.d = Bind::build(&fs[3]);
        x.e = Bind::build(&fs[4]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new()] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.a.view(), self.b.view(), self.c.view(), self.d.view(), self.e.view()])
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.a.poke(rest, val),
                (x, Step::F(0, 1)) => return x.b.poke(rest, val),
                (x, Step::F(0, 2)) => return x.c.poke(rest, val),
                (x, Step::F(0, 3)) => return x.d.poke(rest, val),
                (x, Step::F(0, 4)) => return x.e.poke(rest, val),
                (_, s) => panic!("Tuples is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
}

#[steit_derive(Clone, PartialEq, Serialize, Default, Debug)]
pub struct LentTuples<'a> {
        #[steit(tag = 0)]
        pub a: (u8, &'a str,),
        #[steit(tag = 1)]
        pub b: (i32, bool, Bytes),
        #[steit(tag = 2)]
        pub c: Vec<(u16, Vec<u8>)>,
        #[steit(tag = 3)]
        pub d: (u8, u8, u8, u8),
        #[steit(tag = 4)]
        pub e: (&'a str, Option<u8>, i64, bool, Bytes,),
}
impl Tuples {
    pub fn lend(&self) -> LentTuples<'_> {
        let mut x = LentTuples::new();
        x.a = { let t = (&self.a); ((&t.0).clone(), (&t.1).as_str(),) };
        x.b = (&self.b).clone();
        x.c = (&self.c).clone();
        x.d = (&self.d).clone();
        x.e = { let t = (&self.e); ((&t.0).as_str(), (&t.1).clone(), (&t.2).clone(), (&t.3).clone(), (&t.4).clone(),) };
        x
    }
}
