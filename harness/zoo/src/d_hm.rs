// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, Serialize, Deserialize, Debug)]
#[steit(no_meta)]
pub struct Hm {
        #[steit(tag = 0)]
        pub a: HashMap<String, u32>,
        #[steit(tag = 1)]
        pub b: HashMap<u8, Vec<i32>>,
        #[steit(tag = 2)]
        pub c: HashMap<i64, Rec2>,
        #[steit(tag = 3)]
        pub d: u8,
}

impl Bind for Hm {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Hm", csharp: None, is_enum: false, is_state: false, builtin: false, no_meta: true, setters: false, params: vec![], vars: vec![
            VarDef { name: "Hm", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "a", csharp: None, tag: 0, ty: <HashMap<String, u32> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "HashMap<String, u32>" },
                FieldDef { name: "b", csharp: None, tag: 1, ty: <HashMap<u8, Vec<i32>> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "HashMap<u8, Vec<i32>>" },
                FieldDef { name: "c", csharp: None, tag: 2, ty: <HashMap<i64, Rec2> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "HashMap<i64, Rec2>" },
                FieldDef { name: "d", csharp: None, tag: 3, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new();
        x.a = Bind::build(&fs[0]);
        x.b = Bind::build(&fs[1]);
        x.c = Bind::build(&fs[2]);
        x.d = Bind::build(&fs[3]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new()] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.a.view(), self.b.view(), self.c.view(), self.d.view()])
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.a.poke(rest, val),
                (x, Step::F(0, 1)) => return x.b.poke(rest, val),
                (x, Step::F(0, 2)) => return x.c.poke(rest, val),
                (x, Step::F(0, 3)) => return x.d.poke(rest, val),
                (_, s) => panic!("Hm is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
}

#[steit_derive(Clone, PartialEq, Serialize, Default, Debug)]
pub struct LentHm<'a> {
        #[steit(tag = 0)]
        pub a: HashMap<&'a str, u32>,
        #[steit(tag = 1)]
        pub b: HashMap<u8, Vec<i32>>,
        #[steit(tag = 2)]
        pub c: HashMap<i64, LentRec2<'a>>,
        #[steit(tag = 3)]
        pub d: u8,
}
impl Hm {
    pub fn lend(&self) -> LentHm<'_> {
        let mut x = LentHm::new();
        x.a = (&self.a).iter().map(|(y, x)| (y.as_str(), x.clone())).collect::<HashMap<_, _>>();
        x.b = (&self.b).clone();
        x.c = (&self.c).iter().map(|(y, x)| (y.clone(), x.lend())).collect::<HashMap<_, _>>();
        x.d = (&self.d).clone();
        x
    }
}
