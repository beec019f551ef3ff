// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, Serialize, Deserialize, Debug)]
#[steit(no_size_cache)]
pub struct PNoCache {
        #[steit(tag = 0)]
        pub s: String,
        #[steit(tag = 1)]
        pub v: Vec<Rec2>,
}

impl Bind for PNoCache {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "PNoCache", csharp: None, is_enum: false, is_state: false, builtin: false, no_meta: false, setters: false, params: vec![], vars: vec![
            VarDef { name: "PNoCache", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "s", csharp: None, tag: 0, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "v", csharp: None, tag: 1, ty: <Vec<Rec2> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<Rec2>" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new();
        x.s = Bind::build(&fs[0]);
        x.v = Bind::build(&fs[1]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new()] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.s.view(), self.v.view()])
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.s.poke(rest, val),
                (x, Step::F(0, 1)) => return x.v.poke(rest, val),
                (_, s) => panic!("PNoCache is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
}

#[steit_derive(Clone, PartialEq, Serialize, Default, Debug)]
#[steit(no_size_cache)]
pub struct LentPNoCache<'a> {
        #[steit(tag = 0)]
        pub s: &'a str,
        #[steit(tag = 1)]
        pub v: Vec<LentRec2<'a>>,
}
impl PNoCache {
    pub fn lend(&self) -> LentPNoCache<'_> {
        let mut x = LentPNoCache::new();
        x.s = (&self.s).as_str();
        x.v = (&self.v).iter().map(|x| x.lend()).collect::<Vec<_>>();
        x
    }
}
