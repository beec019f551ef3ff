// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, Serialize, Deserialize, Debug)]
pub struct Deep {
        #[steit(tag = 0)]
        pub rec: Rec,
        #[steit(tag = 1)]
        pub vr: Vec<Rec2>,
        #[steit(tag = 16)]
        pub o: Option<Rec2>,
        #[steit(tag = 17)]
        pub b: Box<Rec2>,
        #[steit(tag = 2)]
        pub n: i64,
}

impl Bind for Deep {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Deep", csharp: None, is_enum: false, is_state: false, builtin: false, no_meta: false, setters: false, params: vec![], vars: vec![
            VarDef { name: "Deep", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "rec", csharp: None, tag: 0, ty: <Rec as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Rec" },
                FieldDef { name: "vr", csharp: None, tag: 1, ty: <Vec<Rec2> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<Rec2>" },
                FieldDef { name: "o", csharp: None, tag: 16, ty: <Option<Rec2> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Option<Rec2>" },
                FieldDef { name: "b", csharp: None, tag: 17, ty: <Box<Rec2> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Box<Rec2>" },
                FieldDef { name: "n", csharp: None, tag: 2, ty: <i64 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i64" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new();
        x.rec = Bind::build(&fs[0]);
        x.vr = Bind::build(&fs[1]);
        x.o = Bind::build(&fs[2]);
        x.b = Bind::build(&fs[3]);
        x.n = Bind::build(&fs[4]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new()] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.rec.view(), self.vr.view(), self.o.view(), self.b.view(), self.n.view()])
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.rec.poke(rest, val),
                (x, Step::F(0, 1)) => return x.vr.poke(rest, val),
                (x, Step::F(0, 2)) => return x.o.poke(rest, val),
                (x, Step::F(0, 3)) => return x.b.poke(rest, val),
                (x, Step::F(0, 4)) => return x.n.poke(rest, val),
                (_, s) => panic!("Deep is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
}

#[steit_derive(Clone, PartialEq, Serialize, Default, Debug)]
pub struct LentDeep<'a> {
        #[steit(tag = 0)]
        pub rec: LentRec<'a>,
        #[steit(tag = 1)]
        pub vr: Vec<LentRec2<'a>>,
        #[steit(tag = 16)]
        pub o: Option<LentRec2<'a>>,
        #[steit(tag = 17)]
        pub b: Box<LentRec2<'a>>,
        #[steit(tag = 2)]
        pub n: i64,
}
impl Deep {
    pub fn lend(&self) -> LentDeep<'_> {
        let mut x = LentDeep::new();
        x.rec = (&self.rec).lend();
        x.vr = (&self.vr).iter().map(|x| x.lend()).collect::<Vec<_>>();
        x.o = (&self.o).as_ref().map(|x| x.lend());
        x.b = { let x = &**(&self.b); Box::new(x.lend()) };
        x.n = (&self.n).clone();
        x
    }
}
