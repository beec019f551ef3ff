// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, Serialize, Deserialize, Debug)]
pub struct Rec {
        #[steit(tag = 0)]
        pub s: String,
        #[steit(tag = 1)]
        pub b: Bytes,
        #[steit(tag = 2)]
        pub o: Option<i32>,
        #[steit(tag = 3)]
        pub os: Option<String>,
        #[steit(tag = 4)]
        pub oo: Option<Option<u8>>,
        #[steit(tag = 5)]
        pub v: Vec<Vec<u16>>,
        #[steit(tag = 6)]
        pub vs: Vec<String>,
        #[steit(tag = 7)]
        pub arr: [i32; 3],
        #[steit(tag = 31)]
        pub u: u64,
        #[steit(tag = 33)]
        pub l: Leaf,
        #[steit(tag = 40)]
        pub bx: Box<String>,
        #[steit(tag = 41)]
        pub vb: Vec<bool>,
}

impl Bind for Rec {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Rec", csharp: None, is_enum: false, is_state: false, builtin: false, no_meta: false, setters: false, params: vec![], vars: vec![
            VarDef { name: "Rec", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "s", csharp: None, tag: 0, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "b", csharp: None, tag: 1, ty: <Bytes as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Bytes" },
                FieldDef { name: "o", csharp: None, tag: 2, ty: <Option<i32> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Option<i32>" },
                FieldDef { name: "os", csharp: None, tag: 3, ty: <Option<String> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Option<String>" },
                FieldDef { name: "oo", csharp: None, tag: 4, ty: <Option<Option<u8>> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Option<Option<u8>>" },
                FieldDef { name: "v", csharp: None, tag: 5, ty: <Vec<Vec<u16>> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<Vec<u16>>" },
                FieldDef { name: "vs", csharp: None, tag: 6, ty: <Vec<String> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<String>" },
                FieldDef { name: "arr", csharp: None, tag: 7, ty: <[i32; 3] as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "[i32; 3]" },
                FieldDef { name: "u", csharp: None, tag: 31, ty: <u64 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u64" },
                FieldDef { name: "l", csharp: None, tag: 33, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "bx", csharp: None, tag: 40, ty: <Box<String> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Box<String>" },
                FieldDef { name: "vb", csharp: None, tag: 41, ty: <Vec<bool> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<bool>" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new();
        x.s = Bind::build(&fs[0]);
        x.b = Bind::build(&fs[1]);
        x.o = Bind::build(&fs[2]);
        x.os = Bind::build(&fs[3]);
        x.oo = Bind::build(&fs[4]);
        x.v = Bind::build(&fs[5]);
        x.vs = Bind::build(&fs[6]);
        x.arr = Bind::build(&fs[7]);
        x.u = Bind::build(&fs[8]);
        x.l = Bind::build(&fs[9]);
        x.bx = Bind::build(&fs[10]);
        x.vb = Bind::build(&fs[11]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new()] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.s.view(), self.b.view(), self.o.view(), self.os.view(), self.oo.view(), self.v.view(), self.vs.view(), self.arr.view(), self.u.view(), self.l.view(), self.bx.view(), self.vb.view()])
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.s.poke(rest, val),
                (x, Step::F(0, 1)) => return x.b.poke(rest, val),
                (x, Step::F(0, 2)) => return x.o.poke(rest, val),
                (x, Step::F(0, 3)) => return x.os.poke(rest, val),
                (x, Step::F(0, 4)) => return x.oo.poke(rest, val),
                (x, Step::F(0, 5)) => return x.v.poke(rest, val),
                (x, Step::F(0, 6)) => return x.vs.poke(rest, val),
                (x, Step::F(0, 7)) => return x.arr.poke(rest, val),
                (x, Step::F(0, 8)) => return x.u.poke(rest, val),
                (x, Step::F(0, 9)) => return x.l.poke(rest, val),
                (x, Step::F(0, 10)) => return x.bx.poke(rest, val),
                (x, Step::F(0, 11)) => return x.vb.poke(rest, val),
                (_, s) => panic!("Rec is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
}

#[steit_derive(Clone, PartialEq, Serialize, Default, Debug)]
pub struct LentRec<'a> {
        #[steit(tag = 0)]
        pub s: &'a str,
        #[steit(tag = 1)]
        pub b: Bytes,
        #[steit(tag = 2)]
        pub o: Option<i32>,
        #[steit(tag = 3)]
        pub os: Option<&'a str>,
        #[steit(tag = 4)]
        pub oo: Option<Option<u8>>,
        #[steit(tag = 5)]
        pub v: Vec<Vec<u16>>,
        #[steit(tag = 6)]
        pub vs: Vec<&'a str>,
        #[steit(tag = 7)]
        pub arr: [i32; 3],
        #[steit(tag = 31)]
        pub u: u64,
        #[steit(tag = 33)]
        pub l: Leaf,
        #[steit(tag = 40)]
        pub bx: Box<&'a str>,
        #[steit(tag = 41)]
        pub vb: Vec<bool>,
}
impl Rec {
    pub fn lend(&self) -> LentRec<'_> {
        let mut x = LentRec::new();
        x.s = (&self.s).as_str();
        x.b = (&self.b).clone();
        x.o = (&self.o).clone();
        x.os = (&self.os).as_ref().map(|x| x.as_str());
        x.oo = (&self.oo).clone();
        x.v = (&self.v).clone();
        x.vs = (&self.vs).iter().map(|x| x.as_str()).collect::<Vec<_>>();
        x.arr = (&self.arr).clone();
        x.u = (&self.u).clone();
        x.l = (&self.l).clone();
        x.bx = { let x = &**(&self.bx); Box::new(x.as_str()) };
        x.vb = (&self.vb).clone();
        x
    }
}
