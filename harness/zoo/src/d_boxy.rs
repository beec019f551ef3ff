// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, State, Debug)]
pub struct Boxy {
        #[steit(tag = 0)]
        pub b: Box<Leaf>,
        #[steit(tag = 1)]
        pub e: Box<Shape>,
        #[steit(tag = 2)]
        pub l: List<Box<Shape>>,
        #[steit(tag = 3)]
        pub p: Box<u32>,
        #[steit(tag = 4)]
        pub bb: Box<Box<Leaf>>,
        #[steit(tag = 5)]
        pub bl: Box<List<Leaf>>,
        #[steit(tag = 6)]
        pub mb: Map<u16, Box<Inner>>,
}

impl Bind for Boxy {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Boxy", csharp: None, is_enum: false, is_state: true, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "Boxy", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "b", csharp: None, tag: 0, ty: <Box<Leaf> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Box<Leaf>" },
                FieldDef { name: "e", csharp: None, tag: 1, ty: <Box<Shape> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Box<Shape>" },
                FieldDef { name: "l", csharp: None, tag: 2, ty: <List<Box<Shape>> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<Box<Shape>>" },
                FieldDef { name: "p", csharp: None, tag: 3, ty: <Box<u32> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Box<u32>" },
                FieldDef { name: "bb", csharp: None, tag: 4, ty: <Box<Box<Leaf>> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Box<Box<Leaf>>" },
                FieldDef { name: "bl", csharp: None, tag: 5, ty: <Box<List<Leaf>> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Box<List<Leaf>>" },
                FieldDef { name: "mb", csharp: None, tag: 6, ty: <Map<u16, Box<Inner>> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Map<u16, Box<Inner>>" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new(Runtime::new());
        x.b = Bind::build(&fs[0]);
        x.e = Bind::build(&fs[1]);
        x.l = Bind::build(&fs[2]);
        x.p = Bind::build(&fs[3]);
        x.bb = Bind::build(&fs[4]);
        x.bl = Bind::build(&fs[5]);
        x.mb = Bind::build(&fs[6]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(rt.clone())] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.b.view(), self.e.view(), self.l.view(), self.p.view(), self.bb.view(), self.bl.view(), self.mb.view()])
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.b.apply(rest, op),
                (x, Step::F(0, 1)) => return x.e.apply(rest, op),
                (x, Step::F(0, 2)) => return x.l.apply(rest, op),
                (x, Step::F(0, 3)) => return x.p.apply(rest, op),
                (x, Step::F(0, 4)) => return x.bb.apply(rest, op),
                (x, Step::F(0, 5)) => return x.bl.apply(rest, op),
                (x, Step::F(0, 6)) => return x.mb.apply(rest, op),
                (_, s) => panic!("Boxy is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on Boxy", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => if is_with(how) { self.set_b_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_b(prep(val, how)) as *mut Self },
            (0, 1) => if is_with(how) { self.set_e_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_e(prep(val, how)) as *mut Self },
            (0, 2) => if is_with(how) { self.set_l_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_l(prep(val, how)) as *mut Self },
            (0, 3) => if is_with(how) { self.set_p_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_p(prep(val, how)) as *mut Self },
            (0, 4) => if is_with(how) { self.set_bb_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_bb(prep(val, how)) as *mut Self },
            (0, 5) => if is_with(how) { self.set_bl_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_bl(prep(val, how)) as *mut Self },
            (0, 6) => if is_with(how) { self.set_mb_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_mb(prep(val, how)) as *mut Self },
            x => panic!("harness: no field {:?} in Boxy", x),
        };
        assert!(this == ret, "a setter of Boxy returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.b.poke(rest, val),
                (x, Step::F(0, 1)) => return x.e.poke(rest, val),
                (x, Step::F(0, 2)) => return x.l.poke(rest, val),
                (x, Step::F(0, 3)) => return x.p.poke(rest, val),
                (x, Step::F(0, 4)) => return x.bb.poke(rest, val),
                (x, Step::F(0, 5)) => return x.bl.poke(rest, val),
                (x, Step::F(0, 6)) => return x.mb.poke(rest, val),
                (_, s) => panic!("Boxy is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.b.node(rest, f),
                (x, Step::F(0, 1)) => return x.e.node(rest, f),
                (x, Step::F(0, 2)) => return x.l.node(rest, f),
                (x, Step::F(0, 3)) => return x.p.node(rest, f),
                (x, Step::F(0, 4)) => return x.bb.node(rest, f),
                (x, Step::F(0, 5)) => return x.bl.node(rest, f),
                (x, Step::F(0, 6)) => return x.mb.node(rest, f),
                (_, s) => panic!("Boxy is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        visit(at, State::runtime(self));
                at.push(0); self.b.wiring(at, visit); at.pop();
                at.push(1); self.e.wiring(at, visit); at.pop();
                at.push(2); self.l.wiring(at, visit); at.pop();
                at.push(3); self.p.wiring(at, visit); at.pop();
                at.push(4); self.bb.wiring(at, visit); at.pop();
                at.push(5); self.bl.wiring(at, visit); at.pop();
                at.push(6); self.mb.wiring(at, visit); at.pop();
    }
}
