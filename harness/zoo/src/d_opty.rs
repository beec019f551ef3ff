// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, State, Debug)]
pub struct Opty {
        #[steit(tag = 0)]
        pub a: Maybe<Leaf>,
        #[steit(tag = 1)]
        pub b: Maybe<Maybe<u8>>,
        #[steit(tag = 2)]
        pub c: Maybe<List<Leaf>>,
        #[steit(tag = 3)]
        pub d: List<Maybe<Shape>>,
        #[steit(tag = 4)]
        pub e: Maybe<Box<Shape>>,
        #[steit(tag = 5)]
        pub f: Maybe<i32>,
}

impl Bind for Opty {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Opty", csharp: None, is_enum: false, is_state: true, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "Opty", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "a", csharp: None, tag: 0, ty: <Maybe<Leaf> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Maybe<Leaf>" },
                FieldDef { name: "b", csharp: None, tag: 1, ty: <Maybe<Maybe<u8>> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Maybe<Maybe<u8>>" },
                FieldDef { name: "c", csharp: None, tag: 2, ty: <Maybe<List<Leaf>> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Maybe<List<Leaf>>" },
                FieldDef { name: "d", csharp: None, tag: 3, ty: <List<Maybe<Shape>> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<Maybe<Shape>>" },
                FieldDef { name: "e", csharp: None, tag: 4, ty: <Maybe<Box<Shape>> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Maybe<Box<Shape>>" },
                FieldDef { name: "f", csharp: None, tag: 5, ty: <Maybe<i32> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Maybe<i32>" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new(Runtime::new());
        x.a = Bind::build(&fs[0]);
        x.b = Bind::build(&fs[1]);
        x.c = Bind::build(&fs[2]);
        x.d = Bind::build(&fs[3]);
        x.e = Bind::build(&fs[4]);
        x.f = Bind::build(&fs[5]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(rt.clone())] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.a.view(), self.b.view(), self.c.view(), self.d.view(), self.e.view(), self.f.view()])
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.a.apply(rest, op),
                (x, Step::F(0, 1)) => return x.b.apply(rest, op),
                (x, Step::F(0, 2)) => return x.c.apply(rest, op),
                (x, Step::F(0, 3)) => return x.d.apply(rest, op),
                (x, Step::F(0, 4)) => return x.e.apply(rest, op),
                (x, Step::F(0, 5)) => return x.f.apply(rest, op),
                (_, s) => panic!("Opty is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on Opty", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => if is_with(how) { self.set_a_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_a(prep(val, how)) as *mut Self },
            (0, 1) => if is_with(how) { self.set_b_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_b(prep(val, how)) as *mut Self },
            (0, 2) => if is_with(how) { self.set_c_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_c(prep(val, how)) as *mut Self },
            (0, 3) => if is_with(how) { self.set_d_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_d(prep(val, how)) as *mut Self },
            (0, 4) => if is_with(how) { self.set_e_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_e(prep(val, how)) as *mut Self },
            (0, 5) => if is_with(how) { self.set_f_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_f(prep(val, how)) as *mut Self },
            x => panic!("harness: no field {:?} in Opty", x),
        };
        assert!(this == ret, "a setter of Opty returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.a.poke(rest, val),
                (x, Step::F(0, 1)) => return x.b.poke(rest, val),
                (x, Step::F(0, 2)) => return x.c.poke(rest, val),
                (x, Step::F(0, 3)) => return x.d.poke(rest, val),
                (x, Step::F(0, 4)) => return x.e.poke(rest, val),
                (x, Step::F(0, 5)) => return x.f.poke(rest, val),
                (_, s) => panic!("Opty is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.a.node(rest, f),
                (x, Step::F(0, 1)) => return x.b.node(rest, f),
                (x, Step::F(0, 2)) => return x.c.node(rest, f),
                (x, Step::F(0, 3)) => return x.d.node(rest, f),
                (x, Step::F(0, 4)) => return x.e.node(rest, f),
                (x, Step::F(0, 5)) => return x.f.node(rest, f),
                (_, s) => panic!("Opty is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        visit(at, State::runtime(self));
                at.push(0); self.a.wiring(at, visit); at.pop();
                at.push(1); self.b.wiring(at, visit); at.pop();
                at.push(2); self.c.wiring(at, visit); at.pop();
                at.push(3); self.d.wiring(at, visit); at.pop();
                at.push(4); self.e.wiring(at, visit); at.pop();
                at.push(5); self.f.wiring(at, visit); at.pop();
    }
}
