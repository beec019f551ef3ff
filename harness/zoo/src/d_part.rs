// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, Hash, State, Debug)]
pub struct Part {
        #[steit(tag = 0)]
        pub a: u32,
        #[steit(tag = 1, no_state = true)]
        pub b: Vec<String>,
        #[steit(tag = 2, no_state = true)]
        pub c: Option<u32>,
        #[steit(tag = 3)]
        pub d: List<u8>,
        #[steit(tag = 4, no_eq_hash = true)]
        pub e: Leaf,
        #[steit(tag = 5, no_state = true, no_hash = true)]
        pub f: u16,
        #[steit(tag = 6, no_hash = true)]
        pub g: i32,
        #[steit(tag = 7, no_state = true, no_eq_hash = true)]
        pub h: String,
}

impl Bind for Part {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Part", csharp: None, is_enum: false, is_state: true, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "Part", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "a", csharp: None, tag: 0, ty: <u32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u32" },
                FieldDef { name: "b", csharp: None, tag: 1, ty: <Vec<String> as Bind>::ty(), no_state: true, no_eq: false, no_hash: false, src: "Vec<String>" },
                FieldDef { name: "c", csharp: None, tag: 2, ty: <Option<u32> as Bind>::ty(), no_state: true, no_eq: false, no_hash: false, src: "Option<u32>" },
                FieldDef { name: "d", csharp: None, tag: 3, ty: <List<u8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<u8>" },
                FieldDef { name: "e", csharp: None, tag: 4, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: true, no_hash: false, src: "Leaf" },
                FieldDef { name: "f", csharp: None, tag: 5, ty: <u16 as Bind>::ty(), no_state: true, no_eq: false, no_hash: true, src: "u16" },
                FieldDef { name: "g", csharp: None, tag: 6, ty: <i32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: true, src: "i32" },
                FieldDef { name: "h", csharp: None, tag: 7, ty: <String as Bind>::ty(), no_state: true, no_eq: true, no_hash: false, src: "String" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new(Runtime::new());
        x.a = Bind::build(&fs[0]);
        x.b = Bind::build(&fs[1]);
        x.c = Bind::build(&fs[2]);
        x.d = Bind::build(&fs[3]);
        x.e = Bind::build(&fs[4]);
        x.f = Bind::build(&fs[5]);
        x.g = Bind::build(&fs[6]);
        x.h = Bind::build(&fs[7]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(rt.clone())] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.a.view(), self.b.view(), self.c.view(), self.d.view(), self.e.view(), self.f.view(), self.g.view(), self.h.view()])
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.a.apply(rest, op),
                (x, Step::F(0, 1)) => return x.b.apply(rest, op),
                (x, Step::F(0, 2)) => return x.c.apply(rest, op),
                (x, Step::F(0, 3)) => return x.d.apply(rest, op),
                (x, Step::F(0, 4)) => return x.e.apply(rest, op),
                (x, Step::F(0, 5)) => return x.f.apply(rest, op),
                (x, Step::F(0, 6)) => return x.g.apply(rest, op),
                (x, Step::F(0, 7)) => return x.h.apply(rest, op),
                (_, s) => panic!("Part is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on Part", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => if is_with(how) { self.set_a_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_a(prep(val, how)) as *mut Self },
            (0, 1) => self.set_b(Bind::build(val)) as *mut Self,
            (0, 2) => self.set_c(Bind::build(val)) as *mut Self,
            (0, 3) => if is_with(how) { self.set_d_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_d(prep(val, how)) as *mut Self },
            (0, 4) => if is_with(how) { self.set_e_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_e(prep(val, how)) as *mut Self },
            (0, 5) => self.set_f(Bind::build(val)) as *mut Self,
            (0, 6) => if is_with(how) { self.set_g_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_g(prep(val, how)) as *mut Self },
            (0, 7) => self.set_h(Bind::build(val)) as *mut Self,
            x => panic!("harness: no field {:?} in Part", x),
        };
        assert!(this == ret, "a setter of Part returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.a.poke(rest, val),
                (x, Step::F(0, 1)) => return x.b.poke(rest, val),
                (x, Step::F(0, 2)) => return x.c.poke(rest, val),
                (x, Step::F(0, 3)) => return x.d.poke(rest, val),
                (x, Step::F(0, 4)) => return x.e.poke(rest, val),
                (x, Step::F(0, 5)) => return x.f.poke(rest, val),
                (x, Step::F(0, 6)) => return x.g.poke(rest, val),
                (x, Step::F(0, 7)) => return x.h.poke(rest, val),
                (_, s) => panic!("Part is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.a.node(rest, f),
                (x, Step::F(0, 3)) => return x.d.node(rest, f),
                (x, Step::F(0, 4)) => return x.e.node(rest, f),
                (x, Step::F(0, 6)) => return x.g.node(rest, f),
                (_, s) => panic!("Part is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        visit(at, State::runtime(self));
                at.push(0); self.a.wiring(at, visit); at.pop();
                at.push(3); self.d.wiring(at, visit); at.pop();
                at.push(4); self.e.wiring(at, visit); at.pop();
                at.push(6); self.g.wiring(at, visit); at.pop();
    }
}
