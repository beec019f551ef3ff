// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, Eq, Hash, State, Debug)]
#[steit(reserved_tags(3, 4, 5))]
pub struct Wide {
        #[steit(tag = 16)]
        pub hi: u64,
        #[steit(tag = 536870911)]
        pub k: u32,
        #[steit(tag = 1)]
        pub lo: i8,
        #[steit(tag = 2047)]
        pub h: i16,
        #[steit(tag = 15)]
        pub w: i32,
        #[steit(tag = 2048)]
        pub m: u16,
        #[steit(tag = 0)]
        pub q: i64,
        #[steit(tag = 262144)]
        pub z: bool,
        #[steit(tag = 7)]
        pub by: u8,
}

impl Bind for Wide {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Wide", csharp: None, is_enum: false, is_state: true, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "Wide", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "hi", csharp: None, tag: 16, ty: <u64 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u64" },
                FieldDef { name: "k", csharp: None, tag: 536870911, ty: <u32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u32" },
                FieldDef { name: "lo", csharp: None, tag: 1, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
                FieldDef { name: "h", csharp: None, tag: 2047, ty: <i16 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i16" },
                FieldDef { name: "w", csharp: None, tag: 15, ty: <i32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i32" },
                FieldDef { name: "m", csharp: None, tag: 2048, ty: <u16 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u16" },
                FieldDef { name: "q", csharp: None, tag: 0, ty: <i64 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i64" },
                FieldDef { name: "z", csharp: None, tag: 262144, ty: <bool as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "bool" },
                FieldDef { name: "by", csharp: None, tag: 7, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new(Runtime::new());
        x.hi = Bind::build(&fs[0]);
        x.k = Bind::build(&fs[1]);
        x.lo = Bind::build(&fs[2]);
        x.h = Bind::build(&fs[3]);
        x.w = Bind::build(&fs[4]);
        x.m = Bind::build(&fs[5]);
        x.q = Bind::build(&fs[6]);
        x.z = Bind::build(&fs[7]);
        x.by = Bind::build(&fs[8]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(rt.clone())] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.hi.view(), self.k.view(), self.lo.view(), self.h.view(), self.w.view(), self.m.view(), self.q.view(), self.z.view(), self.by.view()])
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.hi.apply(rest, op),
                (x, Step::F(0, 1)) => return x.k.apply(rest, op),
                (x, Step::F(0, 2)) => return x.lo.apply(rest, op),
                (x, Step::F(0, 3)) => return x.h.apply(rest, op),
                (x, Step::F(0, 4)) => return x.w.apply(rest, op),
                (x, Step::F(0, 5)) => return x.m.apply(rest, op),
                (x, Step::F(0, 6)) => return x.q.apply(rest, op),
                (x, Step::F(0, 7)) => return x.z.apply(rest, op),
                (x, Step::F(0, 8)) => return x.by.apply(rest, op),
                (_, s) => panic!("Wide is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on Wide", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => if is_with(how) { self.set_hi_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_hi(prep(val, how)) as *mut Self },
            (0, 1) => if is_with(how) { self.set_k_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_k(prep(val, how)) as *mut Self },
            (0, 2) => if is_with(how) { self.set_lo_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_lo(prep(val, how)) as *mut Self },
            (0, 3) => if is_with(how) { self.set_h_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_h(prep(val, how)) as *mut Self },
            (0, 4) => if is_with(how) { self.set_w_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_w(prep(val, how)) as *mut Self },
            (0, 5) => if is_with(how) { self.set_m_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_m(prep(val, how)) as *mut Self },
            (0, 6) => if is_with(how) { self.set_q_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_q(prep(val, how)) as *mut Self },
            (0, 7) => if is_with(how) { self.set_z_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_z(prep(val, how)) as *mut Self },
            (0, 8) => if is_with(how) { self.set_by_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_by(prep(val, how)) as *mut Self },
            x => panic!("harness: no field {:?} in Wide", x),
        };
        assert!(this == ret, "a setter of Wide returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.hi.poke(rest, val),
                (x, Step::F(0, 1)) => return x.k.poke(rest, val),
                (x, Step::F(0, 2)) => return x.lo.poke(rest, val),
                (x, Step::F(0, 3)) => return x.h.poke(rest, val),
                (x, Step::F(0, 4)) => return x.w.poke(rest, val),
                (x, Step::F(0, 5)) => return x.m.poke(rest, val),
                (x, Step::F(0, 6)) => return x.q.poke(rest, val),
                (x, Step::F(0, 7)) => return x.z.poke(rest, val),
                (x, Step::F(0, 8)) => return x.by.poke(rest, val),
                (_, s) => panic!("Wide is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.hi.node(rest, f),
                (x, Step::F(0, 1)) => return x.k.node(rest, f),
                (x, Step::F(0, 2)) => return x.lo.node(rest, f),
                (x, Step::F(0, 3)) => return x.h.node(rest, f),
                (x, Step::F(0, 4)) => return x.w.node(rest, f),
                (x, Step::F(0, 5)) => return x.m.node(rest, f),
                (x, Step::F(0, 6)) => return x.q.node(rest, f),
                (x, Step::F(0, 7)) => return x.z.node(rest, f),
                (x, Step::F(0, 8)) => return x.by.node(rest, f),
                (_, s) => panic!("Wide is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        visit(at, State::runtime(self));
                at.push(16); self.hi.wiring(at, visit); at.pop();
                at.push(536870911); self.k.wiring(at, visit); at.pop();
                at.push(1); self.lo.wiring(at, visit); at.pop();
                at.push(2047); self.h.wiring(at, visit); at.pop();
                at.push(15); self.w.wiring(at, visit); at.pop();
                at.push(2048); self.m.wiring(at, visit); at.pop();
                at.push(0); self.q.wiring(at, visit); at.pop();
                at.push(262144); self.z.wiring(at, visit); at.pop();
                at.push(7); self.by.wiring(at, visit); at.pop();
    }
}
