// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, State, Debug)]
pub enum Big {
    #[steit(tag = 1)]
    V0 {
},
    #[steit(tag = 127)]
    V1 {
        #[steit(tag = 1)]
        x0: i32,
},
    #[steit(tag = 128)]
    V2 {
        #[steit(tag = 2)]
        x0: Leaf,
        #[steit(tag = 9)]
        x1: Maybe<u16>,
},
    #[steit(tag = 0)]
    V3 {
        #[steit(tag = 3)]
        x0: Maybe<u16>,
        #[steit(tag = 10)]
        x1: u8,
        #[steit(tag = 17)]
        x2: i32,
},
    #[steit(tag = 16383)]
    V4 {
},
    #[steit(tag = 16384)]
    V5 {
        #[steit(tag = 5)]
        x0: i32,
},
    #[steit(tag = 5)]
    V6 {
        #[steit(tag = 6)]
        x0: Leaf,
        #[steit(tag = 13)]
        x1: Maybe<u16>,
},
    #[steit(tag = 536870911)]
    V7 {
        #[steit(tag = 7)]
        x0: Maybe<u16>,
        #[steit(tag = 14)]
        x1: u8,
        #[steit(tag = 21)]
        x2: i32,
},
}

impl Bind for Big {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Big", csharp: None, is_enum: true, is_state: true, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "V0", csharp: None, tag: 1, fields: vec![
            ] },
            VarDef { name: "V1", csharp: None, tag: 127, fields: vec![
                FieldDef { name: "x0", csharp: None, tag: 1, ty: <i32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i32" },
            ] },
            VarDef { name: "V2", csharp: None, tag: 128, fields: vec![
                FieldDef { name: "x0", csharp: None, tag: 2, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "x1", csharp: None, tag: 9, ty: <Maybe<u16> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Maybe<u16>" },
            ] },
            VarDef { name: "V3", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "x0", csharp: None, tag: 3, ty: <Maybe<u16> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Maybe<u16>" },
                FieldDef { name: "x1", csharp: None, tag: 10, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "x2", csharp: None, tag: 17, ty: <i32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i32" },
            ] },
            VarDef { name: "V4", csharp: None, tag: 16383, fields: vec![
            ] },
            VarDef { name: "V5", csharp: None, tag: 16384, fields: vec![
                FieldDef { name: "x0", csharp: None, tag: 5, ty: <i32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i32" },
            ] },
            VarDef { name: "V6", csharp: None, tag: 5, fields: vec![
                FieldDef { name: "x0", csharp: None, tag: 6, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "x1", csharp: None, tag: 13, ty: <Maybe<u16> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Maybe<u16>" },
            ] },
            VarDef { name: "V7", csharp: None, tag: 536870911, fields: vec![
                FieldDef { name: "x0", csharp: None, tag: 7, ty: <Maybe<u16> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Maybe<u16>" },
                FieldDef { name: "x1", csharp: None, tag: 14, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "x2", csharp: None, tag: 21, ty: <i32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i32" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        match vi {
            0 => {
                let mut x = Self::new_v0(Runtime::new());
                x
            }
            1 => {
                let mut x = Self::new_v1(Runtime::new());
                if let Big::V1 { x0: g0, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                }
                x
            }
            2 => {
                let mut x = Self::new_v2(Runtime::new());
                if let Big::V2 { x0: g0, x1: g1, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                    *g1 = Bind::build(&fs[1]);
                }
                x
            }
            3 => {
                let mut x = Self::new_v3(Runtime::new());
                if let Big::V3 { x0: g0, x1: g1, x2: g2, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                    *g1 = Bind::build(&fs[1]);
                    *g2 = Bind::build(&fs[2]);
                }
                x
            }
            4 => {
                let mut x = Self::new_v4(Runtime::new());
                x
            }
            5 => {
                let mut x = Self::new_v5(Runtime::new());
                if let Big::V5 { x0: g0, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                }
                x
            }
            6 => {
                let mut x = Self::new_v6(Runtime::new());
                if let Big::V6 { x0: g0, x1: g1, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                    *g1 = Bind::build(&fs[1]);
                }
                x
            }
            7 => {
                let mut x = Self::new_v7(Runtime::new());
                if let Big::V7 { x0: g0, x1: g1, x2: g2, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                    *g1 = Bind::build(&fs[1]);
                    *g2 = Bind::build(&fs[2]);
                }
                x
            }
            _ => panic!("harness: variant index {}", vi),
        }
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(rt.clone()), Self::new_v0(rt.clone()), Self::new_v1(rt.clone()), Self::new_v2(rt.clone()), Self::new_v3(rt.clone()), Self::new_v4(rt.clone()), Self::new_v5(rt.clone()), Self::new_v6(rt.clone()), Self::new_v7(rt.clone())] }
    fn view(&self) -> Val {
        match self {
            Big::V0 {  .. } => Val::Msg(0, vec![]),
            Big::V1 { x0: g0,  .. } => Val::Msg(1, vec![g0.view()]),
            Big::V2 { x0: g0, x1: g1,  .. } => Val::Msg(2, vec![g0.view(), g1.view()]),
            Big::V3 { x0: g0, x1: g1, x2: g2,  .. } => Val::Msg(3, vec![g0.view(), g1.view(), g2.view()]),
            Big::V4 {  .. } => Val::Msg(4, vec![]),
            Big::V5 { x0: g0,  .. } => Val::Msg(5, vec![g0.view()]),
            Big::V6 { x0: g0, x1: g1,  .. } => Val::Msg(6, vec![g0.view(), g1.view()]),
            Big::V7 { x0: g0, x1: g1, x2: g2,  .. } => Val::Msg(7, vec![g0.view(), g1.view(), g2.view()]),
        }
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (Big::V1 { x0: g, .. }, Step::F(1, 0)) => return g.apply(rest, op),
                (Big::V2 { x0: g, .. }, Step::F(2, 0)) => return g.apply(rest, op),
                (Big::V2 { x1: g, .. }, Step::F(2, 1)) => return g.apply(rest, op),
                (Big::V3 { x0: g, .. }, Step::F(3, 0)) => return g.apply(rest, op),
                (Big::V3 { x1: g, .. }, Step::F(3, 1)) => return g.apply(rest, op),
                (Big::V3 { x2: g, .. }, Step::F(3, 2)) => return g.apply(rest, op),
                (Big::V5 { x0: g, .. }, Step::F(5, 0)) => return g.apply(rest, op),
                (Big::V6 { x0: g, .. }, Step::F(6, 0)) => return g.apply(rest, op),
                (Big::V6 { x1: g, .. }, Step::F(6, 1)) => return g.apply(rest, op),
                (Big::V7 { x0: g, .. }, Step::F(7, 0)) => return g.apply(rest, op),
                (Big::V7 { x1: g, .. }, Step::F(7, 1)) => return g.apply(rest, op),
                (Big::V7 { x2: g, .. }, Step::F(7, 2)) => return g.apply(rest, op),
                (_, s) => panic!("Big is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on Big", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (1, 0) => if is_with(how) { self.set_v1_x0_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_v1_x0(prep(val, how)) as *mut Self },
            (2, 0) => if is_with(how) { self.set_v2_x0_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_v2_x0(prep(val, how)) as *mut Self },
            (2, 1) => if is_with(how) { self.set_v2_x1_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_v2_x1(prep(val, how)) as *mut Self },
            (3, 0) => if is_with(how) { self.set_v3_x0_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_v3_x0(prep(val, how)) as *mut Self },
            (3, 1) => if is_with(how) { self.set_v3_x1_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_v3_x1(prep(val, how)) as *mut Self },
            (3, 2) => if is_with(how) { self.set_v3_x2_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_v3_x2(prep(val, how)) as *mut Self },
            (5, 0) => if is_with(how) { self.set_v5_x0_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_v5_x0(prep(val, how)) as *mut Self },
            (6, 0) => if is_with(how) { self.set_v6_x0_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_v6_x0(prep(val, how)) as *mut Self },
            (6, 1) => if is_with(how) { self.set_v6_x1_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_v6_x1(prep(val, how)) as *mut Self },
            (7, 0) => if is_with(how) { self.set_v7_x0_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_v7_x0(prep(val, how)) as *mut Self },
            (7, 1) => if is_with(how) { self.set_v7_x1_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_v7_x1(prep(val, how)) as *mut Self },
            (7, 2) => if is_with(how) { self.set_v7_x2_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_v7_x2(prep(val, how)) as *mut Self },
            x => panic!("harness: no field {:?} in Big", x),
        };
        assert!(this == ret, "a setter of Big returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (Big::V1 { x0: g, .. }, Step::F(1, 0)) => return g.poke(rest, val),
                (Big::V2 { x0: g, .. }, Step::F(2, 0)) => return g.poke(rest, val),
                (Big::V2 { x1: g, .. }, Step::F(2, 1)) => return g.poke(rest, val),
                (Big::V3 { x0: g, .. }, Step::F(3, 0)) => return g.poke(rest, val),
                (Big::V3 { x1: g, .. }, Step::F(3, 1)) => return g.poke(rest, val),
                (Big::V3 { x2: g, .. }, Step::F(3, 2)) => return g.poke(rest, val),
                (Big::V5 { x0: g, .. }, Step::F(5, 0)) => return g.poke(rest, val),
                (Big::V6 { x0: g, .. }, Step::F(6, 0)) => return g.poke(rest, val),
                (Big::V6 { x1: g, .. }, Step::F(6, 1)) => return g.poke(rest, val),
                (Big::V7 { x0: g, .. }, Step::F(7, 0)) => return g.poke(rest, val),
                (Big::V7 { x1: g, .. }, Step::F(7, 1)) => return g.poke(rest, val),
                (Big::V7 { x2: g, .. }, Step::F(7, 2)) => return g.poke(rest, val),
                (_, s) => panic!("Big is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (Big::V1 { x0: g, .. }, Step::F(1, 0)) => return g.node(rest, f),
                (Big::V2 { x0: g, .. }, Step::F(2, 0)) => return g.node(rest, f),
                (Big::V2 { x1: g, .. }, Step::F(2, 1)) => return g.node(rest, f),
                (Big::V3 { x0: g, .. }, Step::F(3, 0)) => return g.node(rest, f),
                (Big::V3 { x1: g, .. }, Step::F(3, 1)) => return g.node(rest, f),
                (Big::V3 { x2: g, .. }, Step::F(3, 2)) => return g.node(rest, f),
                (Big::V5 { x0: g, .. }, Step::F(5, 0)) => return g.node(rest, f),
                (Big::V6 { x0: g, .. }, Step::F(6, 0)) => return g.node(rest, f),
                (Big::V6 { x1: g, .. }, Step::F(6, 1)) => return g.node(rest, f),
                (Big::V7 { x0: g, .. }, Step::F(7, 0)) => return g.node(rest, f),
                (Big::V7 { x1: g, .. }, Step::F(7, 1)) => return g.node(rest, f),
                (Big::V7 { x2: g, .. }, Step::F(7, 2)) => return g.node(rest, f),
                (_, s) => panic!("Big is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        match self {
            Big::V0 {  .. } => {
                at.push(1);
                visit(at, State::runtime(self));
                at.pop();
            }
            Big::V1 { x0: g0,  .. } => {
                at.push(127);
                visit(at, State::runtime(self));
                at.push(1); g0.wiring(at, visit); at.pop();
                at.pop();
            }
            Big::V2 { x0: g0, x1: g1,  .. } => {
                at.push(128);
                visit(at, State::runtime(self));
                at.push(2); g0.wiring(at, visit); at.pop();
                at.push(9); g1.wiring(at, visit); at.pop();
                at.pop();
            }
            Big::V3 { x0: g0, x1: g1, x2: g2,  .. } => {
                at.push(0);
                visit(at, State::runtime(self));
                at.push(3); g0.wiring(at, visit); at.pop();
                at.push(10); g1.wiring(at, visit); at.pop();
                at.push(17); g2.wiring(at, visit); at.pop();
                at.pop();
            }
            Big::V4 {  .. } => {
                at.push(16383);
                visit(at, State::runtime(self));
                at.pop();
            }
            Big::V5 { x0: g0,  .. } => {
                at.push(16384);
                visit(at, State::runtime(self));
                at.push(5); g0.wiring(at, visit); at.pop();
                at.pop();
            }
            Big::V6 { x0: g0, x1: g1,  .. } => {
                at.push(5);
                visit(at, State::runtime(self));
                at.push(6); g0.wiring(at, visit); at.pop();
                at.push(13); g1.wiring(at, visit); at.pop();
                at.pop();
            }
            Big::V7 { x0: g0, x1: g1, x2: g2,  .. } => {
                at.push(536870911);
                visit(at, State::runtime(self));
                at.push(7); g0.wiring(at, visit); at.pop();
                at.push(14); g1.wiring(at, visit); at.pop();
                at.push(21); g2.wiring(at, visit); at.pop();
                at.pop();
            }
        }
    }
}
