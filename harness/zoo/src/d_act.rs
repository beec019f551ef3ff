// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, Serialize, Deserialize, Debug)]
#[steit(derive_setters)]
pub enum Act {
    #[steit(tag = 0)]
    Noop,
    #[steit(tag = 1)]
    Hit {
        #[steit(tag = 0)]
        target: u16,
        #[steit(tag = 1)]
        before: Vec<Act>,
        #[steit(tag = 2)]
        payload: Bytes,
},
    #[steit(tag = 200)]
    Say(#[steit(tag = 0)] String, #[steit(tag = 1)] Option<Box<Act>>),
    #[steit(tag = 2, no_size_cache)]
    Wrap {
        #[steit(tag = 0)]
        rec: Rec2,
        #[steit(tag = 3)]
        shape: Shape,
},
}

impl Bind for Act {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Act", csharp: None, is_enum: true, is_state: false, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "Noop", csharp: None, tag: 0, fields: vec![
            ] },
            VarDef { name: "Hit", csharp: None, tag: 1, fields: vec![
                FieldDef { name: "target", csharp: None, tag: 0, ty: <u16 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u16" },
                FieldDef { name: "before", csharp: None, tag: 1, ty: <Vec<Act> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<Act>" },
                FieldDef { name: "payload", csharp: None, tag: 2, ty: <Bytes as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Bytes" },
            ] },
            VarDef { name: "Say", csharp: None, tag: 200, fields: vec![
                FieldDef { name: "f0", csharp: None, tag: 0, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "f1", csharp: None, tag: 1, ty: <Option<Box<Act>> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Option<Box<Act>>" },
            ] },
            VarDef { name: "Wrap", csharp: None, tag: 2, fields: vec![
                FieldDef { name: "rec", csharp: None, tag: 0, ty: <Rec2 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Rec2" },
                FieldDef { name: "shape", csharp: None, tag: 3, ty: <Shape as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Shape" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        match vi {
            0 => {
                let mut x = Self::new_noop();
                x
            }
            1 => {
                let mut x = Self::new_hit();
                if let Act::Hit { target: g0, before: g1, payload: g2, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                    *g1 = Bind::build(&fs[1]);
                    *g2 = Bind::build(&fs[2]);
                }
                x
            }
            2 => {
                let mut x = Self::new_say();
                if let Act::Say { 0: g0, 1: g1, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                    *g1 = Bind::build(&fs[1]);
                }
                x
            }
            3 => {
                let mut x = Self::new_wrap();
                if let Act::Wrap { rec: g0, shape: g1, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                    *g1 = Bind::build(&fs[1]);
                }
                x
            }
            _ => panic!("harness: variant index {}", vi),
        }
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(), Self::new_noop(), Self::new_hit(), Self::new_say(), Self::new_wrap()] }
    fn view(&self) -> Val {
        match self {
            Act::Noop {  .. } => Val::Msg(0, vec![]),
            Act::Hit { target: g0, before: g1, payload: g2,  .. } => Val::Msg(1, vec![g0.view(), g1.view(), g2.view()]),
            Act::Say { 0: g0, 1: g1,  .. } => Val::Msg(2, vec![g0.view(), g1.view()]),
            Act::Wrap { rec: g0, shape: g1,  .. } => Val::Msg(3, vec![g0.view(), g1.view()]),
        }
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (Act::Hit { target: g, .. }, Step::F(1, 0)) => return g.apply(rest, op),
                (Act::Hit { before: g, .. }, Step::F(1, 1)) => return g.apply(rest, op),
                (Act::Hit { payload: g, .. }, Step::F(1, 2)) => return g.apply(rest, op),
                (Act::Say { 0: g, .. }, Step::F(2, 0)) => return g.apply(rest, op),
                (Act::Say { 1: g, .. }, Step::F(2, 1)) => return g.apply(rest, op),
                (Act::Wrap { rec: g, .. }, Step::F(3, 0)) => return g.apply(rest, op),
                (Act::Wrap { shape: g, .. }, Step::F(3, 1)) => return g.apply(rest, op),
                (_, s) => panic!("Act is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on Act", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (1, 0) => self.set_hit_target(Bind::build(val)) as *mut Self,
            (1, 1) => self.set_hit_before(Bind::build(val)) as *mut Self,
            (1, 2) => self.set_hit_payload(Bind::build(val)) as *mut Self,
            (2, 0) => self.set_say_f0(Bind::build(val)) as *mut Self,
            (2, 1) => self.set_say_f1(Bind::build(val)) as *mut Self,
            (3, 0) => self.set_wrap_rec(Bind::build(val)) as *mut Self,
            (3, 1) => self.set_wrap_shape(Bind::build(val)) as *mut Self,
            x => panic!("harness: no field {:?} in Act", x),
        };
        assert!(this == ret, "a setter of Act returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (Act::Hit { target: g, .. }, Step::F(1, 0)) => return g.poke(rest, val),
                (Act::Hit { before: g, .. }, Step::F(1, 1)) => return g.poke(rest, val),
                (Act::Hit { payload: g, .. }, Step::F(1, 2)) => return g.poke(rest, val),
                (Act::Say { 0: g, .. }, Step::F(2, 0)) => return g.poke(rest, val),
                (Act::Say { 1: g, .. }, Step::F(2, 1)) => return g.poke(rest, val),
                (Act::Wrap { rec: g, .. }, Step::F(3, 0)) => return g.poke(rest, val),
                (Act::Wrap { shape: g, .. }, Step::F(3, 1)) => return g.poke(rest, val),
                (_, s) => panic!("Act is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
}

#[steit_derive(Clone, PartialEq, Serialize, Default, Debug)]
pub enum LentAct<'a> {
    #[steit(tag = 0)]
    Noop,
    #[steit(tag = 1)]
    Hit {
        #[steit(tag = 0)]
        target: u16,
        #[steit(tag = 1)]
        before: Vec<LentAct<'a>>,
        #[steit(tag = 2)]
        payload: Bytes,
},
    #[steit(tag = 200)]
    Say(#[steit(tag = 0)] &'a str, #[steit(tag = 1)] Option<Box<LentAct<'a>>>),
    #[steit(tag = 2, no_size_cache)]
    Wrap {
        #[steit(tag = 0)]
        rec: LentRec2<'a>,
        #[steit(tag = 3)]
        shape: Shape,
},
}
impl Act {
    pub fn lend(&self) -> LentAct<'_> {
        match self {
            Act::Noop { .. } => {
                let mut x = LentAct::new_noop();
                if let LentAct::Noop { .. } = &mut x {
                }
                x
            }
            Act::Hit { target: g0, before: g1, payload: g2, .. } => {
                let mut x = LentAct::new_hit();
                if let LentAct::Hit { target: h0, before: h1, payload: h2, .. } = &mut x {
                    *h0 = g0.clone();
                    *h1 = g1.iter().map(|x| x.lend()).collect::<Vec<_>>();
                    *h2 = g2.clone();
                }
                x
            }
            Act::Say { 0: g0, 1: g1, .. } => {
                let mut x = LentAct::new_say();
                if let LentAct::Say { 0: h0, 1: h1, .. } = &mut x {
                    *h0 = g0.as_str();
                    *h1 = g1.as_ref().map(|x| { let x = &**x; Box::new(x.lend()) });
                }
                x
            }
            Act::Wrap { rec: g0, shape: g1, .. } => {
                let mut x = LentAct::new_wrap();
                if let LentAct::Wrap { rec: h0, shape: h1, .. } = &mut x {
                    *h0 = g0.lend();
                    *h1 = g1.clone();
                }
                x
            }
        }
    }
}
