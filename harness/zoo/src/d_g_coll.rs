// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, State, Debug)]
pub struct GColl<T: State> {
        #[steit(tag = 1)]
        pub xs: List<T>,
        #[steit(tag = 2)]
        pub m: Map<u8, T>,
        #[steit(tag = 3)]
        pub o: Maybe<T>,
        #[steit(tag = 4)]
        pub one: T,
}

impl<T: Bind + State> Bind for GColl<T> {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "GColl", csharp: None, is_enum: false, is_state: true, builtin: false, no_meta: false, setters: true, params: vec!["T"], vars: vec![
            VarDef { name: "GColl", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "xs", csharp: None, tag: 1, ty: <List<T> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<T>" },
                FieldDef { name: "m", csharp: None, tag: 2, ty: <Map<u8, T> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Map<u8, T>" },
                FieldDef { name: "o", csharp: None, tag: 3, ty: <Maybe<T> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Maybe<T>" },
                FieldDef { name: "one", csharp: None, tag: 4, ty: <T as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "T" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new(Runtime::new());
        x.xs = Bind::build(&fs[0]);
        x.m = Bind::build(&fs[1]);
        x.o = Bind::build(&fs[2]);
        x.one = Bind::build(&fs[3]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(rt.clone())] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.xs.view(), self.m.view(), self.o.view(), self.one.view()])
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.xs.apply(rest, op),
                (x, Step::F(0, 1)) => return x.m.apply(rest, op),
                (x, Step::F(0, 2)) => return x.o.apply(rest, op),
                (x, Step::F(0, 3)) => return x.one.apply(rest, op),
                (_, s) => panic!("GColl is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on GColl", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => if is_with(how) { self.set_xs_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_xs(prep(val, how)) as *mut Self },
            (0, 1) => if is_with(how) { self.set_m_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_m(prep(val, how)) as *mut Self },
            (0, 2) => if is_with(how) { self.set_o_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_o(prep(val, how)) as *mut Self },
            (0, 3) => if is_with(how) { self.set_one_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_one(prep(val, how)) as *mut Self },
            x => panic!("harness: no field {:?} in GColl", x),
        };
        assert!(this == ret, "a setter of GColl returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.xs.poke(rest, val),
                (x, Step::F(0, 1)) => return x.m.poke(rest, val),
                (x, Step::F(0, 2)) => return x.o.poke(rest, val),
                (x, Step::F(0, 3)) => return x.one.poke(rest, val),
                (_, s) => panic!("GColl is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.xs.node(rest, f),
                (x, Step::F(0, 1)) => return x.m.node(rest, f),
                (x, Step::F(0, 2)) => return x.o.node(rest, f),
                (x, Step::F(0, 3)) => return x.one.node(rest, f),
                (_, s) => panic!("GColl is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        visit(at, State::runtime(self));
                at.push(1); self.xs.wiring(at, visit); at.pop();
                at.push(2); self.m.wiring(at, visit); at.pop();
                at.push(3); self.o.wiring(at, visit); at.pop();
                at.push(4); self.one.wiring(at, visit); at.pop();
    }
}
