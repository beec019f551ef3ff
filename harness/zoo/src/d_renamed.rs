// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, State, Debug)]
#[steit(size_cache_renamed = "my_cache", runtime_renamed = "my_runtime", csharp_name = "Relabelled")]
pub struct Renamed {
        #[steit(tag = 0)]
        pub size_cache: u32,
        #[steit(tag = 1, csharp_name = "HandOfLeaf")]
        pub runtime: Leaf,
        #[steit(csharp_name = "second_one")] #[steit(tag = 2)]
        pub field_two: u8,
}

impl Bind for Renamed {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Renamed", csharp: Some("Relabelled"), is_enum: false, is_state: true, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "Renamed", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "size_cache", csharp: None, tag: 0, ty: <u32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u32" },
                FieldDef { name: "runtime", csharp: Some("HandOfLeaf"), tag: 1, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "field_two", csharp: Some("second_one"), tag: 2, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new(Runtime::new());
        x.size_cache = Bind::build(&fs[0]);
        x.runtime = Bind::build(&fs[1]);
        x.field_two = Bind::build(&fs[2]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(rt.clone())] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.size_cache.view(), self.runtime.view(), self.field_two.view()])
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.size_cache.apply(rest, op),
                (x, Step::F(0, 1)) => return x.runtime.apply(rest, op),
                (x, Step::F(0, 2)) => return x.field_two.apply(rest, op),
                (_, s) => panic!("Renamed is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on Renamed", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => if is_with(how) { self.set_size_cache_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_size_cache(prep(val, how)) as *mut Self },
            (0, 1) => if is_with(how) { self.set_runtime_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_runtime(prep(val, how)) as *mut Self },
            (0, 2) => if is_with(how) { self.set_field_two_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_field_two(prep(val, how)) as *mut Self },
            x => panic!("harness: no field {:?} in Renamed", x),
        };
        assert!(this == ret, "a setter of Renamed returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.size_cache.poke(rest, val),
                (x, Step::F(0, 1)) => return x.runtime.poke(rest, val),
                (x, Step::F(0, 2)) => return x.field_two.poke(rest, val),
                (_, s) => panic!("Renamed is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.size_cache.node(rest, f),
                (x, Step::F(0, 1)) => return x.runtime.node(rest, f),
                (x, Step::F(0, 2)) => return x.field_two.node(rest, f),
                (_, s) => panic!("Renamed is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        visit(at, State::runtime(self));
                at.push(0); self.size_cache.wiring(at, visit); at.pop();
                at.push(1); self.runtime.wiring(at, visit); at.pop();
                at.push(2); self.field_two.wiring(at, visit); at.pop();
    }
}
