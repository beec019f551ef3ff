// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, State, Debug)]
pub struct Coll {
        #[steit(tag = 0)]
        pub nums: List<i32>,
        #[steit(tag = 1)]
        pub leaves: List<Leaf>,
        #[steit(tag = 2)]
        pub map: Map<u8, Leaf>,
        #[steit(tag = 3)]
        pub m16: Map<u16, List<u16>>,
        #[steit(tag = 4)]
        pub m32: Map<u32, Shape>,
        #[steit(tag = 5)]
        pub deep: List<List<i64>>,
        #[steit(tag = 6)]
        pub mm: Map<u8, Map<u16, i8>>,
        #[steit(tag = 17)]
        pub flags: List<bool>,
}

impl Bind for Coll {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Coll", csharp: None, is_enum: false, is_state: true, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "Coll", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "nums", csharp: None, tag: 0, ty: <List<i32> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<i32>" },
                FieldDef { name: "leaves", csharp: None, tag: 1, ty: <List<Leaf> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<Leaf>" },
                FieldDef { name: "map", csharp: None, tag: 2, ty: <Map<u8, Leaf> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Map<u8, Leaf>" },
                FieldDef { name: "m16", csharp: None, tag: 3, ty: <Map<u16, List<u16>> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Map<u16, List<u16>>" },
                FieldDef { name: "m32", csharp: None, tag: 4, ty: <Map<u32, Shape> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Map<u32, Shape>" },
                FieldDef { name: "deep", csharp: None, tag: 5, ty: <List<List<i64>> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<List<i64>>" },
                FieldDef { name: "mm", csharp: None, tag: 6, ty: <Map<u8, Map<u16, i8>> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Map<u8, Map<u16, i8>>" },
                FieldDef { name: "flags", csharp: None, tag: 17, ty: <List<bool> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<bool>" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new(Runtime::new());
        x.nums = Bind::build(&fs[0]);
        x.leaves = Bind::build(&fs[1]);
        x.map = Bind::build(&fs[2]);
        x.m16 = Bind::build(&fs[3]);
        x.m32 = Bind::build(&fs[4]);
        x.deep = Bind::build(&fs[5]);
        x.mm = Bind::build(&fs[6]);
        x.flags = Bind::build(&fs[7]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(rt.clone())] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.nums.view(), self.leaves.view(), self.map.view(), self.m16.view(), self.m32.view(), self.deep.view(), self.mm.view(), self.flags.view()])
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.nums.apply(rest, op),
                (x, Step::F(0, 1)) => return x.leaves.apply(rest, op),
                (x, Step::F(0, 2)) => return x.map.apply(rest, op),
                (x, Step::F(0, 3)) => return x.m16.apply(rest, op),
                (x, Step::F(0, 4)) => return x.m32.apply(rest, op),
                (x, Step::F(0, 5)) => return x.deep.apply(rest, op),
                (x, Step::F(0, 6)) => return x.mm.apply(rest, op),
                (x, Step::F(0, 7)) => return x.flags.apply(rest, op),
                (_, s) => panic!("Coll is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on Coll", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => if is_with(how) { self.set_nums_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_nums(prep(val, how)) as *mut Self },
            (0, 1) => if is_with(how) { self.set_leaves_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_leaves(prep(val, how)) as *mut Self },
            (0, 2) => if is_with(how) { self.set_map_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_map(prep(val, how)) as *mut Self },
            (0, 3) => if is_with(how) { self.set_m16_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_m16(prep(val, how)) as *mut Self },
            (0, 4) => if is_with(how) { self.set_m32_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_m32(prep(val, how)) as *mut Self },
            (0, 5) => if is_with(how) { self.set_deep_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_deep(prep(val, how)) as *mut Self },
            (0, 6) => if is_with(how) { self.set_mm_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_mm(prep(val, how)) as *mut Self },
            (0, 7) => if is_with(how) { self.set_flags_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_flags(prep(val, how)) as *mut Self },
            x => panic!("harness: no field {:?} in Coll", x),
        };
        assert!(this == ret, "a setter of Coll returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.nums.poke(rest, val),
                (x, Step::F(0, 1)) => return x.leaves.poke(rest, val),
                (x, Step::F(0, 2)) => return x.map.poke(rest, val),
                (x, Step::F(0, 3)) => return x.m16.poke(rest, val),
                (x, Step::F(0, 4)) => return x.m32.poke(rest, val),
                (x, Step::F(0, 5)) => return x.deep.poke(rest, val),
                (x, Step::F(0, 6)) => return x.mm.poke(rest, val),
                (x, Step::F(0, 7)) => return x.flags.poke(rest, val),
                (_, s) => panic!("Coll is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.nums.node(rest, f),
                (x, Step::F(0, 1)) => return x.leaves.node(rest, f),
                (x, Step::F(0, 2)) => return x.map.node(rest, f),
                (x, Step::F(0, 3)) => return x.m16.node(rest, f),
                (x, Step::F(0, 4)) => return x.m32.node(rest, f),
                (x, Step::F(0, 5)) => return x.deep.node(rest, f),
                (x, Step::F(0, 6)) => return x.mm.node(rest, f),
                (x, Step::F(0, 7)) => return x.flags.node(rest, f),
                (_, s) => panic!("Coll is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        visit(at, State::runtime(self));
                at.push(0); self.nums.wiring(at, visit); at.pop();
                at.push(1); self.leaves.wiring(at, visit); at.pop();
                at.push(2); self.map.wiring(at, visit); at.pop();
                at.push(3); self.m16.wiring(at, visit); at.pop();
                at.push(4); self.m32.wiring(at, visit); at.pop();
                at.push(5); self.deep.wiring(at, visit); at.pop();
                at.push(6); self.mm.wiring(at, visit); at.pop();
                at.push(17); self.flags.wiring(at, visit); at.pop();
    }
}
