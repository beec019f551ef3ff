// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, Hash, State, Debug)]
pub enum NamesE {
    #[steit(tag = 0)]
    First {
        #[steit(tag = 0)]
        size: u8,
        #[steit(tag = 1)]
        reader: Leaf,
        #[steit(tag = 2)]
        writer: i32,
        #[steit(tag = 3)]
        path: u8,
        #[steit(tag = 4)]
        kind: Leaf,
        #[steit(tag = 5)]
        key: i32,
        #[steit(tag = 6)]
        tag: u8,
        #[steit(tag = 7)]
        value: Leaf,
        #[steit(tag = 8)]
        self_value: i32,
        #[steit(tag = 9)]
        state: u8,
        #[steit(tag = 10)]
        other: Leaf,
        #[steit(tag = 11)]
        wire_type: i32,
        #[steit(tag = 12)]
        field_number: u8,
        #[steit(tag = 13)]
        this: Leaf,
        #[steit(tag = 14)]
        ty: i32,
        #[steit(tag = 15)]
        io: u8,
        #[steit(tag = 16)]
        n: Leaf,
        #[steit(tag = 17)]
        hasher: i32,
        #[steit(tag = 18)]
        runtime_: u8,
        #[steit(tag = 19)]
        log: Leaf,
        #[steit(tag = 20)]
        parent: i32,
        #[steit(tag = 21)]
        r#type: u8,
        #[steit(tag = 22)]
        r#match: Leaf,
        #[steit(tag = 23)]
        merge: i32,
        #[steit(tag = 24)]
        handle: u8,
},
    #[steit(tag = 1)]
    Second {
        #[steit(tag = 0)]
        size: Leaf,
        #[steit(tag = 2)]
        reader: u8,
        #[steit(tag = 4)]
        writer: List<u8>,
        #[steit(tag = 6)]
        path: Leaf,
        #[steit(tag = 8)]
        kind: u8,
        #[steit(tag = 10)]
        key: List<u8>,
        #[steit(tag = 12)]
        tag: Leaf,
        #[steit(tag = 14)]
        value: u8,
        #[steit(tag = 16)]
        self_value: List<u8>,
        #[steit(tag = 18)]
        state: Leaf,
        #[steit(tag = 20)]
        other: u8,
        #[steit(tag = 22)]
        wire_type: List<u8>,
        #[steit(tag = 24)]
        field_number: Leaf,
        #[steit(tag = 26)]
        this: u8,
        #[steit(tag = 28)]
        ty: List<u8>,
        #[steit(tag = 30)]
        io: Leaf,
        #[steit(tag = 32)]
        n: u8,
        #[steit(tag = 34)]
        hasher: List<u8>,
        #[steit(tag = 36)]
        runtime_: Leaf,
        #[steit(tag = 38)]
        log: u8,
        #[steit(tag = 40)]
        parent: List<u8>,
        #[steit(tag = 42)]
        r#type: Leaf,
        #[steit(tag = 44)]
        r#match: u8,
        #[steit(tag = 46)]
        merge: List<u8>,
        #[steit(tag = 48)]
        handle: Leaf,
},
}

impl Bind for NamesE {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "NamesE", csharp: None, is_enum: true, is_state: true, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "First", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "size", csharp: None, tag: 0, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "reader", csharp: None, tag: 1, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "writer", csharp: None, tag: 2, ty: <i32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i32" },
                FieldDef { name: "path", csharp: None, tag: 3, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "kind", csharp: None, tag: 4, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "key", csharp: None, tag: 5, ty: <i32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i32" },
                FieldDef { name: "tag", csharp: None, tag: 6, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "value", csharp: None, tag: 7, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "self_value", csharp: None, tag: 8, ty: <i32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i32" },
                FieldDef { name: "state", csharp: None, tag: 9, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "other", csharp: None, tag: 10, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "wire_type", csharp: None, tag: 11, ty: <i32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i32" },
                FieldDef { name: "field_number", csharp: None, tag: 12, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "this", csharp: None, tag: 13, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "ty", csharp: None, tag: 14, ty: <i32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i32" },
                FieldDef { name: "io", csharp: None, tag: 15, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "n", csharp: None, tag: 16, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "hasher", csharp: None, tag: 17, ty: <i32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i32" },
                FieldDef { name: "runtime_", csharp: None, tag: 18, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "log", csharp: None, tag: 19, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "parent", csharp: None, tag: 20, ty: <i32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i32" },
                FieldDef { name: "type", csharp: None, tag: 21, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "match", csharp: None, tag: 22, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "merge", csharp: None, tag: 23, ty: <i32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i32" },
                FieldDef { name: "handle", csharp: None, tag: 24, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
            ] },
            VarDef { name: "Second", csharp: None, tag: 1, fields: vec![
                FieldDef { name: "size", csharp: None, tag: 0, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "reader", csharp: None, tag: 2, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "writer", csharp: None, tag: 4, ty: <List<u8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<u8>" },
                FieldDef { name: "path", csharp: None, tag: 6, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "kind", csharp: None, tag: 8, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "key", csharp: None, tag: 10, ty: <List<u8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<u8>" },
                FieldDef { name: "tag", csharp: None, tag: 12, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "value", csharp: None, tag: 14, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "self_value", csharp: None, tag: 16, ty: <List<u8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<u8>" },
                FieldDef { name: "state", csharp: None, tag: 18, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "other", csharp: None, tag: 20, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "wire_type", csharp: None, tag: 22, ty: <List<u8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<u8>" },
                FieldDef { name: "field_number", csharp: None, tag: 24, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "this", csharp: None, tag: 26, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "ty", csharp: None, tag: 28, ty: <List<u8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<u8>" },
                FieldDef { name: "io", csharp: None, tag: 30, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "n", csharp: None, tag: 32, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "hasher", csharp: None, tag: 34, ty: <List<u8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<u8>" },
                FieldDef { name: "runtime_", csharp: None, tag: 36, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "log", csharp: None, tag: 38, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "parent", csharp: None, tag: 40, ty: <List<u8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<u8>" },
                FieldDef { name: "type", csharp: None, tag: 42, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "match", csharp: None, tag: 44, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "merge", csharp: None, tag: 46, ty: <List<u8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<u8>" },
                FieldDef { name: "handle", csharp: None, tag: 48, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        match vi {
            0 => {
                let mut x = Self::new_first(Runtime::new());
                if let NamesE::First { size: g0, reader: g1, writer: g2, path: g3, kind: g4, key: g5, tag: g6, value: g7, self_value: g8, state: g9, other: g10, wire_type: g11, field_number: g12, this: g13, ty: g14, io: g15, n: g16, hasher: g17, runtime_: g18, log: g19, parent: g20, r#type: g21, r#match: g22, merge: g23, handle: g24, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                    *g1 = Bind::build(&fs[1]);
                    *g2 = Bind::build(&fs[2]);
                    *g3 = Bind::build(&fs[3]);
                    *g4 = Bind::build(&fs[4]);
                    *g5 = Bind::build(&fs[5]);
                    *g6 = Bind::build(&fs[6]);
                    *g7 = Bind::build(&fs[7]);
                    *g8 = Bind::build(&fs[8]);
                    *g9 = Bind::build(&fs[9]);
                    *g10 = Bind::build(&fs[10]);
                    *g11 = Bind::build(&fs[11]);
                    *g12 = Bind::build(&fs[12]);
                    *g13 = Bind::build(&fs[13]);
                    *g14 = Bind::build(&fs[14]);
                    *g15 = Bind::build(&fs[15]);
                    *g16 = Bind::build(&fs[16]);
                    *g17 = Bind::build(&fs[17]);
                    *g18 = Bind::build(&fs[18]);
                    *g19 = Bind::build(&fs[19]);
                    *g20 = Bind::build(&fs[20]);
                    *g21 = Bind::build(&fs[21]);
                    *g22 = Bind::build(&fs[22]);
                    *g23 = Bind::build(&fs[23]);
                    *g24 = Bind::build(&fs[24]);
                }
                x
            }
            1 => {
                let mut x = Self::new_second(Runtime::new());
                if let NamesE::Second { size: g0, reader: g1, writer: g2, path: g3, kind: g4, key: g5, tag: g6, value: g7, self_value: g8, state: g9, other: g10, wire_type: g11, field_number: g12, this: g13, ty: g14, io: g15, n: g16, hasher: g17, runtime_: g18, log: g19, parent: g20, r#type: g21, r#match: g22, merge: g23, handle: g24, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                    *g1 = Bind::build(&fs[1]);
                    *g2 = Bind::build(&fs[2]);
                    *g3 = Bind::build(&fs[3]);
                    *g4 = Bind::build(&fs[4]);
                    *g5 = Bind::build(&fs[5]);
                    *g6 = Bind::build(&fs[6]);
                    *g7 = Bind::build(&fs[7]);
                    *g8 = Bind::build(&fs[8]);
                    *g9 = Bind::build(&fs[9]);
                    *g10 = Bind::build(&fs[10]);
                    *g11 = Bind::build(&fs[11]);
                    *g12 = Bind::build(&fs[12]);
                    *g13 = Bind::build(&fs[13]);
                    *g14 = Bind::build(&fs[14]);
                    *g15 = Bind::build(&fs[15]);
                    *g16 = Bind::build(&fs[16]);
                    *g17 = Bind::build(&fs[17]);
                    *g18 = Bind::build(&fs[18]);
                    *g19 = Bind::build(&fs[19]);
                    *g20 = Bind::build(&fs[20]);
                    *g21 = Bind::build(&fs[21]);
                    *g22 = Bind::build(&fs[22]);
                    *g23 = Bind::build(&fs[23]);
                    *g24 = Bind::build(&fs[24]);
                }
                x
            }
            _ => panic!("harness: variant index {}", vi),
        }
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(rt.clone()), Self::new_first(rt.clone()), Self::new_second(rt.clone())] }
    fn view(&self) -> Val {
        match self {
            NamesE::First { size: g0, reader: g1, writer: g2, path: g3, kind: g4, key: g5, tag: g6, value: g7, self_value: g8, state: g9, other: g10, wire_type: g11, field_number: g12, this: g13, ty: g14, io: g15, n: g16, hasher: g17, runtime_: g18, log: g19, parent: g20, r#type: g21, r#match: g22, merge: g23, handle: g24,  .. } => Val::Msg(0, vec![g0.view(), g1.view(), g2.view(), g3.view(), g4.view(), g5.view(), g6.view(), g7.view(), g8.view(), g9.view(), g10.view(), g11.view(), g12.view(), g13.view(), g14.view(), g15.view(), g16.view(), g17.view(), g18.view(), g19.view(), g20.view(), g21.view(), g22.view(), g23.view(), g24.view()]),
            NamesE::Second { size: g0, reader: g1, writer: g2, path: g3, kind: g4, key: g5, tag: g6, value: g7, self_value: g8, state: g9, other: g10, wire_type: g11, field_number: g12, this: g13, ty: g14, io: g15, n: g16, hasher: g17, runtime_: g18, log: g19, parent: g20, r#type: g21, r#match: g22, merge: g23, handle: g24,  .. } => Val::Msg(1, vec![g0.view(), g1.view(), g2.view(), g3.view(), g4.view(), g5.view(), g6.view(), g7.view(), g8.view(), g9.view(), g10.view(), g11.view(), g12.view(), g13.view(), g14.view(), g15.view(), g16.view(), g17.view(), g18.view(), g19.view(), g20.view(), g21.view(), g22.view(), g23.view(), g24.view()]),
        }
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (NamesE::First { size: g, .. }, Step::F(0, 0)) => return g.apply(rest, op),
                (NamesE::First { reader: g, .. }, Step::F(0, 1)) => return g.apply(rest, op),
                (NamesE::First { writer: g, .. }, Step::F(0, 2)) => return g.apply(rest, op),
                (NamesE::First { path: g, .. }, Step::F(0, 3)) => return g.apply(rest, op),
                (NamesE::First { kind: g, .. }, Step::F(0, 4)) => return g.apply(rest, op),
                (NamesE::First { key: g, .. }, Step::F(0, 5)) => return g.apply(rest, op),
                (NamesE::First { tag: g, .. }, Step::F(0, 6)) => return g.apply(rest, op),
                (NamesE::First { value: g, .. }, Step::F(0, 7)) => return g.apply(rest, op),
                (NamesE::First { self_value: g, .. }, Step::F(0, 8)) => return g.apply(rest, op),
                (NamesE::First { state: g, .. }, Step::F(0, 9)) => return g.apply(rest, op),
                (NamesE::First { other: g, .. }, Step::F(0, 10)) => return g.apply(rest, op),
                (NamesE::First { wire_type: g, .. }, Step::F(0, 11)) => return g.apply(rest, op),
                (NamesE::First { field_number: g, .. }, Step::F(0, 12)) => return g.apply(rest, op),
                (NamesE::First { this: g, .. }, Step::F(0, 13)) => return g.apply(rest, op),
                (NamesE::First { ty: g, .. }, Step::F(0, 14)) => return g.apply(rest, op),
                (NamesE::First { io: g, .. }, Step::F(0, 15)) => return g.apply(rest, op),
                (NamesE::First { n: g, .. }, Step::F(0, 16)) => return g.apply(rest, op),
                (NamesE::First { hasher: g, .. }, Step::F(0, 17)) => return g.apply(rest, op),
                (NamesE::First { runtime_: g, .. }, Step::F(0, 18)) => return g.apply(rest, op),
                (NamesE::First { log: g, .. }, Step::F(0, 19)) => return g.apply(rest, op),
                (NamesE::First { parent: g, .. }, Step::F(0, 20)) => return g.apply(rest, op),
                (NamesE::First { r#type: g, .. }, Step::F(0, 21)) => return g.apply(rest, op),
                (NamesE::First { r#match: g, .. }, Step::F(0, 22)) => return g.apply(rest, op),
                (NamesE::First { merge: g, .. }, Step::F(0, 23)) => return g.apply(rest, op),
                (NamesE::First { handle: g, .. }, Step::F(0, 24)) => return g.apply(rest, op),
                (NamesE::Second { size: g, .. }, Step::F(1, 0)) => return g.apply(rest, op),
                (NamesE::Second { reader: g, .. }, Step::F(1, 1)) => return g.apply(rest, op),
                (NamesE::Second { writer: g, .. }, Step::F(1, 2)) => return g.apply(rest, op),
                (NamesE::Second { path: g, .. }, Step::F(1, 3)) => return g.apply(rest, op),
                (NamesE::Second { kind: g, .. }, Step::F(1, 4)) => return g.apply(rest, op),
                (NamesE::Second { key: g, .. }, Step::F(1, 5)) => return g.apply(rest, op),
                (NamesE::Second { tag: g, .. }, Step::F(1, 6)) => return g.apply(rest, op),
                (NamesE::Second { value: g, .. }, Step::F(1, 7)) => return g.apply(rest, op),
                (NamesE::Second { self_value: g, .. }, Step::F(1, 8)) => return g.apply(rest, op),
                (NamesE::Second { state: g, .. }, Step::F(1, 9)) => return g.apply(rest, op),
                (NamesE::Second { other: g, .. }, Step::F(1, 10)) => return g.apply(rest, op),
                (NamesE::Second { wire_type: g, .. }, Step::F(1, 11)) => return g.apply(rest, op),
                (NamesE::Second { field_number: g, .. }, Step::F(1, 12)) => return g.apply(rest, op),
                (NamesE::Second { this: g, .. }, Step::F(1, 13)) => return g.apply(rest, op),
                (NamesE::Second { ty: g, .. }, Step::F(1, 14)) => return g.apply(rest, op),
                (NamesE::Second { io: g, .. }, Step::F(1, 15)) => return g.apply(rest, op),
                (NamesE::Second { n: g, .. }, Step::F(1, 16)) => return g.apply(rest, op),
                (NamesE::Second { hasher: g, .. }, Step::F(1, 17)) => return g.apply(rest, op),
                (NamesE::Second { runtime_: g, .. }, Step::F(1, 18)) => return g.apply(rest, op),
                (NamesE::Second { log: g, .. }, Step::F(1, 19)) => return g.apply(rest, op),
                (NamesE::Second { parent: g, .. }, Step::F(1, 20)) => return g.apply(rest, op),
                (NamesE::Second { r#type: g, .. }, Step::F(1, 21)) => return g.apply(rest, op),
                (NamesE::Second { r#match: g, .. }, Step::F(1, 22)) => return g.apply(rest, op),
                (NamesE::Second { merge: g, .. }, Step::F(1, 23)) => return g.apply(rest, op),
                (NamesE::Second { handle: g, .. }, Step::F(1, 24)) => return g.apply(rest, op),
                (_, s) => panic!("NamesE is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on NamesE", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => if is_with(how) { self.set_first_size_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_size(prep(val, how)) as *mut Self },
            (0, 1) => if is_with(how) { self.set_first_reader_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_reader(prep(val, how)) as *mut Self },
            (0, 2) => if is_with(how) { self.set_first_writer_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_writer(prep(val, how)) as *mut Self },
            (0, 3) => if is_with(how) { self.set_first_path_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_path(prep(val, how)) as *mut Self },
            (0, 4) => if is_with(how) { self.set_first_kind_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_kind(prep(val, how)) as *mut Self },
            (0, 5) => if is_with(how) { self.set_first_key_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_key(prep(val, how)) as *mut Self },
            (0, 6) => if is_with(how) { self.set_first_tag_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_tag(prep(val, how)) as *mut Self },
            (0, 7) => if is_with(how) { self.set_first_value_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_value(prep(val, how)) as *mut Self },
            (0, 8) => if is_with(how) { self.set_first_self_value_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_self_value(prep(val, how)) as *mut Self },
            (0, 9) => if is_with(how) { self.set_first_state_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_state(prep(val, how)) as *mut Self },
            (0, 10) => if is_with(how) { self.set_first_other_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_other(prep(val, how)) as *mut Self },
            (0, 11) => if is_with(how) { self.set_first_wire_type_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_wire_type(prep(val, how)) as *mut Self },
            (0, 12) => if is_with(how) { self.set_first_field_number_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_field_number(prep(val, how)) as *mut Self },
            (0, 13) => if is_with(how) { self.set_first_this_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_this(prep(val, how)) as *mut Self },
            (0, 14) => if is_with(how) { self.set_first_ty_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_ty(prep(val, how)) as *mut Self },
            (0, 15) => if is_with(how) { self.set_first_io_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_io(prep(val, how)) as *mut Self },
            (0, 16) => if is_with(how) { self.set_first_n_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_n(prep(val, how)) as *mut Self },
            (0, 17) => if is_with(how) { self.set_first_hasher_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_hasher(prep(val, how)) as *mut Self },
            (0, 18) => if is_with(how) { self.set_first_runtime__with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_runtime_(prep(val, how)) as *mut Self },
            (0, 19) => if is_with(how) { self.set_first_log_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_log(prep(val, how)) as *mut Self },
            (0, 20) => if is_with(how) { self.set_first_parent_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_parent(prep(val, how)) as *mut Self },
            (0, 21) => if is_with(how) { self.set_first_type_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_type(prep(val, how)) as *mut Self },
            (0, 22) => if is_with(how) { self.set_first_match_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_match(prep(val, how)) as *mut Self },
            (0, 23) => if is_with(how) { self.set_first_merge_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_merge(prep(val, how)) as *mut Self },
            (0, 24) => if is_with(how) { self.set_first_handle_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_first_handle(prep(val, how)) as *mut Self },
            (1, 0) => if is_with(how) { self.set_second_size_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_size(prep(val, how)) as *mut Self },
            (1, 1) => if is_with(how) { self.set_second_reader_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_reader(prep(val, how)) as *mut Self },
            (1, 2) => if is_with(how) { self.set_second_writer_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_writer(prep(val, how)) as *mut Self },
            (1, 3) => if is_with(how) { self.set_second_path_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_path(prep(val, how)) as *mut Self },
            (1, 4) => if is_with(how) { self.set_second_kind_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_kind(prep(val, how)) as *mut Self },
            (1, 5) => if is_with(how) { self.set_second_key_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_key(prep(val, how)) as *mut Self },
            (1, 6) => if is_with(how) { self.set_second_tag_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_tag(prep(val, how)) as *mut Self },
            (1, 7) => if is_with(how) { self.set_second_value_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_value(prep(val, how)) as *mut Self },
            (1, 8) => if is_with(how) { self.set_second_self_value_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_self_value(prep(val, how)) as *mut Self },
            (1, 9) => if is_with(how) { self.set_second_state_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_state(prep(val, how)) as *mut Self },
            (1, 10) => if is_with(how) { self.set_second_other_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_other(prep(val, how)) as *mut Self },
            (1, 11) => if is_with(how) { self.set_second_wire_type_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_wire_type(prep(val, how)) as *mut Self },
            (1, 12) => if is_with(how) { self.set_second_field_number_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_field_number(prep(val, how)) as *mut Self },
            (1, 13) => if is_with(how) { self.set_second_this_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_this(prep(val, how)) as *mut Self },
            (1, 14) => if is_with(how) { self.set_second_ty_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_ty(prep(val, how)) as *mut Self },
            (1, 15) => if is_with(how) { self.set_second_io_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_io(prep(val, how)) as *mut Self },
            (1, 16) => if is_with(how) { self.set_second_n_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_n(prep(val, how)) as *mut Self },
            (1, 17) => if is_with(how) { self.set_second_hasher_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_hasher(prep(val, how)) as *mut Self },
            (1, 18) => if is_with(how) { self.set_second_runtime__with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_runtime_(prep(val, how)) as *mut Self },
            (1, 19) => if is_with(how) { self.set_second_log_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_log(prep(val, how)) as *mut Self },
            (1, 20) => if is_with(how) { self.set_second_parent_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_parent(prep(val, how)) as *mut Self },
            (1, 21) => if is_with(how) { self.set_second_type_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_type(prep(val, how)) as *mut Self },
            (1, 22) => if is_with(how) { self.set_second_match_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_match(prep(val, how)) as *mut Self },
            (1, 23) => if is_with(how) { self.set_second_merge_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_merge(prep(val, how)) as *mut Self },
            (1, 24) => if is_with(how) { self.set_second_handle_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_second_handle(prep(val, how)) as *mut Self },
            x => panic!("harness: no field {:?} in NamesE", x),
        };
        assert!(this == ret, "a setter of NamesE returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (NamesE::First { size: g, .. }, Step::F(0, 0)) => return g.poke(rest, val),
                (NamesE::First { reader: g, .. }, Step::F(0, 1)) => return g.poke(rest, val),
                (NamesE::First { writer: g, .. }, Step::F(0, 2)) => return g.poke(rest, val),
                (NamesE::First { path: g, .. }, Step::F(0, 3)) => return g.poke(rest, val),
                (NamesE::First { kind: g, .. }, Step::F(0, 4)) => return g.poke(rest, val),
                (NamesE::First { key: g, .. }, Step::F(0, 5)) => return g.poke(rest, val),
                (NamesE::First { tag: g, .. }, Step::F(0, 6)) => return g.poke(rest, val),
                (NamesE::First { value: g, .. }, Step::F(0, 7)) => return g.poke(rest, val),
                (NamesE::First { self_value: g, .. }, Step::F(0, 8)) => return g.poke(rest, val),
                (NamesE::First { state: g, .. }, Step::F(0, 9)) => return g.poke(rest, val),
                (NamesE::First { other: g, .. }, Step::F(0, 10)) => return g.poke(rest, val),
                (NamesE::First { wire_type: g, .. }, Step::F(0, 11)) => return g.poke(rest, val),
                (NamesE::First { field_number: g, .. }, Step::F(0, 12)) => return g.poke(rest, val),
                (NamesE::First { this: g, .. }, Step::F(0, 13)) => return g.poke(rest, val),
                (NamesE::First { ty: g, .. }, Step::F(0, 14)) => return g.poke(rest, val),
                (NamesE::First { io: g, .. }, Step::F(0, 15)) => return g.poke(rest, val),
                (NamesE::First { n: g, .. }, Step::F(0, 16)) => return g.poke(rest, val),
                (NamesE::First { hasher: g, .. }, Step::F(0, 17)) => return g.poke(rest, val),
                (NamesE::First { runtime_: g, .. }, Step::F(0, 18)) => return g.poke(rest, val),
                (NamesE::First { log: g, .. }, Step::F(0, 19)) => return g.poke(rest, val),
                (NamesE::First { parent: g, .. }, Step::F(0, 20)) => return g.poke(rest, val),
                (NamesE::First { r#type: g, .. }, Step::F(0, 21)) => return g.poke(rest, val),
                (NamesE::First { r#match: g, .. }, Step::F(0, 22)) => return g.poke(rest, val),
                (NamesE::First { merge: g, .. }, Step::F(0, 23)) => return g.poke(rest, val),
                (NamesE::First { handle: g, .. }, Step::F(0, 24)) => return g.poke(rest, val),
                (NamesE::Second { size: g, .. }, Step::F(1, 0)) => return g.poke(rest, val),
                (NamesE::Second { reader: g, .. }, Step::F(1, 1)) => return g.poke(rest, val),
                (NamesE::Second { writer: g, .. }, Step::F(1, 2)) => return g.poke(rest, val),
                (NamesE::Second { path: g, .. }, Step::F(1, 3)) => return g.poke(rest, val),
                (NamesE::Second { kind: g, .. }, Step::F(1, 4)) => return g.poke(rest, val),
                (NamesE::Second { key: g, .. }, Step::F(1, 5)) => return g.poke(rest, val),
                (NamesE::Second { tag: g, .. }, Step::F(1, 6)) => return g.poke(rest, val),
                (NamesE::Second { value: g, .. }, Step::F(1, 7)) => return g.poke(rest, val),
                (NamesE::Second { self_value: g, .. }, Step::F(1, 8)) => return g.poke(rest, val),
                (NamesE::Second { state: g, .. }, Step::F(1, 9)) => return g.poke(rest, val),
                (NamesE::Second { other: g, .. }, Step::F(1, 10)) => return g.poke(rest, val),
                (NamesE::Second { wire_type: g, .. }, Step::F(1, 11)) => return g.poke(rest, val),
                (NamesE::Second { field_number: g, .. }, Step::F(1, 12)) => return g.poke(rest, val),
                (NamesE::Second { this: g, .. }, Step::F(1, 13)) => return g.poke(rest, val),
                (NamesE::Second { ty: g, .. }, Step::F(1, 14)) => return g.poke(rest, val),
                (NamesE::Second { io: g, .. }, Step::F(1, 15)) => return g.poke(rest, val),
                (NamesE::Second { n: g, .. }, Step::F(1, 16)) => return g.poke(rest, val),
                (NamesE::Second { hasher: g, .. }, Step::F(1, 17)) => return g.poke(rest, val),
                (NamesE::Second { runtime_: g, .. }, Step::F(1, 18)) => return g.poke(rest, val),
                (NamesE::Second { log: g, .. }, Step::F(1, 19)) => return g.poke(rest, val),
                (NamesE::Second { parent: g, .. }, Step::F(1, 20)) => return g.poke(rest, val),
                (NamesE::Second { r#type: g, .. }, Step::F(1, 21)) => return g.poke(rest, val),
                (NamesE::Second { r#match: g, .. }, Step::F(1, 22)) => return g.poke(rest, val),
                (NamesE::Second { merge: g, .. }, Step::F(1, 23)) => return g.poke(rest, val),
                (NamesE::Second { handle: g, .. }, Step::F(1, 24)) => return g.poke(rest, val),
                (_, s) => panic!("NamesE is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (NamesE::First { size: g, .. }, Step::F(0, 0)) => return g.node(rest, f),
                (NamesE::First { reader: g, .. }, Step::F(0, 1)) => return g.node(rest, f),
                (NamesE::First { writer: g, .. }, Step::F(0, 2)) => return g.node(rest, f),
                (NamesE::First { path: g, .. }, Step::F(0, 3)) => return g.node(rest, f),
                (NamesE::First { kind: g, .. }, Step::F(0, 4)) => return g.node(rest, f),
                (NamesE::First { key: g, .. }, Step::F(0, 5)) => return g.node(rest, f),
                (NamesE::First { tag: g, .. }, Step::F(0, 6)) => return g.node(rest, f),
                (NamesE::First { value: g, .. }, Step::F(0, 7)) => return g.node(rest, f),
                (NamesE::First { self_value: g, .. }, Step::F(0, 8)) => return g.node(rest, f),
                (NamesE::First { state: g, .. }, Step::F(0, 9)) => return g.node(rest, f),
                (NamesE::First { other: g, .. }, Step::F(0, 10)) => return g.node(rest, f),
                (NamesE::First { wire_type: g, .. }, Step::F(0, 11)) => return g.node(rest, f),
                (NamesE::First { field_number: g, .. }, Step::F(0, 12)) => return g.node(rest, f),
                (NamesE::First { this: g, .. }, Step::F(0, 13)) => return g.node(rest, f),
                (NamesE::First { ty: g, .. }, Step::F(0, 14)) => return g.node(rest, f),
                (NamesE::First { io: g, .. }, Step::F(0, 15)) => return g.node(rest, f),
                (NamesE::First { n: g, .. }, Step::F(0, 16)) => return g.node(rest, f),
                (NamesE::First { hasher: g, .. }, Step::F(0, 17)) => return g.node(rest, f),
                (NamesE::First { runtime_: g, .. }, Step::F(0, 18)) => return g.node(rest, f),
                (NamesE::First { log: g, .. }, Step::F(0, 19)) => return g.node(rest, f),
                (NamesE::First { parent: g, .. }, Step::F(0, 20)) => return g.node(rest, f),
                (NamesE::First { r#type: g, .. }, Step::F(0, 21)) => return g.node(rest, f),
                (NamesE::First { r#match: g, .. }, Step::F(0, 22)) => return g.node(rest, f),
                (NamesE::First { merge: g, .. }, Step::F(0, 23)) => return g.node(rest, f),
                (NamesE::First { handle: g, .. }, Step::F(0, 24)) => return g.node(rest, f),
                (NamesE::Second { size: g, .. }, Step::F(1, 0)) => return g.node(rest, f),
                (NamesE::Second { reader: g, .. }, Step::F(1, 1)) => return g.node(rest, f),
                (NamesE::Second { writer: g, .. }, Step::F(1, 2)) => return g.node(rest, f),
                (NamesE::Second { path: g, .. }, Step::F(1, 3)) => return g.node(rest, f),
                (NamesE::Second { kind: g, .. }, Step::F(1, 4)) => return g.node(rest, f),
                (NamesE::Second { key: g, .. }, Step::F(1, 5)) => return g.node(rest, f),
                (NamesE::Second { tag: g, .. }, Step::F(1, 6)) => return g.node(rest, f),
                (NamesE::Second { value: g, .. }, Step::F(1, 7)) => return g.node(rest, f),
                (NamesE::Second { self_value: g, .. }, Step::F(1, 8)) => return g.node(rest, f),
                (NamesE::Second { state: g, .. }, Step::F(1, 9)) => return g.node(rest, f),
                (NamesE::Second { other: g, .. }, Step::F(1, 10)) => return g.node(rest, f),
                (NamesE::Second { wire_type: g, .. }, Step::F(1, 11)) => return g.node(rest, f),
                (NamesE::Second { field_number: g, .. }, Step::F(1, 12)) => return g.node(rest, f),
                (NamesE::Second { this: g, .. }, Step::F(1, 13)) => return g.node(rest, f),
                (NamesE::Second { ty: g, .. }, Step::F(1, 14)) => return g.node(rest, f),
                (NamesE::Second { io: g, .. }, Step::F(1, 15)) => return g.node(rest, f),
                (NamesE::Second { n: g, .. }, Step::F(1, 16)) => return g.node(rest, f),
                (NamesE::Second { hasher: g, .. }, Step::F(1, 17)) => return g.node(rest, f),
                (NamesE::Second { runtime_: g, .. }, Step::F(1, 18)) => return g.node(rest, f),
                (NamesE::Second { log: g, .. }, Step::F(1, 19)) => return g.node(rest, f),
                (NamesE::Second { parent: g, .. }, Step::F(1, 20)) => return g.node(rest, f),
                (NamesE::Second { r#type: g, .. }, Step::F(1, 21)) => return g.node(rest, f),
                (NamesE::Second { r#match: g, .. }, Step::F(1, 22)) => return g.node(rest, f),
                (NamesE::Second { merge: g, .. }, Step::F(1, 23)) => return g.node(rest, f),
                (NamesE::Second { handle: g, .. }, Step::F(1, 24)) => return g.node(rest, f),
                (_, s) => panic!("NamesE is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        match self {
            NamesE::First { size: g0, reader: g1, writer: g2, path: g3, kind: g4, key: g5, tag: g6, value: g7, self_value: g8, state: g9, other: g10, wire_type: g11, field_number: g12, this: g13, ty: g14, io: g15, n: g16, hasher: g17, runtime_: g18, log: g19, parent: g20, r#type: g21, r#match: g22, merge: g23, handle: g24,  .. } => {
                at.push(0);
                visit(at, State::runtime(self));
                at.push(0); g0.wiring(at, visit); at.pop();
                at.push(1); g1.wiring(at, visit); at.pop();
                at.push(2); g2.wiring(at, visit); at.pop();
                at.push(3); g3.wiring(at, visit); at.pop();
                at.push(4); g4.wiring(at, visit); at.pop();
                at.push(5); g5.wiring(at, visit); at.pop();
                at.push(6); g6.wiring(at, visit); at.pop();
                at.push(7); g7.wiring(at, visit); at.pop();
                at.push(8); g8.wiring(at, visit); at.pop();
                at.push(9); g9.wiring(at, visit); at.pop();
                at.push(10); g10.wiring(at, visit); at.pop();
                at.push(11); g11.wiring(at, visit); at.pop();
                at.push(12); g12.wiring(at, visit); at.pop();
                at.push(13); g13.wiring(at, visit); at.pop();
                at.push(14); g14.wiring(at, visit); at.pop();
                at.push(15); g15.wiring(at, visit); at.pop();
                at.push(16); g16.wiring(at, visit); at.pop();
                at.push(17); g17.wiring(at, visit); at.pop();
                at.push(18); g18.wiring(at, visit); at.pop();
                at.push(19); g19.wiring(at, visit); at.pop();
                at.push(20); g20.wiring(at, visit); at.pop();
                at.push(21); g21.wiring(at, visit); at.pop();
                at.push(22); g22.wiring(at, visit); at.pop();
                at.push(23); g23.wiring(at, visit); at.pop();
                at.push(24); g24.wiring(at, visit); at.pop();
                at.pop();
            }
            NamesE::Second { size: g0, reader: g1, writer: g2, path: g3, kind: g4, key: g5, tag: g6, value: g7, self_value: g8, state: g9, other: g10, wire_type: g11, field_number: g12, this: g13, ty: g14, io: g15, n: g16, hasher: g17, runtime_: g18, log: g19, parent: g20, r#type: g21, r#match: g22, merge: g23, handle: g24,  .. } => {
                at.push(1);
                visit(at, State::runtime(self));
                at.push(0); g0.wiring(at, visit); at.pop();
                at.push(2); g1.wiring(at, visit); at.pop();
                at.push(4); g2.wiring(at, visit); at.pop();
                at.push(6); g3.wiring(at, visit); at.pop();
                at.push(8); g4.wiring(at, visit); at.pop();
                at.push(10); g5.wiring(at, visit); at.pop();
                at.push(12); g6.wiring(at, visit); at.pop();
                at.push(14); g7.wiring(at, visit); at.pop();
                at.push(16); g8.wiring(at, visit); at.pop();
                at.push(18); g9.wiring(at, visit); at.pop();
                at.push(20); g10.wiring(at, visit); at.pop();
                at.push(22); g11.wiring(at, visit); at.pop();
                at.push(24); g12.wiring(at, visit); at.pop();
                at.push(26); g13.wiring(at, visit); at.pop();
                at.push(28); g14.wiring(at, visit); at.pop();
                at.push(30); g15.wiring(at, visit); at.pop();
                at.push(32); g16.wiring(at, visit); at.pop();
                at.push(34); g17.wiring(at, visit); at.pop();
                at.push(36); g18.wiring(at, visit); at.pop();
                at.push(38); g19.wiring(at, visit); at.pop();
                at.push(40); g20.wiring(at, visit); at.pop();
                at.push(42); g21.wiring(at, visit); at.pop();
                at.push(44); g22.wiring(at, visit); at.pop();
                at.push(46); g23.wiring(at, visit); at.pop();
                at.push(48); g24.wiring(at, visit); at.pop();
                at.pop();
            }
        }
    }
}
