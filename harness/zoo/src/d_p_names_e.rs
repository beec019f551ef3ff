// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, Serialize, Deserialize, Debug)]
#[steit(derive_setters)]
pub enum PNamesE {
    #[steit(tag = 0)]
    Only {
        #[steit(tag = 0)]
        size: String,
        #[steit(tag = 3)]
        reader: i8,
        #[steit(tag = 6)]
        writer: Vec<String>,
        #[steit(tag = 9)]
        path: String,
        #[steit(tag = 12)]
        kind: i8,
        #[steit(tag = 15)]
        key: Vec<String>,
        #[steit(tag = 18)]
        tag: String,
        #[steit(tag = 21)]
        value: i8,
        #[steit(tag = 24)]
        self_value: Vec<String>,
        #[steit(tag = 27)]
        state: String,
        #[steit(tag = 30)]
        other: i8,
        #[steit(tag = 33)]
        wire_type: Vec<String>,
        #[steit(tag = 36)]
        field_number: String,
        #[steit(tag = 39)]
        this: i8,
        #[steit(tag = 42)]
        ty: Vec<String>,
        #[steit(tag = 45)]
        io: String,
        #[steit(tag = 48)]
        n: i8,
        #[steit(tag = 51)]
        hasher: Vec<String>,
        #[steit(tag = 54)]
        runtime_: String,
        #[steit(tag = 57)]
        log: i8,
        #[steit(tag = 60)]
        parent: Vec<String>,
        #[steit(tag = 63)]
        r#type: String,
        #[steit(tag = 66)]
        r#match: i8,
        #[steit(tag = 69)]
        merge: Vec<String>,
        #[steit(tag = 72)]
        handle: String,
},
    #[steit(tag = 4)]
    Rest {
        #[steit(tag = 0)]
        handle: i8,
        #[steit(tag = 1)]
        merge: String,
        #[steit(tag = 2)]
        r#match: i8,
        #[steit(tag = 3)]
        r#type: String,
        #[steit(tag = 4)]
        parent: i8,
        #[steit(tag = 5)]
        log: String,
        #[steit(tag = 6)]
        runtime_: i8,
        #[steit(tag = 7)]
        hasher: String,
        #[steit(tag = 8)]
        n: i8,
        #[steit(tag = 9)]
        io: String,
        #[steit(tag = 10)]
        ty: i8,
        #[steit(tag = 11)]
        this: String,
        #[steit(tag = 12)]
        field_number: i8,
        #[steit(tag = 13)]
        wire_type: String,
        #[steit(tag = 14)]
        other: i8,
        #[steit(tag = 15)]
        state: String,
        #[steit(tag = 16)]
        self_value: i8,
        #[steit(tag = 17)]
        value: String,
        #[steit(tag = 18)]
        tag: i8,
        #[steit(tag = 19)]
        key: String,
        #[steit(tag = 20)]
        kind: i8,
        #[steit(tag = 21)]
        path: String,
        #[steit(tag = 22)]
        writer: i8,
        #[steit(tag = 23)]
        reader: String,
        #[steit(tag = 24)]
        size: i8,
},
}

impl Bind for PNamesE {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "PNamesE", csharp: None, is_enum: true, is_state: false, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "Only", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "size", csharp: None, tag: 0, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "reader", csharp: None, tag: 3, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
                FieldDef { name: "writer", csharp: None, tag: 6, ty: <Vec<String> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<String>" },
                FieldDef { name: "path", csharp: None, tag: 9, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "kind", csharp: None, tag: 12, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
                FieldDef { name: "key", csharp: None, tag: 15, ty: <Vec<String> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<String>" },
                FieldDef { name: "tag", csharp: None, tag: 18, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "value", csharp: None, tag: 21, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
                FieldDef { name: "self_value", csharp: None, tag: 24, ty: <Vec<String> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<String>" },
                FieldDef { name: "state", csharp: None, tag: 27, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "other", csharp: None, tag: 30, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
                FieldDef { name: "wire_type", csharp: None, tag: 33, ty: <Vec<String> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<String>" },
                FieldDef { name: "field_number", csharp: None, tag: 36, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "this", csharp: None, tag: 39, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
                FieldDef { name: "ty", csharp: None, tag: 42, ty: <Vec<String> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<String>" },
                FieldDef { name: "io", csharp: None, tag: 45, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "n", csharp: None, tag: 48, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
                FieldDef { name: "hasher", csharp: None, tag: 51, ty: <Vec<String> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<String>" },
                FieldDef { name: "runtime_", csharp: None, tag: 54, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "log", csharp: None, tag: 57, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
                FieldDef { name: "parent", csharp: None, tag: 60, ty: <Vec<String> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<String>" },
                FieldDef { name: "type", csharp: None, tag: 63, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "match", csharp: None, tag: 66, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
                FieldDef { name: "merge", csharp: None, tag: 69, ty: <Vec<String> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<String>" },
                FieldDef { name: "handle", csharp: None, tag: 72, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
            ] },
            VarDef { name: "Rest", csharp: None, tag: 4, fields: vec![
                FieldDef { name: "handle", csharp: None, tag: 0, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
                FieldDef { name: "merge", csharp: None, tag: 1, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "match", csharp: None, tag: 2, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
                FieldDef { name: "type", csharp: None, tag: 3, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "parent", csharp: None, tag: 4, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
                FieldDef { name: "log", csharp: None, tag: 5, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "runtime_", csharp: None, tag: 6, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
                FieldDef { name: "hasher", csharp: None, tag: 7, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "n", csharp: None, tag: 8, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
                FieldDef { name: "io", csharp: None, tag: 9, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "ty", csharp: None, tag: 10, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
                FieldDef { name: "this", csharp: None, tag: 11, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "field_number", csharp: None, tag: 12, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
                FieldDef { name: "wire_type", csharp: None, tag: 13, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "other", csharp: None, tag: 14, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
                FieldDef { name: "state", csharp: None, tag: 15, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "self_value", csharp: None, tag: 16, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
                FieldDef { name: "value", csharp: None, tag: 17, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "tag", csharp: None, tag: 18, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
                FieldDef { name: "key", csharp: None, tag: 19, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "kind", csharp: None, tag: 20, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
                FieldDef { name: "path", csharp: None, tag: 21, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "writer", csharp: None, tag: 22, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
                FieldDef { name: "reader", csharp: None, tag: 23, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "size", csharp: None, tag: 24, ty: <i8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i8" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        match vi {
            0 => {
                let mut x = Self::new_only();
                if let PNamesE::Only { size: g0, reader: g1, writer: g2, path: g3, kind: g4, key: g5, tag: g6, value: g7, self_value: g8, state: g9, other: g10, wire_type: g11, field_number: g12, this: g13, ty: g14, io: g15, n: g16, hasher: g17, runtime_: g18, log: g19, parent: g20, r#type: g21, r#match: g22, merge: g23, handle: g24, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                    *g1 = Bind::build(&fs[1]);
                    *g2 = Bind::build(&fs[2]);
                    *g3 = Bind::build(&fs[3]);
                    *g4 = Bind::build(&fs[4]);
                    *g5 = Bind::build(&fs[5]);
                    *g6 = Bind::build(&fs[6]);
                    *g7 = Bind::build(&fs[7]);
                    *g8 = Bind::build(&fs[8]);
                    *g9 = Bind::build(&fs[9]);
                    *g10 = Bind::build(&fs[10]);
                    *g11 = Bind::build(&fs[11]);
                    *g12 = Bind::build(&fs[12]);
                    *g13 = Bind::build(&fs[13]);
                    *g14 = Bind::build(&fs[14]);
                    *g15 = Bind::build(&fs[15]);
                    *g16 = Bind::build(&fs[16]);
                    *g17 = Bind::build(&fs[17]);
                    *g18 = Bind::build(&fs[18]);
                    *g19 = Bind::build(&fs[19]);
                    *g20 = Bind::build(&fs[20]);
                    *g21 = Bind::build(&fs[21]);
                    *g22 = Bind::build(&fs[22]);
                    *g23 = Bind::build(&fs[23]);
                    *g24 = Bind::build(&fs[24]);
                }
                x
            }
            1 => {
                let mut x = Self::new_rest();
                if let PNamesE::Rest { handle: g0, merge: g1, r#match: g2, r#type: g3, parent: g4, log: g5, runtime_: g6, hasher: g7, n: g8, io: g9, ty: g10, this: g11, field_number: g12, wire_type: g13, other: g14, state: g15, self_value: g16, value: g17, tag: g18, key: g19, kind: g20, path: g21, writer: g22, reader: g23, size: g24, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                    *g1 = Bind::build(&fs[1]);
                    *g2 = Bind::build(&fs[2]);
                    *g3 = Bind::build(&fs[3]);
                    *g4 = Bind::build(&fs[4]);
                    *g5 = Bind::build(&fs[5]);
                    *g6 = Bind::build(&fs[6]);
                    *g7 = Bind::build(&fs[7]);
                    *g8 = Bind::build(&fs[8]);
                    *g9 = Bind::build(&fs[9]);
                    *g10 = Bind::build(&fs[10]);
                    *g11 = Bind::build(&fs[11]);
                    *g12 = Bind::build(&fs[12]);
                    *g13 = Bind::build(&fs[13]);
                    *g14 = Bind::build(&fs[14]);
                    *g15 = Bind::build(&fs[15]);
                    *g16 = Bind::build(&fs[16]);
                    *g17 = Bind::build(&fs[17]);
                    *g18 = Bind::build(&fs[18]);
                    *g19 = Bind::build(&fs[19]);
                    *g20 = Bind::build(&fs[20]);
                    *g21 = Bind::build(&fs[21]);
                    *g22 = Bind::build(&fs[22]);
                    *g23 = Bind::build(&fs[23]);
                    *g24 = Bind::build(&fs[24]);
                }
                x
            }
            _ => panic!("harness: variant index {}", vi),
        }
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(), Self::new_only(), Self::new_rest()] }
    fn view(&self) -> Val {
        match self {
            PNamesE::Only { size: g0, reader: g1, writer: g2, path: g3, kind: g4, key: g5, tag: g6, value: g7, self_value: g8, state: g9, other: g10, wire_type: g11, field_number: g12, this: g13, ty: g14, io: g15, n: g16, hasher: g17, runtime_: g18, log: g19, parent: g20, r#type: g21, r#match: g22, merge: g23, handle: g24,  .. } => Val::Msg(0, vec![g0.view(), g1.view(), g2.view(), g3.view(), g4.view(), g5.view(), g6.view(), g7.view(), g8.view(), g9.view(), g10.view(), g11.view(), g12.view(), g13.view(), g14.view(), g15.view(), g16.view(), g17.view(), g18.view(), g19.view(), g20.view(), g21.view(), g22.view(), g23.view(), g24.view()]),
            PNamesE::Rest { handle: g0, merge: g1, r#match: g2, r#type: g3, parent: g4, log: g5, runtime_: g6, hasher: g7, n: g8, io: g9, ty: g10, this: g11, field_number: g12, wire_type: g13, other: g14, state: g15, self_value: g16, value: g17, tag: g18, key: g19, kind: g20, path: g21, writer: g22, reader: g23, size: g24,  .. } => Val::Msg(1, vec![g0.view(), g1.view(), g2.view(), g3.view(), g4.view(), g5.view(), g6.view(), g7.view(), g8.view(), g9.view(), g10.view(), g11.view(), g12.view(), g13.view(), g14.view(), g15.view(), g16.view(), g17.view(), g18.view(), g19.view(), g20.view(), g21.view(), g22.view(), g23.view(), g24.view()]),
        }
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (PNamesE::Only { size: g, .. }, Step::F(0, 0)) => return g.apply(rest, op),
                (PNamesE::Only { reader: g, .. }, Step::F(0, 1)) => return g.apply(rest, op),
                (PNamesE::Only { writer: g, .. }, Step::F(0, 2)) => return g.apply(rest, op),
                (PNamesE::Only { path: g, .. }, Step::F(0, 3)) => return g.apply(rest, op),
                (PNamesE::Only { kind: g, .. }, Step::F(0, 4)) => return g.apply(rest, op),
                (PNamesE::Only { key: g, .. }, Step::F(0, 5)) => return g.apply(rest, op),
                (PNamesE::Only { tag: g, .. }, Step::F(0, 6)) => return g.apply(rest, op),
                (PNamesE::Only { value: g, .. }, Step::F(0, 7)) => return g.apply(rest, op),
                (PNamesE::Only { self_value: g, .. }, Step::F(0, 8)) => return g.apply(rest, op),
                (PNamesE::Only { state: g, .. }, Step::F(0, 9)) => return g.apply(rest, op),
                (PNamesE::Only { other: g, .. }, Step::F(0, 10)) => return g.apply(rest, op),
                (PNamesE::Only { wire_type: g, .. }, Step::F(0, 11)) => return g.apply(rest, op),
                (PNamesE::Only { field_number: g, .. }, Step::F(0, 12)) => return g.apply(rest, op),
                (PNamesE::Only { this: g, .. }, Step::F(0, 13)) => return g.apply(rest, op),
                (PNamesE::Only { ty: g, .. }, Step::F(0, 14)) => return g.apply(rest, op),
                (PNamesE::Only { io: g, .. }, Step::F(0, 15)) => return g.apply(rest, op),
                (PNamesE::Only { n: g, .. }, Step::F(0, 16)) => return g.apply(rest, op),
                (PNamesE::Only { hasher: g, .. }, Step::F(0, 17)) => return g.apply(rest, op),
                (PNamesE::Only { runtime_: g, .. }, Step::F(0, 18)) => return g.apply(rest, op),
                (PNamesE::Only { log: g, .. }, Step::F(0, 19)) => return g.apply(rest, op),
                (PNamesE::Only { parent: g, .. }, Step::F(0, 20)) => return g.apply(rest, op),
                (PNamesE::Only { r#type: g, .. }, Step::F(0, 21)) => return g.apply(rest, op),
                (PNamesE::Only { r#match: g, .. }, Step::F(0, 22)) => return g.apply(rest, op),
                (PNamesE::Only { merge: g, .. }, Step::F(0, 23)) => return g.apply(rest, op),
                (PNamesE::Only { handle: g, .. }, Step::F(0, 24)) => return g.apply(rest, op),
                (PNamesE::Rest { handle: g, .. }, Step::F(1, 0)) => return g.apply(rest, op),
                (PNamesE::Rest { merge: g, .. }, Step::F(1, 1)) => return g.apply(rest, op),
                (PNamesE::Rest { r#match: g, .. }, Step::F(1, 2)) => return g.apply(rest, op),
                (PNamesE::Rest { r#type: g, .. }, Step::F(1, 3)) => return g.apply(rest, op),
                (PNamesE::Rest { parent: g, .. }, Step::F(1, 4)) => return g.apply(rest, op),
                (PNamesE::Rest { log: g, .. }, Step::F(1, 5)) => return g.apply(rest, op),
                (PNamesE::Rest { runtime_: g, .. }, Step::F(1, 6)) => return g.apply(rest, op),
                (PNamesE::Rest { hasher: g, .. }, Step::F(1, 7)) => return g.apply(rest, op),
                (PNamesE::Rest { n: g, .. }, Step::F(1, 8)) => return g.apply(rest, op),
                (PNamesE::Rest { io: g, .. }, Step::F(1, 9)) => return g.apply(rest, op),
                (PNamesE::Rest { ty: g, .. }, Step::F(1, 10)) => return g.apply(rest, op),
                (PNamesE::Rest { this: g, .. }, Step::F(1, 11)) => return g.apply(rest, op),
                (PNamesE::Rest { field_number: g, .. }, Step::F(1, 12)) => return g.apply(rest, op),
                (PNamesE::Rest { wire_type: g, .. }, Step::F(1, 13)) => return g.apply(rest, op),
                (PNamesE::Rest { other: g, .. }, Step::F(1, 14)) => return g.apply(rest, op),
                (PNamesE::Rest { state: g, .. }, Step::F(1, 15)) => return g.apply(rest, op),
                (PNamesE::Rest { self_value: g, .. }, Step::F(1, 16)) => return g.apply(rest, op),
                (PNamesE::Rest { value: g, .. }, Step::F(1, 17)) => return g.apply(rest, op),
                (PNamesE::Rest { tag: g, .. }, Step::F(1, 18)) => return g.apply(rest, op),
                (PNamesE::Rest { key: g, .. }, Step::F(1, 19)) => return g.apply(rest, op),
                (PNamesE::Rest { kind: g, .. }, Step::F(1, 20)) => return g.apply(rest, op),
                (PNamesE::Rest { path: g, .. }, Step::F(1, 21)) => return g.apply(rest, op),
                (PNamesE::Rest { writer: g, .. }, Step::F(1, 22)) => return g.apply(rest, op),
                (PNamesE::Rest { reader: g, .. }, Step::F(1, 23)) => return g.apply(rest, op),
                (PNamesE::Rest { size: g, .. }, Step::F(1, 24)) => return g.apply(rest, op),
                (_, s) => panic!("PNamesE is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on PNamesE", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => self.set_only_size(Bind::build(val)) as *mut Self,
            (0, 1) => self.set_only_reader(Bind::build(val)) as *mut Self,
            (0, 2) => self.set_only_writer(Bind::build(val)) as *mut Self,
            (0, 3) => self.set_only_path(Bind::build(val)) as *mut Self,
            (0, 4) => self.set_only_kind(Bind::build(val)) as *mut Self,
            (0, 5) => self.set_only_key(Bind::build(val)) as *mut Self,
            (0, 6) => self.set_only_tag(Bind::build(val)) as *mut Self,
            (0, 7) => self.set_only_value(Bind::build(val)) as *mut Self,
            (0, 8) => self.set_only_self_value(Bind::build(val)) as *mut Self,
            (0, 9) => self.set_only_state(Bind::build(val)) as *mut Self,
            (0, 10) => self.set_only_other(Bind::build(val)) as *mut Self,
            (0, 11) => self.set_only_wire_type(Bind::build(val)) as *mut Self,
            (0, 12) => self.set_only_field_number(Bind::build(val)) as *mut Self,
            (0, 13) => self.set_only_this(Bind::build(val)) as *mut Self,
            (0, 14) => self.set_only_ty(Bind::build(val)) as *mut Self,
            (0, 15) => self.set_only_io(Bind::build(val)) as *mut Self,
            (0, 16) => self.set_only_n(Bind::build(val)) as *mut Self,
            (0, 17) => self.set_only_hasher(Bind::build(val)) as *mut Self,
            (0, 18) => self.set_only_runtime_(Bind::build(val)) as *mut Self,
            (0, 19) => self.set_only_log(Bind::build(val)) as *mut Self,
            (0, 20) => self.set_only_parent(Bind::build(val)) as *mut Self,
            (0, 21) => self.set_only_type(Bind::build(val)) as *mut Self,
            (0, 22) => self.set_only_match(Bind::build(val)) as *mut Self,
            (0, 23) => self.set_only_merge(Bind::build(val)) as *mut Self,
            (0, 24) => self.set_only_handle(Bind::build(val)) as *mut Self,
            (1, 0) => self.set_rest_handle(Bind::build(val)) as *mut Self,
            (1, 1) => self.set_rest_merge(Bind::build(val)) as *mut Self,
            (1, 2) => self.set_rest_match(Bind::build(val)) as *mut Self,
            (1, 3) => self.set_rest_type(Bind::build(val)) as *mut Self,
            (1, 4) => self.set_rest_parent(Bind::build(val)) as *mut Self,
            (1, 5) => self.set_rest_log(Bind::build(val)) as *mut Self,
            (1, 6) => self.set_rest_runtime_(Bind::build(val)) as *mut Self,
            (1, 7) => self.set_rest_hasher(Bind::build(val)) as *mut Self,
            (1, 8) => self.set_rest_n(Bind::build(val)) as *mut Self,
            (1, 9) => self.set_rest_io(Bind::build(val)) as *mut Self,
            (1, 10) => self.set_rest_ty(Bind::build(val)) as *mut Self,
            (1, 11) => self.set_rest_this(Bind::build(val)) as *mut Self,
            (1, 12) => self.set_rest_field_number(Bind::build(val)) as *mut Self,
            (1, 13) => self.set_rest_wire_type(Bind::build(val)) as *mut Self,
            (1, 14) => self.set_rest_other(Bind::build(val)) as *mut Self,
            (1, 15) => self.set_rest_state(Bind::build(val)) as *mut Self,
            (1, 16) => self.set_rest_self_value(Bind::build(val)) as *mut Self,
            (1, 17) => self.set_rest_value(Bind::build(val)) as *mut Self,
            (1, 18) => self.set_rest_tag(Bind::build(val)) as *mut Self,
            (1, 19) => self.set_rest_key(Bind::build(val)) as *mut Self,
            (1, 20) => self.set_rest_kind(Bind::build(val)) as *mut Self,
            (1, 21) => self.set_rest_path(Bind::build(val)) as *mut Self,
            (1, 22) => self.set_rest_writer(Bind::build(val)) as *mut Self,
            (1, 23) => self.set_rest_reader(Bind::build(val)) as *mut Self,
            (1, 24) => self.set_rest_size(Bind::build(val)) as *mut Self,
            x => panic!("harness: no field {:?} in PNamesE", x),
        };
        assert!(this == ret, "a setter of PNamesE returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (PNamesE::Only { size: g, .. }, Step::F(0, 0)) => return g.poke(rest, val),
                (PNamesE::Only { reader: g, .. }, Step::F(0, 1)) => return g.poke(rest, val),
                (PNamesE::Only { writer: g, .. }, Step::F(0, 2)) => return g.poke(rest, val),
                (PNamesE::Only { path: g, .. }, Step::F(0, 3)) => return g.poke(rest, val),
                (PNamesE::Only { kind: g, .. }, Step::F(0, 4)) => return g.poke(rest, val),
                (PNamesE::Only { key: g, .. }, Step::F(0, 5)) => return g.poke(rest, val),
                (PNamesE::Only { tag: g, .. }, Step::F(0, 6)) => return g.poke(rest, val),
                (PNamesE::Only { value: g, .. }, Step::F(0, 7)) => return g.poke(rest, val),
                (PNamesE::Only { self_value: g, .. }, Step::F(0, 8)) => return g.poke(rest, val),
                (PNamesE::Only { state: g, .. }, Step::F(0, 9)) => return g.poke(rest, val),
                (PNamesE::Only { other: g, .. }, Step::F(0, 10)) => return g.poke(rest, val),
                (PNamesE::Only { wire_type: g, .. }, Step::F(0, 11)) => return g.poke(rest, val),
                (PNamesE::Only { field_number: g, .. }, Step::F(0, 12)) => return g.poke(rest, val),
                (PNamesE::Only { this: g, .. }, Step::F(0, 13)) => return g.poke(rest, val),
                (PNamesE::Only { ty: g, .. }, Step::F(0, 14)) => return g.poke(rest, val),
                (PNamesE::Only { io: g, .. }, Step::F(0, 15)) => return g.poke(rest, val),
                (PNamesE::Only { n: g, .. }, Step::F(0, 16)) => return g.poke(rest, val),
                (PNamesE::Only { hasher: g, .. }, Step::F(0, 17)) => return g.poke(rest, val),
                (PNamesE::Only { runtime_: g, .. }, Step::F(0, 18)) => return g.poke(rest, val),
                (PNamesE::Only { log: g, .. }, Step::F(0, 19)) => return g.poke(rest, val),
                (PNamesE::Only { parent: g, .. }, Step::F(0, 20)) => return g.poke(rest, val),
                (PNamesE::Only { r#type: g, .. }, Step::F(0, 21)) => return g.poke(rest, val),
                (PNamesE::Only { r#match: g, .. }, Step::F(0, 22)) => return g.poke(rest, val),
                (PNamesE::Only { merge: g, .. }, Step::F(0, 23)) => return g.poke(rest, val),
                (PNamesE::Only { handle: g, .. }, Step::F(0, 24)) => return g.poke(rest, val),
                (PNamesE::Rest { handle: g, .. }, Step::F(1, 0)) => return g.poke(rest, val),
                (PNamesE::Rest { merge: g, .. }, Step::F(1, 1)) => return g.poke(rest, val),
                (PNamesE::Rest { r#match: g, .. }, Step::F(1, 2)) => return g.poke(rest, val),
                (PNamesE::Rest { r#type: g, .. }, Step::F(1, 3)) => return g.poke(rest, val),
                (PNamesE::Rest { parent: g, .. }, Step::F(1, 4)) => return g.poke(rest, val),
                (PNamesE::Rest { log: g, .. }, Step::F(1, 5)) => return g.poke(rest, val),
                (PNamesE::Rest { runtime_: g, .. }, Step::F(1, 6)) => return g.poke(rest, val),
                (PNamesE::Rest { hasher: g, .. }, Step::F(1, 7)) => return g.poke(rest, val),
                (PNamesE::Rest { n: g, .. }, Step::F(1, 8)) => return g.poke(rest, val),
                (PNamesE::Rest { io: g, .. }, Step::F(1, 9)) => return g.poke(rest, val),
                (PNamesE::Rest { ty: g, .. }, Step::F(1, 10)) => return g.poke(rest, val),
                (PNamesE::Rest { this: g, .. }, Step::F(1, 11)) => return g.poke(rest, val),
                (PNamesE::Rest { field_number: g, .. }, Step::F(1, 12)) => return g.poke(rest, val),
                (PNamesE::Rest { wire_type: g, .. }, Step::F(1, 13)) => return g.poke(rest, val),
                (PNamesE::Rest { other: g, .. }, Step::F(1, 14)) => return g.poke(rest, val),
                (PNamesE::Rest { state: g, .. }, Step::F(1, 15)) => return g.poke(rest, val),
                (PNamesE::Rest { self_value: g, .. }, Step::F(1, 16)) => return g.poke(rest, val),
                (PNamesE::Rest { value: g, .. }, Step::F(1, 17)) => return g.poke(rest, val),
                (PNamesE::Rest { tag: g, .. }, Step::F(1, 18)) => return g.poke(rest, val),
                (PNamesE::Rest { key: g, .. }, Step::F(1, 19)) => return g.poke(rest, val),
                (PNamesE::Rest { kind: g, .. }, Step::F(1, 20)) => return g.poke(rest, val),
                (PNamesE::Rest { path: g, .. }, Step::F(1, 21)) => return g.poke(rest, val),
                (PNamesE::Rest { writer: g, .. }, Step::F(1, 22)) => return g.poke(rest, val),
                (PNamesE::Rest { reader: g, .. }, Step::F(1, 23)) => return g.poke(rest, val),
                (PNamesE::Rest { size: g, .. }, Step::F(1, 24)) => return g.poke(rest, val),
                (_, s) => panic!("PNamesE is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
}

#[steit_derive(Clone, PartialEq, Serialize, Default, Debug)]
pub enum LentPNamesE<'a> {
    #[steit(tag = 0)]
    Only {
        #[steit(tag = 0)]
        size: &'a str,
        #[steit(tag = 3)]
        reader: i8,
        #[steit(tag = 6)]
        writer: Vec<&'a str>,
        #[steit(tag = 9)]
        path: &'a str,
        #[steit(tag = 12)]
        kind: i8,
        #[steit(tag = 15)]
        key: Vec<&'a str>,
        #[steit(tag = 18)]
        tag: &'a str,
        #[steit(tag = 21)]
        value: i8,
        #[steit(tag = 24)]
        self_value: Vec<&'a str>,
        #[steit(tag = 27)]
        state: &'a str,
        #[steit(tag = 30)]
        other: i8,
        #[steit(tag = 33)]
        wire_type: Vec<&'a str>,
        #[steit(tag = 36)]
        field_number: &'a str,
        #[steit(tag = 39)]
        this: i8,
        #[steit(tag = 42)]
        ty: Vec<&'a str>,
        #[steit(tag = 45)]
        io: &'a str,
        #[steit(tag = 48)]
        n: i8,
        #[steit(tag = 51)]
        hasher: Vec<&'a str>,
        #[steit(tag = 54)]
        runtime_: &'a str,
        #[steit(tag = 57)]
        log: i8,
        #[steit(tag = 60)]
        parent: Vec<&'a str>,
        #[steit(tag = 63)]
        r#type: &'a str,
        #[steit(tag = 66)]
        r#match: i8,
        #[steit(tag = 69)]
        merge: Vec<&'a str>,
        #[steit(tag = 72)]
        handle: &'a str,
},
    #[steit(tag = 4)]
    Rest {
        #[steit(tag = 0)]
        handle: i8,
        #[steit(tag = 1)]
        merge: &'a str,
        #[steit(tag = 2)]
        r#match: i8,
        #[steit(tag = 3)]
        r#type: &'a str,
        #[steit(tag = 4)]
        parent: i8,
        #[steit(tag = 5)]
        log: &'a str,
        #[steit(tag = 6)]
        runtime_: i8,
        #[steit(tag = 7)]
        hasher: &'a str,
        #[steit(tag = 8)]
        n: i8,
        #[steit(tag = 9)]
        io: &'a str,
        #[steit(tag = 10)]
        ty: i8,
        #[steit(tag = 11)]
        this: &'a str,
        #[steit(tag = 12)]
        field_number: i8,
        #[steit(tag = 13)]
        wire_type: &'a str,
        #[steit(tag = 14)]
        other: i8,
        #[steit(tag = 15)]
        state: &'a str,
        #[steit(tag = 16)]
        self_value: i8,
        #[steit(tag = 17)]
        value: &'a str,
        #[steit(tag = 18)]
        tag: i8,
        #[steit(tag = 19)]
        key: &'a str,
        #[steit(tag = 20)]
        kind: i8,
        #[steit(tag = 21)]
        path: &'a str,
        #[steit(tag = 22)]
        writer: i8,
        #[steit(tag = 23)]
        reader: &'a str,
        #[steit(tag = 24)]
        size: i8,
},
}
impl PNamesE {
    pub fn lend(&self) -> LentPNamesE<'_> {
        match self {
            PNamesE::Only { size: g0, reader: g1, writer: g2, path: g3, kind: g4, key: g5, tag: g6, value: g7, self_value: g8, state: g9, other: g10, wire_type: g11, field_number: g12, this: g13, ty: g14, io: g15, n: g16, hasher: g17, runtime_: g18, log: g19, parent: g20, r#type: g21, r#match: g22, merge: g23, handle: g24, .. } => {
                let mut x = LentPNamesE::new_only();
                if let LentPNamesE::Only { size: h0, reader: h1, writer: h2, path: h3, kind: h4, key: h5, tag: h6, value: h7, self_value: h8, state: h9, other: h10, wire_type: h11, field_number: h12, this: h13, ty: h14, io: h15, n: h16, hasher: h17, runtime_: h18, log: h19, parent: h20, r#type: h21, r#match: h22, merge: h23, handle: h24, .. } = &mut x {
                    *h0 = g0.as_str();
                    *h1 = g1.clone();
                    *h2 = g2.iter().map(|x| x.as_str()).collect::<Vec<_>>();
                    *h3 = g3.as_str();
                    *h4 = g4.clone();
                    *h5 = g5.iter().map(|x| x.as_str()).collect::<Vec<_>>();
                    *h6 = g6.as_str();
                    *h7 = g7.clone();
                    *h8 = g8.iter().map(|x| x.as_str()).collect::<Vec<_>>();
                    *h9 = g9.as_str();
                    *h10 = g10.clone();
                    *h11 = g11.iter().map(|x| x.as_str()).collect::<Vec<_>>();
                    *h12 = g12.as_str();
                    *h13 = g13.clone();
                    *h14 = g14.iter().map(|x| x.as_str()).collect::<Vec<_>>();
                    *h15 = g15.as_str();
                    *h16 = g16.clone();
                    *h17 = g17.iter().map(|x| x.as_str()).collect::<Vec<_>>();
                    *h18 = g18.as_str();
                    *h19 = g19.clone();
                    *h20 = g20.iter().map(|x| x.as_str()).collect::<Vec<_>>();
                    *h21 = g21.as_str();
                    *h22 = g22.clone();
                    *h23 = g23.iter().map(|x| x.as_str()).collect::<Vec<_>>();
                    *h24 = g24.as_str();
                }
                x
            }
            PNamesE::Rest { handle: g0, merge: g1, r#match: g2, r#type: g3, parent: g4, log: g5, runtime_: g6, hasher: g7, n: g8, io: g9, ty: g10, this: g11, field_number: g12, wire_type: g13, other: g14, state: g15, self_value: g16, value: g17, tag: g18, key: g19, kind: g20, path: g21, writer: g22, reader: g23, size: g24, .. } => {
                let mut x = LentPNamesE::new_rest();
                if let LentPNamesE::Rest { handle: h0, merge: h1, r#match: h2, r#type: h3, parent: h4, log: h5, runtime_: h6, hasher: h7, n: h8, io: h9, ty: h10, this: h11, field_number: h12, wire_type: h13, other: h14, state: h15, self_value: h16, value: h17, tag: h18, key: h19, kind: h20, path: h21, writer: h22, reader: h23, size: h24, .. } = &mut x {
                    *h0 = g0.clone();
                    *h1 = g1.as_str();
                    *h2 = g2.clone();
                    *h3 = g3.as_str();
                    *h4 = g4.clone();
                    *h5 = g5.as_str();
                    *h6 = g6.clone();
                    *h7 = g7.as_str();
                    *h8 = g8.clone();
                    *h9 = g9.as_str();
                    *h10 = g10.clone();
                    *h11 = g11.as_str();
                    *h12 = g12.clone();
                    *h13 = g13.as_str();
                    *h14 = g14.clone();
                    *h15 = g15.as_str();
                    *h16 = g16.clone();
                    *h17 = g17.as_str();
                    *h18 = g18.clone();
                    *h19 = g19.as_str();
                    *h20 = g20.clone();
                    *h21 = g21.as_str();
                    *h22 = g22.clone();
                    *h23 = g23.as_str();
                    *h24 = g24.clone();
                }
                x
            }
        }
    }
}
