// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, Serialize, Deserialize, Debug)]
#[steit(derive_setters)]
pub struct PNames {
        #[steit(tag = 0)]
        pub size: u8,
        #[steit(tag = 3)]
        pub reader: String,
        #[steit(tag = 6)]
        pub writer: Vec<u8>,
        #[steit(tag = 9)]
        pub path: i64,
        #[steit(tag = 12)]
        pub kind: u8,
        #[steit(tag = 15)]
        pub key: String,
        #[steit(tag = 18)]
        pub tag: Vec<u8>,
        #[steit(tag = 21)]
        pub value: i64,
        #[steit(tag = 24)]
        pub self_value: u8,
        #[steit(tag = 27)]
        pub state: String,
        #[steit(tag = 30)]
        pub other: Vec<u8>,
        #[steit(tag = 33)]
        pub wire_type: i64,
        #[steit(tag = 36)]
        pub field_number: u8,
        #[steit(tag = 39)]
        pub this: String,
        #[steit(tag = 42)]
        pub ty: Vec<u8>,
        #[steit(tag = 45)]
        pub io: i64,
        #[steit(tag = 48)]
        pub n: u8,
        #[steit(tag = 51)]
        pub hasher: String,
        #[steit(tag = 54)]
        pub runtime_: Vec<u8>,
        #[steit(tag = 57)]
        pub log: i64,
        #[steit(tag = 60)]
        pub parent: u8,
        #[steit(tag = 63)]
        pub r#type: String,
        #[steit(tag = 66)]
        pub r#match: Vec<u8>,
        #[steit(tag = 69)]
        pub merge: i64,
        #[steit(tag = 72)]
        pub handle: u8,
}

impl Bind for PNames {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "PNames", csharp: None, is_enum: false, is_state: false, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "PNames", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "size", csharp: None, tag: 0, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "reader", csharp: None, tag: 3, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "writer", csharp: None, tag: 6, ty: <Vec<u8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<u8>" },
                FieldDef { name: "path", csharp: None, tag: 9, ty: <i64 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i64" },
                FieldDef { name: "kind", csharp: None, tag: 12, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "key", csharp: None, tag: 15, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "tag", csharp: None, tag: 18, ty: <Vec<u8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<u8>" },
                FieldDef { name: "value", csharp: None, tag: 21, ty: <i64 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i64" },
                FieldDef { name: "self_value", csharp: None, tag: 24, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "state", csharp: None, tag: 27, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "other", csharp: None, tag: 30, ty: <Vec<u8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<u8>" },
                FieldDef { name: "wire_type", csharp: None, tag: 33, ty: <i64 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i64" },
                FieldDef { name: "field_number", csharp: None, tag: 36, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "this", csharp: None, tag: 39, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "ty", csharp: None, tag: 42, ty: <Vec<u8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<u8>" },
                FieldDef { name: "io", csharp: None, tag: 45, ty: <i64 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i64" },
                FieldDef { name: "n", csharp: None, tag: 48, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "hasher", csharp: None, tag: 51, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "runtime_", csharp: None, tag: 54, ty: <Vec<u8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<u8>" },
                FieldDef { name: "log", csharp: None, tag: 57, ty: <i64 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i64" },
                FieldDef { name: "parent", csharp: None, tag: 60, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "type", csharp: None, tag: 63, ty: <String as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "String" },
                FieldDef { name: "match", csharp: None, tag: 66, ty: <Vec<u8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Vec<u8>" },
                FieldDef { name: "merge", csharp: None, tag: 69, ty: <i64 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i64" },
                FieldDef { name: "handle", csharp: None, tag: 72, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new();
        x.size = Bind::build(&fs[0]);
        x.reader = Bind::build(&fs[1]);
        x.writer = Bind::build(&fs[2]);
        x.path = Bind::build(&fs[3]);
        x.kind = Bind::build(&fs[4]);
        x.key = Bind::build(&fs[5]);
        x.tag = Bind::build(&fs[6]);
        x.value = Bind::build(&fs[7]);
        x.self_value = Bind::build(&fs[8]);
        x.state = Bind::build(&fs[9]);
        x.other = Bind::build(&fs[10]);
        x.wire_type = Bind::build(&fs[11]);
        x.field_number = Bind::build(&fs[12]);
        x.this = Bind::build(&fs[13]);
        x.ty = Bind::build(&fs[14]);
        x.io = Bind::build(&fs[15]);
        x.n = Bind::build(&fs[16]);
        x.hasher = Bind::build(&fs[17]);
        x.runtime_ = Bind::build(&fs[18]);
        x.log = Bind::build(&fs[19]);
        x.parent = Bind::build(&fs[20]);
        x.r#type = Bind::build(&fs[21]);
        x.r#match = Bind::build(&fs[22]);
        x.merge = Bind::build(&fs[23]);
        x.handle = Bind::build(&fs[24]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new()] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.size.view(), self.reader.view(), self.writer.view(), self.path.view(), self.kind.view(), self.key.view(), self.tag.view(), self.value.view(), self.self_value.view(), self.state.view(), self.other.view(), self.wire_type.view(), self.field_number.view(), self.this.view(), self.ty.view(), self.io.view(), self.n.view(), self.hasher.view(), self.runtime_.view(), self.log.view(), self.parent.view(), self.r#type.view(), self.r#match.view(), self.merge.view(), self.handle.view()])
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.size.apply(rest, op),
                (x, Step::F(0, 1)) => return x.reader.apply(rest, op),
                (x, Step::F(0, 2)) => return x.writer.apply(rest, op),
                (x, Step::F(0, 3)) => return x.path.apply(rest, op),
                (x, Step::F(0, 4)) => return x.kind.apply(rest, op),
                (x, Step::F(0, 5)) => return x.key.apply(rest, op),
                (x, Step::F(0, 6)) => return x.tag.apply(rest, op),
                (x, Step::F(0, 7)) => return x.value.apply(rest, op),
                (x, Step::F(0, 8)) => return x.self_value.apply(rest, op),
                (x, Step::F(0, 9)) => return x.state.apply(rest, op),
                (x, Step::F(0, 10)) => return x.other.apply(rest, op),
                (x, Step::F(0, 11)) => return x.wire_type.apply(rest, op),
                (x, Step::F(0, 12)) => return x.field_number.apply(rest, op),
                (x, Step::F(0, 13)) => return x.this.apply(rest, op),
                (x, Step::F(0, 14)) => return x.ty.apply(rest, op),
                (x, Step::F(0, 15)) => return x.io.apply(rest, op),
                (x, Step::F(0, 16)) => return x.n.apply(rest, op),
                (x, Step::F(0, 17)) => return x.hasher.apply(rest, op),
                (x, Step::F(0, 18)) => return x.runtime_.apply(rest, op),
                (x, Step::F(0, 19)) => return x.log.apply(rest, op),
                (x, Step::F(0, 20)) => return x.parent.apply(rest, op),
                (x, Step::F(0, 21)) => return x.r#type.apply(rest, op),
                (x, Step::F(0, 22)) => return x.r#match.apply(rest, op),
                (x, Step::F(0, 23)) => return x.merge.apply(rest, op),
                (x, Step::F(0, 24)) => return x.handle.apply(rest, op),
                (_, s) => panic!("PNames is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on PNames", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => self.set_size(Bind::build(val)) as *mut Self,
            (0, 1) => self.set_reader(Bind::build(val)) as *mut Self,
            (0, 2) => self.set_writer(Bind::build(val)) as *mut Self,
            (0, 3) => self.set_path(Bind::build(val)) as *mut Self,
            (0, 4) => self.set_kind(Bind::build(val)) as *mut Self,
            (0, 5) => self.set_key(Bind::build(val)) as *mut Self,
            (0, 6) => self.set_tag(Bind::build(val)) as *mut Self,
            (0, 7) => self.set_value(Bind::build(val)) as *mut Self,
            (0, 8) => self.set_self_value(Bind::build(val)) as *mut Self,
            (0, 9) => self.set_state(Bind::build(val)) as *mut Self,
            (0, 10) => self.set_other(Bind::build(val)) as *mut Self,
            (0, 11) => self.set_wire_type(Bind::build(val)) as *mut Self,
            (0, 12) => self.set_field_number(Bind::build(val)) as *mut Self,
            (0, 13) => self.set_this(Bind::build(val)) as *mut Self,
            (0, 14) => self.set_ty(Bind::build(val)) as *mut Self,
            (0, 15) => self.set_io(Bind::build(val)) as *mut Self,
            (0, 16) => self.set_n(Bind::build(val)) as *mut Self,
            (0, 17) => self.set_hasher(Bind::build(val)) as *mut Self,
            (0, 18) => self.set_runtime_(Bind::build(val)) as *mut Self,
            (0, 19) => self.set_log(Bind::build(val)) as *mut Self,
            (0, 20) => self.set_parent(Bind::build(val)) as *mut Self,
            (0, 21) => self.set_type(Bind::build(val)) as *mut Self,
            (0, 22) => self.set_match(Bind::build(val)) as *mut Self,
            (0, 23) => self.set_merge(Bind::build(val)) as *mut Self,
            (0, 24) => self.set_handle(Bind::build(val)) as *mut Self,
            x => panic!("harness: no field {:?} in PNames", x),
        };
        assert!(this == ret, "a setter of PNames returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.size.poke(rest, val),
                (x, Step::F(0, 1)) => return x.reader.poke(rest, val),
                (x, Step::F(0, 2)) => return x.writer.poke(rest, val),
                (x, Step::F(0, 3)) => return x.path.poke(rest, val),
                (x, Step::F(0, 4)) => return x.kind.poke(rest, val),
                (x, Step::F(0, 5)) => return x.key.poke(rest, val),
                (x, Step::F(0, 6)) => return x.tag.poke(rest, val),
                (x, Step::F(0, 7)) => return x.value.poke(rest, val),
                (x, Step::F(0, 8)) => return x.self_value.poke(rest, val),
                (x, Step::F(0, 9)) => return x.state.poke(rest, val),
                (x, Step::F(0, 10)) => return x.other.poke(rest, val),
                (x, Step::F(0, 11)) => return x.wire_type.poke(rest, val),
                (x, Step::F(0, 12)) => return x.field_number.poke(rest, val),
                (x, Step::F(0, 13)) => return x.this.poke(rest, val),
                (x, Step::F(0, 14)) => return x.ty.poke(rest, val),
                (x, Step::F(0, 15)) => return x.io.poke(rest, val),
                (x, Step::F(0, 16)) => return x.n.poke(rest, val),
                (x, Step::F(0, 17)) => return x.hasher.poke(rest, val),
                (x, Step::F(0, 18)) => return x.runtime_.poke(rest, val),
                (x, Step::F(0, 19)) => return x.log.poke(rest, val),
                (x, Step::F(0, 20)) => return x.parent.poke(rest, val),
                (x, Step::F(0, 21)) => return x.r#type.poke(rest, val),
                (x, Step::F(0, 22)) => return x.r#match.poke(rest, val),
                (x, Step::F(0, 23)) => return x.merge.poke(rest, val),
                (x, Step::F(0, 24)) => return x.handle.poke(rest, val),
                (_, s) => panic!("PNames is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
}

#[steit_derive(Clone, PartialEq, Serialize, Default, Debug)]
#[steit(derive_setters)]
pub struct LentPNames<'a> {
        #[steit(tag = 0)]
        pub size: u8,
        #[steit(tag = 3)]
        pub reader: &'a str,
        #[steit(tag = 6)]
        pub writer: Vec<u8>,
        #[steit(tag = 9)]
        pub path: i64,
        #[steit(tag = 12)]
        pub kind: u8,
        #[steit(tag = 15)]
        pub key: &'a str,
        #[steit(tag = 18)]
        pub tag: Vec<u8>,
        #[steit(tag = 21)]
        pub value: i64,
        #[steit(tag = 24)]
        pub self_value: u8,
        #[steit(tag = 27)]
        pub state: &'a str,
        #[steit(tag = 30)]
        pub other: Vec<u8>,
        #[steit(tag = 33)]
        pub wire_type: i64,
        #[steit(tag = 36)]
        pub field_number: u8,
        #[steit(tag = 39)]
        pub this: &'a str,
        #[steit(tag = 42)]
        pub ty: Vec<u8>,
        #[steit(tag = 45)]
        pub io: i64,
        #[steit(tag = 48)]
        pub n: u8,
        #[steit(tag = 51)]
        pub hasher: &'a str,
        #[steit(tag = 54)]
        pub runtime_: Vec<u8>,
        #[steit(tag = 57)]
        pub log: i64,
        #[steit(tag = 60)]
        pub parent: u8,
        #[steit(tag = 63)]
        pub r#type: &'a str,
        #[steit(tag = 66)]
        pub r#match: Vec<u8>,
        #[steit(tag = 69)]
        pub merge: i64,
        #[steit(tag = 72)]
        pub handle: u8,
}
impl PNames {
    pub fn lend(&self) -> LentPNames<'_> {
        let mut x = LentPNames::new();
        x.size = (&self.size).clone();
        x.reader = (&self.reader).as_str();
        x.writer = (&self.writer).clone();
        x.path = (&self.path).clone();
        x.kind = (&self.kind).clone();
        x.key = (&self.key).as_str();
        x.tag = (&self.tag).clone();
        x.value = (&self.value).clone();
        x.self_value = (&self.self_value).clone();
        x.state = (&self.state).as_str();
        x.other = (&self.other).clone();
        x.wire_type = (&self.wire_type).clone();
        x.field_number = (&self.field_number).clone();
        x.this = (&self.this).as_str();
        x.ty = (&self.ty).clone();
        x.io = (&self.io).clone();
        x.n = (&self.n).clone();
        x.hasher = (&self.hasher).as_str();
        x.runtime_ = (&self.runtime_).clone();
        x.log = (&self.log).clone();
        x.parent = (&self.parent).clone();
        x.r#type = (&self.r#type).as_str();
        x.r#match = (&self.r#match).clone();
        x.merge = (&self.merge).clone();
        x.handle = (&self.handle).clone();
        x
    }
}
