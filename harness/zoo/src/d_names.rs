// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, Hash, State, Debug)]
pub struct Names {
        #[steit(tag = 0)]
        pub size: u8,
        #[steit(tag = 1)]
        pub reader: i32,
        #[steit(tag = 2)]
        pub writer: Leaf,
        #[steit(tag = 3)]
        pub path: List<u8>,
        #[steit(tag = 4)]
        pub kind: u8,
        #[steit(tag = 5)]
        pub key: i32,
        #[steit(tag = 6)]
        pub tag: Leaf,
        #[steit(tag = 7)]
        pub value: List<u8>,
        #[steit(tag = 8)]
        pub self_value: u8,
        #[steit(tag = 9)]
        pub state: i32,
        #[steit(tag = 10)]
        pub other: Leaf,
        #[steit(tag = 11)]
        pub wire_type: List<u8>,
        #[steit(tag = 12)]
        pub field_number: u8,
        #[steit(tag = 13)]
        pub this: i32,
        #[steit(tag = 14)]
        pub ty: Leaf,
        #[steit(tag = 15)]
        pub io: List<u8>,
        #[steit(tag = 16)]
        pub n: u8,
        #[steit(tag = 17)]
        pub hasher: i32,
        #[steit(tag = 18)]
        pub runtime_: Leaf,
        #[steit(tag = 19)]
        pub log: List<u8>,
        #[steit(tag = 20)]
        pub parent: u8,
        #[steit(tag = 21)]
        pub r#type: i32,
        #[steit(tag = 22)]
        pub r#match: Leaf,
        #[steit(tag = 23)]
        pub merge: List<u8>,
        #[steit(tag = 24)]
        pub handle: u8,
}

impl Bind for Names {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "Names", csharp: None, is_enum: false, is_state: true, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "Names", csharp: None, tag: 0, fields: vec![
                FieldDef { name: "size", csharp: None, tag: 0, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "reader", csharp: None, tag: 1, ty: <i32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i32" },
                FieldDef { name: "writer", csharp: None, tag: 2, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "path", csharp: None, tag: 3, ty: <List<u8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<u8>" },
                FieldDef { name: "kind", csharp: None, tag: 4, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "key", csharp: None, tag: 5, ty: <i32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i32" },
                FieldDef { name: "tag", csharp: None, tag: 6, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "value", csharp: None, tag: 7, ty: <List<u8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<u8>" },
                FieldDef { name: "self_value", csharp: None, tag: 8, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "state", csharp: None, tag: 9, ty: <i32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i32" },
                FieldDef { name: "other", csharp: None, tag: 10, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "wire_type", csharp: None, tag: 11, ty: <List<u8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<u8>" },
                FieldDef { name: "field_number", csharp: None, tag: 12, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "this", csharp: None, tag: 13, ty: <i32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i32" },
                FieldDef { name: "ty", csharp: None, tag: 14, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "io", csharp: None, tag: 15, ty: <List<u8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<u8>" },
                FieldDef { name: "n", csharp: None, tag: 16, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "hasher", csharp: None, tag: 17, ty: <i32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i32" },
                FieldDef { name: "runtime_", csharp: None, tag: 18, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "log", csharp: None, tag: 19, ty: <List<u8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<u8>" },
                FieldDef { name: "parent", csharp: None, tag: 20, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
                FieldDef { name: "type", csharp: None, tag: 21, ty: <i32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "i32" },
                FieldDef { name: "match", csharp: None, tag: 22, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
                FieldDef { name: "merge", csharp: None, tag: 23, ty: <List<u8> as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "List<u8>" },
                FieldDef { name: "handle", csharp: None, tag: 24, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        let mut x = Self::new(Runtime::new());
        x.size = Bind::build(&fs[0]);
        x.reader = Bind::build(&fs[1]);
        x.writer = Bind::build(&fs[2]);
        x.path = Bind::build(&fs[3]);
        x.kind = Bind::build(&fs[4]);
        x.key = Bind::build(&fs[5]);
        x.tag = Bind::build(&fs[6]);
        x.value = Bind::build(&fs[7]);
        x.self_value = Bind::build(&fs[8]);
        x.state = Bind::build(&fs[9]);
        x.other = Bind::build(&fs[10]);
        x.wire_type = Bind::build(&fs[11]);
        x.field_number = Bind::build(&fs[12]);
        x.this = Bind::build(&fs[13]);
        x.ty = Bind::build(&fs[14]);
        x.io = Bind::build(&fs[15]);
        x.n = Bind::build(&fs[16]);
        x.hasher = Bind::build(&fs[17]);
        x.runtime_ = Bind::build(&fs[18]);
        x.log = Bind::build(&fs[19]);
        x.parent = Bind::build(&fs[20]);
        x.r#type = Bind::build(&fs[21]);
        x.r#match = Bind::build(&fs[22]);
        x.merge = Bind::build(&fs[23]);
        x.handle = Bind::build(&fs[24]);
        x
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::new(rt.clone())] }
    fn view(&self) -> Val {
        Val::Msg(0, vec![self.size.view(), self.reader.view(), self.writer.view(), self.path.view(), self.kind.view(), self.key.view(), self.tag.view(), self.value.view(), self.self_value.view(), self.state.view(), self.other.view(), self.wire_type.view(), self.field_number.view(), self.this.view(), self.ty.view(), self.io.view(), self.n.view(), self.hasher.view(), self.runtime_.view(), self.log.view(), self.parent.view(), self.r#type.view(), self.r#match.view(), self.merge.view(), self.handle.view()])
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.size.apply(rest, op),
                (x, Step::F(0, 1)) => return x.reader.apply(rest, op),
                (x, Step::F(0, 2)) => return x.writer.apply(rest, op),
                (x, Step::F(0, 3)) => return x.path.apply(rest, op),
                (x, Step::F(0, 4)) => return x.kind.apply(rest, op),
                (x, Step::F(0, 5)) => return x.key.apply(rest, op),
                (x, Step::F(0, 6)) => return x.tag.apply(rest, op),
                (x, Step::F(0, 7)) => return x.value.apply(rest, op),
                (x, Step::F(0, 8)) => return x.self_value.apply(rest, op),
                (x, Step::F(0, 9)) => return x.state.apply(rest, op),
                (x, Step::F(0, 10)) => return x.other.apply(rest, op),
                (x, Step::F(0, 11)) => return x.wire_type.apply(rest, op),
                (x, Step::F(0, 12)) => return x.field_number.apply(rest, op),
                (x, Step::F(0, 13)) => return x.this.apply(rest, op),
                (x, Step::F(0, 14)) => return x.ty.apply(rest, op),
                (x, Step::F(0, 15)) => return x.io.apply(rest, op),
                (x, Step::F(0, 16)) => return x.n.apply(rest, op),
                (x, Step::F(0, 17)) => return x.hasher.apply(rest, op),
                (x, Step::F(0, 18)) => return x.runtime_.apply(rest, op),
                (x, Step::F(0, 19)) => return x.log.apply(rest, op),
                (x, Step::F(0, 20)) => return x.parent.apply(rest, op),
                (x, Step::F(0, 21)) => return x.r#type.apply(rest, op),
                (x, Step::F(0, 22)) => return x.r#match.apply(rest, op),
                (x, Step::F(0, 23)) => return x.merge.apply(rest, op),
                (x, Step::F(0, 24)) => return x.handle.apply(rest, op),
                (_, s) => panic!("Names is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on Names", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => if is_with(how) { self.set_size_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_size(prep(val, how)) as *mut Self },
            (0, 1) => if is_with(how) { self.set_reader_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_reader(prep(val, how)) as *mut Self },
            (0, 2) => if is_with(how) { self.set_writer_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_writer(prep(val, how)) as *mut Self },
            (0, 3) => if is_with(how) { self.set_path_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_path(prep(val, how)) as *mut Self },
            (0, 4) => if is_with(how) { self.set_kind_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_kind(prep(val, how)) as *mut Self },
            (0, 5) => if is_with(how) { self.set_key_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_key(prep(val, how)) as *mut Self },
            (0, 6) => if is_with(how) { self.set_tag_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_tag(prep(val, how)) as *mut Self },
            (0, 7) => if is_with(how) { self.set_value_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_value(prep(val, how)) as *mut Self },
            (0, 8) => if is_with(how) { self.set_self_value_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_self_value(prep(val, how)) as *mut Self },
            (0, 9) => if is_with(how) { self.set_state_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_state(prep(val, how)) as *mut Self },
            (0, 10) => if is_with(how) { self.set_other_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_other(prep(val, how)) as *mut Self },
            (0, 11) => if is_with(how) { self.set_wire_type_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_wire_type(prep(val, how)) as *mut Self },
            (0, 12) => if is_with(how) { self.set_field_number_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_field_number(prep(val, how)) as *mut Self },
            (0, 13) => if is_with(how) { self.set_this_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_this(prep(val, how)) as *mut Self },
            (0, 14) => if is_with(how) { self.set_ty_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_ty(prep(val, how)) as *mut Self },
            (0, 15) => if is_with(how) { self.set_io_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_io(prep(val, how)) as *mut Self },
            (0, 16) => if is_with(how) { self.set_n_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_n(prep(val, how)) as *mut Self },
            (0, 17) => if is_with(how) { self.set_hasher_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_hasher(prep(val, how)) as *mut Self },
            (0, 18) => if is_with(how) { self.set_runtime__with(|rt| make(val, how, rt)) as *mut Self } else { self.set_runtime_(prep(val, how)) as *mut Self },
            (0, 19) => if is_with(how) { self.set_log_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_log(prep(val, how)) as *mut Self },
            (0, 20) => if is_with(how) { self.set_parent_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_parent(prep(val, how)) as *mut Self },
            (0, 21) => if is_with(how) { self.set_type_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_type(prep(val, how)) as *mut Self },
            (0, 22) => if is_with(how) { self.set_match_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_match(prep(val, how)) as *mut Self },
            (0, 23) => if is_with(how) { self.set_merge_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_merge(prep(val, how)) as *mut Self },
            (0, 24) => if is_with(how) { self.set_handle_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_handle(prep(val, how)) as *mut Self },
            x => panic!("harness: no field {:?} in Names", x),
        };
        assert!(this == ret, "a setter of Names returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.size.poke(rest, val),
                (x, Step::F(0, 1)) => return x.reader.poke(rest, val),
                (x, Step::F(0, 2)) => return x.writer.poke(rest, val),
                (x, Step::F(0, 3)) => return x.path.poke(rest, val),
                (x, Step::F(0, 4)) => return x.kind.poke(rest, val),
                (x, Step::F(0, 5)) => return x.key.poke(rest, val),
                (x, Step::F(0, 6)) => return x.tag.poke(rest, val),
                (x, Step::F(0, 7)) => return x.value.poke(rest, val),
                (x, Step::F(0, 8)) => return x.self_value.poke(rest, val),
                (x, Step::F(0, 9)) => return x.state.poke(rest, val),
                (x, Step::F(0, 10)) => return x.other.poke(rest, val),
                (x, Step::F(0, 11)) => return x.wire_type.poke(rest, val),
                (x, Step::F(0, 12)) => return x.field_number.poke(rest, val),
                (x, Step::F(0, 13)) => return x.this.poke(rest, val),
                (x, Step::F(0, 14)) => return x.ty.poke(rest, val),
                (x, Step::F(0, 15)) => return x.io.poke(rest, val),
                (x, Step::F(0, 16)) => return x.n.poke(rest, val),
                (x, Step::F(0, 17)) => return x.hasher.poke(rest, val),
                (x, Step::F(0, 18)) => return x.runtime_.poke(rest, val),
                (x, Step::F(0, 19)) => return x.log.poke(rest, val),
                (x, Step::F(0, 20)) => return x.parent.poke(rest, val),
                (x, Step::F(0, 21)) => return x.r#type.poke(rest, val),
                (x, Step::F(0, 22)) => return x.r#match.poke(rest, val),
                (x, Step::F(0, 23)) => return x.merge.poke(rest, val),
                (x, Step::F(0, 24)) => return x.handle.poke(rest, val),
                (_, s) => panic!("Names is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (x, Step::F(0, 0)) => return x.size.node(rest, f),
                (x, Step::F(0, 1)) => return x.reader.node(rest, f),
                (x, Step::F(0, 2)) => return x.writer.node(rest, f),
                (x, Step::F(0, 3)) => return x.path.node(rest, f),
                (x, Step::F(0, 4)) => return x.kind.node(rest, f),
                (x, Step::F(0, 5)) => return x.key.node(rest, f),
                (x, Step::F(0, 6)) => return x.tag.node(rest, f),
                (x, Step::F(0, 7)) => return x.value.node(rest, f),
                (x, Step::F(0, 8)) => return x.self_value.node(rest, f),
                (x, Step::F(0, 9)) => return x.state.node(rest, f),
                (x, Step::F(0, 10)) => return x.other.node(rest, f),
                (x, Step::F(0, 11)) => return x.wire_type.node(rest, f),
                (x, Step::F(0, 12)) => return x.field_number.node(rest, f),
                (x, Step::F(0, 13)) => return x.this.node(rest, f),
                (x, Step::F(0, 14)) => return x.ty.node(rest, f),
                (x, Step::F(0, 15)) => return x.io.node(rest, f),
                (x, Step::F(0, 16)) => return x.n.node(rest, f),
                (x, Step::F(0, 17)) => return x.hasher.node(rest, f),
                (x, Step::F(0, 18)) => return x.runtime_.node(rest, f),
                (x, Step::F(0, 19)) => return x.log.node(rest, f),
                (x, Step::F(0, 20)) => return x.parent.node(rest, f),
                (x, Step::F(0, 21)) => return x.r#type.node(rest, f),
                (x, Step::F(0, 22)) => return x.r#match.node(rest, f),
                (x, Step::F(0, 23)) => return x.merge.node(rest, f),
                (x, Step::F(0, 24)) => return x.handle.node(rest, f),
                (_, s) => panic!("Names is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        visit(at, State::runtime(self));
                at.push(0); self.size.wiring(at, visit); at.pop();
                at.push(1); self.reader.wiring(at, visit); at.pop();
                at.push(2); self.writer.wiring(at, visit); at.pop();
                at.push(3); self.path.wiring(at, visit); at.pop();
                at.push(4); self.kind.wiring(at, visit); at.pop();
                at.push(5); self.key.wiring(at, visit); at.pop();
                at.push(6); self.tag.wiring(at, visit); at.pop();
                at.push(7); self.value.wiring(at, visit); at.pop();
                at.push(8); self.self_value.wiring(at, visit); at.pop();
                at.push(9); self.state.wiring(at, visit); at.pop();
                at.push(10); self.other.wiring(at, visit); at.pop();
                at.push(11); self.wire_type.wiring(at, visit); at.pop();
                at.push(12); self.field_number.wiring(at, visit); at.pop();
                at.push(13); self.this.wiring(at, visit); at.pop();
                at.push(14); self.ty.wiring(at, visit); at.pop();
                at.push(15); self.io.wiring(at, visit); at.pop();
                at.push(16); self.n.wiring(at, visit); at.pop();
                at.push(17); self.hasher.wiring(at, visit); at.pop();
                at.push(18); self.runtime_.wiring(at, visit); at.pop();
                at.push(19); self.log.wiring(at, visit); at.pop();
                at.push(20); self.parent.wiring(at, visit); at.pop();
                at.push(21); self.r#type.wiring(at, visit); at.pop();
                at.push(22); self.r#match.wiring(at, visit); at.pop();
                at.push(23); self.merge.wiring(at, visit); at.pop();
                at.push(24); self.handle.wiring(at, visit); at.pop();
    }
}
