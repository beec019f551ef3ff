//! Type erasure: one object-safe interface over every bound type.

use std::{any::Any, hash::Hash, io};

use steit::{
    de::{Deserialize, Reader},
    gen::{
        generators::{CSharpGenerator, CSharpSetting},
        Generator, Setting,
    },
    meta::{HasMeta, MetaLink, NameMeta, TypeMeta},
    rt::Runtime,
    ser::Serialize,
    state::State,
    wire_fmt::WireType,
};

use crate::{
    bind::{hash_of, Bind, Node},
    model::{Op, Res, Step},
    val::{Ty, Val},
};

/// Anything that can be serialized.
pub trait Written {
    fn compute_size(&self) -> u32;
    fn cache_size(&self) -> u32;
    fn cached_size(&self) -> u32;
    fn serialize(&self, w: &mut dyn io::Write) -> io::Result<()>;
    fn serialize_cached(&self, w: &mut dyn io::Write) -> io::Result<()>;
    fn size_nested(&self, field: Option<u32>, can_omit: bool) -> io::Result<u32>;
    fn serialize_nested(&self, field: Option<u32>, can_omit: bool, w: &mut dyn io::Write) -> io::Result<()>;
    fn to_bytes(&self) -> Vec<u8>;
    fn wire_type(&self) -> WireType;
}

pub trait Inst: Written + Any {
    fn as_any(&self) -> &dyn Any;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
    fn view(&self) -> Val;
    fn clone_box(&self) -> Box<dyn Inst>;
    fn eq(&self, other: &dyn Inst) -> bool;
    fn hash_code(&self) -> Option<u64>;
    fn poke(&mut self, path: &[Step], val: &Val);

    fn merge(&mut self, r: &mut Reader<&mut dyn io::Read>) -> io::Result<()>;
    fn merge_nested(&mut self, wt: WireType, r: &mut Reader<&mut dyn io::Read>) -> io::Result<()>;

    // State only
    fn set_runtime(&mut self, rt: Runtime);
    fn runtime(&self) -> Runtime;
    fn is_root(&self) -> bool;
    fn is_child(&self) -> bool;
    fn replay(&mut self, r: &mut Reader<&mut dyn io::Read>) -> io::Result<()>;
    fn handle_update(&mut self, r: &mut Reader<&mut dyn io::Read>) -> io::Result<()>;
    fn apply(&mut self, path: &[Step], op: &Op) -> Res;
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node));
    /// Visits the nodes of a state that should be attached at `base`.
    fn wiring_from(&self, base: &[u32], visit: &mut dyn FnMut(&[u32], &Runtime));
}

/// How to hash a value, where its type can be hashed.
pub type HashFn<T> = Option<fn(&T) -> Option<u64>>;

struct Ob<T: 'static>(T, HashFn<T>);
struct Os<T: 'static>(T, HashFn<T>);

struct Lw<'a, T>(&'a T);

macro_rules! written {
    () => {
        fn compute_size(&self) -> u32 { self.0.compute_size() }
        fn cache_size(&self) -> u32 { self.0.cache_size() }
        fn cached_size(&self) -> u32 { self.0.cached_size() }
        fn serialize(&self, mut w: &mut dyn io::Write) -> io::Result<()> { self.0.steit_serialize(&mut w) }
        fn serialize_cached(&self, mut w: &mut dyn io::Write) -> io::Result<()> { self.0.serialize_cached(&mut w) }
        fn size_nested(&self, field: Option<u32>, can_omit: bool) -> io::Result<u32> {
            self.0.compute_size_nested(field, can_omit)
        }
        fn serialize_nested(&self, field: Option<u32>, can_omit: bool, mut w: &mut dyn io::Write) -> io::Result<()> {
            self.0.serialize_nested(field, can_omit, &mut w)
        }
        fn to_bytes(&self) -> Vec<u8> { self.0.to_bytes() }
        fn wire_type(&self) -> WireType { T::WIRE_TYPE }
    };
}

impl<T: Bind> Written for Ob<T> {
    written!();
}

impl<T: Bind + State> Written for Os<T> {
    written!();
}

impl<T: Serialize> Written for Lw<'_, T> {
    written!();
}

/// A value that borrows its text, and hence can only be written.
pub fn lend<T: Serialize>(x: &T, f: &mut dyn FnMut(&dyn Written)) {
    f(&Lw(x))
}

/// A type that borrows its text, along with the type that owns it.
pub struct Lent {
    pub name: &'static str,
    pub ty: fn() -> Ty,
    /// Hands over the borrowed form of a value.
    pub with: fn(&Val, &mut dyn FnMut(&dyn Written)),
}

macro_rules! common {
    () => {
        fn as_any(&self) -> &dyn Any { &self.0 }
        fn into_any(self: Box<Self>) -> Box<dyn Any> { Box::new(self.0) }
        fn view(&self) -> Val { self.0.view() }
        fn clone_box(&self) -> Box<dyn Inst> { Box::new(Self(self.0.clone(), self.1)) }
        fn eq(&self, other: &dyn Inst) -> bool {
            let other = other.as_any().downcast_ref::<T>().expect("harness: another type");
            let equal = self.0 == *other;
            assert!(equal != (self.0 != *other), "== and != disagree");
            equal
        }
        fn hash_code(&self) -> Option<u64> { self.1.and_then(|f| f(&self.0)) }
        fn poke(&mut self, path: &[Step], val: &Val) { self.0.poke(path, val) }
        fn merge(&mut self, r: &mut Reader<&mut dyn io::Read>) -> io::Result<()> { self.0.merge(r) }
        fn merge_nested(&mut self, wt: WireType, r: &mut Reader<&mut dyn io::Read>) -> io::Result<()> {
            self.0.merge_nested(wt, r)
        }
    };
}

impl<T: Bind> Inst for Ob<T> {
    common!();
    fn set_runtime(&mut self, _: Runtime) { panic!("harness: not a state") }
    fn runtime(&self) -> Runtime { panic!("harness: not a state") }
    fn is_root(&self) -> bool { panic!("harness: not a state") }
    fn is_child(&self) -> bool { panic!("harness: not a state") }
    fn replay(&mut self, _: &mut Reader<&mut dyn io::Read>) -> io::Result<()> { panic!("harness: not a state") }
    fn handle_update(&mut self, _: &mut Reader<&mut dyn io::Read>) -> io::Result<()> { panic!("harness: not a state") }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res { self.0.apply(path, op) }
    fn node(&mut self, _: &[Step], _: &mut dyn FnMut(&mut dyn Node)) { panic!("harness: not a state") }
    fn wiring_from(&self, _: &[u32], _: &mut dyn FnMut(&[u32], &Runtime)) { panic!("harness: not a state") }
}

impl<T: Bind + State> Inst for Os<T> {
    common!();
    fn set_runtime(&mut self, rt: Runtime) { self.0.set_runtime(rt) }
    fn runtime(&self) -> Runtime { self.0.runtime().clone() }
    fn is_root(&self) -> bool { self.0.is_root() }
    fn is_child(&self) -> bool { self.0.is_child() }
    fn replay(&mut self, r: &mut Reader<&mut dyn io::Read>) -> io::Result<()> { self.0.replay(r) }
    fn handle_update(&mut self, r: &mut Reader<&mut dyn io::Read>) -> io::Result<()> { self.0.handle_update(r) }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res { self.0.apply(path, op) }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) { self.0.node(path, f) }
    fn wiring_from(&self, base: &[u32], visit: &mut dyn FnMut(&[u32], &Runtime)) {
        self.0.wiring(&mut base.to_vec(), visit)
    }
}

pub fn is_enum(ty: &Ty) -> bool {
    match crate::val::strip(ty) {
        Ty::Msg(id) => crate::val::def(*id).is_enum,
        _ => false,
    }
}

pub trait Target: Sync + Send {
    fn name(&self) -> String;
    fn ty(&self) -> Ty;
    fn is_state(&self) -> bool;
    fn build(&self, v: &Val) -> Box<dyn Inst>;
    fn default(&self) -> Box<dyn Inst>;
    fn ctors(&self, rt: &Runtime) -> Vec<Box<dyn Inst>>;
    fn with_runtime(&self, rt: Runtime) -> Box<dyn Inst>;
    fn assemble(&self, v: &Val, rt: Runtime) -> Box<dyn Inst>;
    fn deserialize(&self, r: &mut Reader<&mut dyn io::Read>) -> io::Result<Box<dyn Inst>>;
    fn deserialize_nested(&self, wt: WireType, r: &mut Reader<&mut dyn io::Read>) -> io::Result<Box<dyn Inst>>;
}

pub struct TB<T: 'static>(HashFn<T>);
pub struct TS<T: 'static>(HashFn<T>);

fn short(name: &str) -> String {
    // drop module paths
    let mut out = String::new();
    let mut word = String::new();
    for c in name.chars() {
        if c.is_alphanumeric() || c == '_' || c == ':' {
            word.push(c);
        } else {
            out.push_str(word.rsplit("::").next().unwrap());
            word.clear();
            out.push(c);
        }
    }
    out.push_str(word.rsplit("::").next().unwrap());
    out
}

impl<T: Bind> Target for TB<T> {
    fn name(&self) -> String { short(std::any::type_name::<T>()) }
    fn ty(&self) -> Ty { T::ty() }
    fn is_state(&self) -> bool { false }
    fn build(&self, v: &Val) -> Box<dyn Inst> { Box::new(Ob(T::build(v), self.0)) }
    fn default(&self) -> Box<dyn Inst> { Box::new(Ob(T::default(), self.0)) }
    fn ctors(&self, rt: &Runtime) -> Vec<Box<dyn Inst>> {
        T::ctors(rt).into_iter().map(|x| Box::new(Ob(x, self.0)) as Box<dyn Inst>).collect()
    }
    fn with_runtime(&self, _: Runtime) -> Box<dyn Inst> { panic!("harness: not a state") }
    fn assemble(&self, _: &Val, _: Runtime) -> Box<dyn Inst> { panic!("harness: not a state") }
    fn deserialize(&self, r: &mut Reader<&mut dyn io::Read>) -> io::Result<Box<dyn Inst>> {
        Ok(Box::new(Ob(<T as Deserialize>::deserialize(r)?, self.0)))
    }
    fn deserialize_nested(&self, wt: WireType, r: &mut Reader<&mut dyn io::Read>) -> io::Result<Box<dyn Inst>> {
        Ok(Box::new(Ob(T::deserialize_nested(wt, r)?, self.0)))
    }
}

impl<T: Bind + State> Target for TS<T> {
    fn name(&self) -> String { short(std::any::type_name::<T>()) }
    fn ty(&self) -> Ty { T::ty() }
    fn is_state(&self) -> bool { true }
    fn build(&self, v: &Val) -> Box<dyn Inst> { Box::new(Os(T::build(v), self.0)) }
    fn default(&self) -> Box<dyn Inst> { Box::new(Os(T::default(), self.0)) }
    fn ctors(&self, rt: &Runtime) -> Vec<Box<dyn Inst>> {
        T::ctors(rt).into_iter().map(|x| Box::new(Os(x, self.0)) as Box<dyn Inst>).collect()
    }
    fn with_runtime(&self, rt: Runtime) -> Box<dyn Inst> { Box::new(Os(T::with_runtime(rt), self.0)) }
    fn assemble(&self, v: &Val, rt: Runtime) -> Box<dyn Inst> { Box::new(Os(T::assemble(v, rt), self.0)) }
    fn deserialize(&self, r: &mut Reader<&mut dyn io::Read>) -> io::Result<Box<dyn Inst>> {
        Ok(Box::new(Os(<T as Deserialize>::deserialize(r)?, self.0)))
    }
    fn deserialize_nested(&self, wt: WireType, r: &mut Reader<&mut dyn io::Read>) -> io::Result<Box<dyn Inst>> {
        Ok(Box::new(Os(T::deserialize_nested(wt, r)?, self.0)))
    }
}

/// A non-state target.
pub fn plain<T: Bind>() -> Box<dyn Target> {
    Box::new(TB::<T>(None))
}

/// A state target.
pub fn state<T: Bind + State>() -> Box<dyn Target> {
    Box::new(TS::<T>(None))
}

/// A non-state target that can be hashed.
pub fn plain_h<T: Bind + Hash>() -> Box<dyn Target> {
    Box::new(TB::<T>(Some(hash_of::<T>)))
}

/// A state target that can be hashed.
pub fn state_h<T: Bind + State + Hash>() -> Box<dyn Target> {
    Box::new(TS::<T>(Some(hash_of::<T>)))
}

/// Metadata of a type, and code generation from it.
#[derive(Clone)]
pub struct Meta {
    pub src: &'static str,
    pub ty: fn() -> Ty,
    pub name: &'static NameMeta,
    pub r#type: &'static TypeMeta,
    pub link: &'static MetaLink,
    pub wire_type: WireType,
    pub generate: fn(&Setting<CSharpSetting>) -> io::Result<Vec<String>>,
}

impl Meta {
    pub fn of<T: Bind + HasMeta>(src: &'static str) -> Self {
        Meta {
            src,
            ty: T::ty,
            name: T::NAME,
            r#type: T::TYPE,
            link: T::LINK,
            wire_type: T::WIRE_TYPE,
            generate: |setting| CSharpGenerator.generate::<T>(setting),
        }
    }
}

/// A type whose values threads may share.
#[derive(Clone, Copy)]
pub struct Shared {
    pub name: fn() -> String,
    pub ty: fn() -> Ty,
    /// Serializes one value from several threads at once; returns what each got.
    pub serialize: fn(&Val, usize, usize) -> Vec<Vec<u8>>,
}

impl Shared {
    pub fn of<T: Bind + Sync>() -> Self {
        Shared {
            name: || short(std::any::type_name::<T>()),
            ty: T::ty,
            serialize: |v, threads, rounds| {
                let x = T::build(v);
                let barrier = std::sync::Barrier::new(threads);
                std::thread::scope(|s| {
                    let hs: Vec<_> = (0..threads)
                        .map(|i| {
                            let (x, barrier) = (&x, &barrier);
                            s.spawn(move || {
                                barrier.wait();
                                let mut out = Vec::new();
                                for k in 0..rounds {
                                    let mut b = Vec::new();
                                    match (i + k) % 3 {
                                        0 => b = x.to_bytes(),
                                        1 => x.steit_serialize(&mut b).unwrap(),
                                        _ => {
                                            x.cache_size();
                                            x.serialize_cached(&mut b).unwrap();
                                        }
                                    }
                                    out.push(b);
                                }
                                out
                            })
                        })
                        .collect();
                    hs.into_iter().flat_map(|h| h.join().expect("a serializing thread panicked")).collect()
                })
            },
        }
    }
}
