//! Binds Rust types of the library to schemas and model values.

use std::{
    collections::HashMap,
    hash::{Hash, Hasher},
    io,
};

use steit::{
    de::{Deserialize, Reader},
    rt::Runtime,
    ser::Serialize,
    state::State,
    types::{Bytes, List, Map, MapKey, Maybe},
};

use crate::{
    model::{How, Op, Res, Step},
    val::*,
};

pub trait Bind: Serialize + Deserialize + Clone + PartialEq + Sized + 'static {
    fn ty() -> Ty;
    fn def() -> MsgDef {
        panic!("harness: not a message")
    }
    fn build(v: &Val) -> Self;
    /// Builds a value wired to a runtime, by the constructors that take both where a type has some.
    fn assemble(v: &Val, rt: Runtime) -> Self
    where
        Self: State,
    {
        let mut x = Self::build(v);
        x.set_runtime(rt);
        x
    }
    fn view(&self) -> Val;
    /// The default constructor, then the constructor of every variant.
    fn ctors(_rt: &Runtime) -> Vec<Self> {
        vec![]
    }
    /// Applies an operation through the public mutation API.
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        panic!("harness: cannot apply {:?} at {:?}", op, path)
    }
    /// Visits the runtime of this node and of every node below, with the path it should have.
    fn wiring(&self, _at: &mut Vec<u32>, _visit: &mut dyn FnMut(&[u32], &Runtime)) {}
    /// Overwrites a position with a value without going through a setter.
    fn poke(&mut self, path: &[Step], val: &Val) {
        assert!(path.is_empty(), "harness: cannot poke at {:?}", path);
        *self = Self::build(val);
    }
    /// Hands the state at a position to `f`.
    fn node(&mut self, path: &[Step], _f: &mut dyn FnMut(&mut dyn Node)) {
        panic!("harness: no state at {:?}", path)
    }
}

type DynReader<'a, 'b> = Reader<&'a mut (dyn io::Read + 'b)>;

/// A state of any type.
pub trait Node {
    fn is_root(&self) -> bool;
    fn is_child(&self) -> bool;
    fn runtime(&self) -> Runtime;
    fn set_runtime(&mut self, rt: Runtime);
    fn replay(&mut self, r: &mut DynReader) -> io::Result<()>;
    fn handle_update(&mut self, r: &mut DynReader) -> io::Result<()>;
    fn merge(&mut self, r: &mut DynReader) -> io::Result<()>;
    fn view(&self) -> Val;
}

/// The handle `Bind::node` gives out.
pub struct Nd<'a, T>(pub &'a mut T);

impl<T: Bind + State> Node for Nd<'_, T> {
    fn is_root(&self) -> bool { State::is_root(self.0) }
    fn is_child(&self) -> bool { State::is_child(self.0) }
    fn runtime(&self) -> Runtime { State::runtime(self.0).clone() }
    fn set_runtime(&mut self, rt: Runtime) { State::set_runtime(self.0, rt) }
    fn replay(&mut self, r: &mut DynReader) -> io::Result<()> { State::replay(self.0, r) }
    fn handle_update(&mut self, r: &mut DynReader) -> io::Result<()> { State::handle_update(self.0, r) }
    fn merge(&mut self, r: &mut DynReader) -> io::Result<()> { Deserialize::merge(self.0, r) }
    fn view(&self) -> Val { Bind::view(self.0) }
}

pub fn hash_of<T: Hash>(x: &T) -> Option<u64> {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    Some(h.finish())
}

/// Builds the value an operation stores, wired as `how` says.
pub fn prep<T: Bind + State>(val: &Val, how: &How) -> T {
    let mut x = T::build(val);
    if let How::Foreign(rt) = how {
        x.set_runtime(rt.clone());
    }
    x
}

thread_local! {
    /// The runtimes *_with closures were given.
    pub static WITH: std::cell::RefCell<Vec<Runtime>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// The body of a *_with closure.
pub fn make<T: Bind + State>(val: &Val, how: &How, rt: Runtime) -> T {
    WITH.with(|w| w.borrow_mut().push(rt.clone()));
    match how {
        How::WithOps(ops) => {
            let mut x = T::with_runtime(rt);
            for (p, o) in ops {
                x.apply(p, o);
            }
            x
        }
        _ => T::assemble(val, rt),
    }
}

pub fn is_with(how: &How) -> bool {
    matches!(how, How::With | How::WithOps(_))
}

macro_rules! bind_uint {
    ($($t:ident $n:literal),*) => {$(
        impl Bind for $t {
            fn ty() -> Ty { Ty::U($n) }
            fn build(v: &Val) -> Self {
                match v { Val::U(x) => *x as $t, v => panic!("harness: {:?}", v) }
            }
            fn view(&self) -> Val { Val::U(*self as u64) }
        }
    )*};
}
macro_rules! bind_int {
    ($($t:ident $n:literal),*) => {$(
        impl Bind for $t {
            fn ty() -> Ty { Ty::I($n) }
            fn build(v: &Val) -> Self {
                match v { Val::I(x) => *x as $t, v => panic!("harness: {:?}", v) }
            }
            fn view(&self) -> Val { Val::I(*self as i64) }
        }
    )*};
}
bind_uint!(u8 8, u16 16, u32 32, u64 64);
bind_int!(i8 8, i16 16, i32 32, i64 64);

impl Bind for bool {
    fn ty() -> Ty { Ty::Bool }
    fn build(v: &Val) -> Self {
        match v { Val::Bool(x) => *x, v => panic!("harness: {:?}", v) }
    }
    fn view(&self) -> Val { Val::Bool(*self) }
}

impl Bind for String {
    fn ty() -> Ty { Ty::Str }
    fn build(v: &Val) -> Self {
        match v { Val::Str(x) => x.clone(), v => panic!("harness: {:?}", v) }
    }
    fn view(&self) -> Val { Val::Str(self.clone()) }
}

impl Bind for Bytes {
    fn ty() -> Ty { Ty::Bytes }
    fn build(v: &Val) -> Self {
        match v { Val::Bytes(x) => Bytes::from_raw(x.clone()), v => panic!("harness: {:?}", v) }
    }
    fn view(&self) -> Val { Val::Bytes(self.clone().into_raw()) }
}

impl<T: Bind> Bind for Option<T> {
    fn ty() -> Ty { Ty::Opt(Box::new(T::ty())) }
    fn build(v: &Val) -> Self {
        match v { Val::Opt(x) => x.as_ref().map(|x| T::build(x)), v => panic!("harness: {:?}", v) }
    }
    fn view(&self) -> Val { Val::Opt(self.as_ref().map(|x| Box::new(x.view()))) }
}

impl<T: Bind> Bind for Vec<T> {
    fn ty() -> Ty { Ty::Vec(Box::new(T::ty())) }
    fn build(v: &Val) -> Self { v.seq().iter().map(T::build).collect() }
    fn view(&self) -> Val { Val::Seq(self.iter().map(T::view).collect()) }
}

macro_rules! bind_array {
    ($($n:literal)*) => {$(
        impl<T: Bind + Default> Bind for [T; $n] {
            fn ty() -> Ty { Ty::Arr($n, Box::new(T::ty())) }
            fn build(v: &Val) -> Self {
                let v = v.seq();
                std::array::from_fn(|i| T::build(&v[i]))
            }
            fn view(&self) -> Val { Val::Seq(self.iter().map(T::view).collect()) }
        }
    )*};
}
bind_array!(1 2 3 4 5 6 7);

macro_rules! bind_tuple {
    ($($t:ident $i:tt),+) => {
        impl<$($t: Bind),+> Bind for ($($t),+) {
            fn ty() -> Ty { Ty::Tup(vec![$($t::ty()),+]) }
            fn build(v: &Val) -> Self { let v = v.seq(); ($($t::build(&v[$i])),+) }
            fn view(&self) -> Val { Val::Seq(vec![$(self.$i.view()),+]) }
        }
    };
}
bind_tuple!(A 0, B 1);
bind_tuple!(A 0, B 1, C 2);
bind_tuple!(A 0, B 1, C 2, D 3);
bind_tuple!(A 0, B 1, C 2, D 3, E 4);
bind_tuple!(A 0, B 1, C 2, D 3, E 4, F 5);
bind_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);

impl<K: Bind + Eq + Hash, V: Bind> Bind for HashMap<K, V> {
    fn ty() -> Ty { Ty::HMap(Box::new(K::ty()), Box::new(V::ty())) }
    fn build(v: &Val) -> Self {
        match v {
            Val::HMap(xs) => xs.iter().map(|(k, x)| (K::build(k), V::build(x))).collect(),
            v => panic!("harness: {:?}", v),
        }
    }
    fn view(&self) -> Val {
        let mut xs: Vec<_> = self.iter().map(|(k, x)| (k.view(), x.view())).collect();
        xs.sort();
        Val::HMap(xs)
    }
}

impl<T: Bind> Bind for Box<T> {
    fn ty() -> Ty { Ty::Boxed(Box::new(T::ty())) }
    fn build(v: &Val) -> Self { Box::new(T::build(v)) }
    fn view(&self) -> Val { (**self).view() }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res { (**self).apply(path, op) }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        (**self).wiring(at, visit)
    }
    fn poke(&mut self, path: &[Step], val: &Val) { (**self).poke(path, val) }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) { (**self).node(path, f) }
}

impl<T: Bind + State> Bind for List<T> {
    fn ty() -> Ty { Ty::List(Box::new(T::ty())) }
    fn build(v: &Val) -> Self { v.seq().iter().map(T::build).collect() }
    fn assemble(v: &Val, rt: Runtime) -> Self { List::from_iter(rt, v.seq().iter().map(T::build)) }
    fn view(&self) -> Val { Val::Seq(self.iter().map(T::view).collect()) }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            let Step::I(i, via) = step else { panic!("harness: step {:?}", step) };
            let item = match via % 3 {
                0 => self.get_mut(*i).expect("List::get_mut lost an item"),
                1 => &mut self[*i],
                _ => self.iter_mut().nth(*i).expect("List::iter_mut lost an item"),
            };
            return item.apply(rest, op);
        }
        match op {
            Op::Push { val, how } => Res::Index(if is_with(how) {
                self.push_with(|rt| make(val, how, rt))
            } else {
                self.push(prep(val, how))
            }),
            Op::Pop => Res::Removed(self.pop().map(|x| x.view())),
            Op::SwapRemove(i) => Res::Removed(self.swap_remove(*i).map(|x| x.view())),
            op => panic!("harness: {:?} on a list", op),
        }
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        visit(at, self.runtime());
        for (i, x) in self.iter().enumerate() {
            at.push(i as u32);
            x.wiring(at, visit);
            at.pop();
        }
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        match path.split_first() {
            Some((Step::I(i, _), rest)) => self.get_mut(*i).expect("List::get_mut").poke(rest, val),
            _ => *self = Self::build(val),
        }
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        match path.split_first() {
            Some((Step::I(i, _), rest)) => self.get_mut(*i).expect("List::get_mut").node(rest, f),
            _ => f(&mut Nd(self)),
        }
    }
}

/// A map key with a few valid field numbers.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Port(u32);

impl MapKey for Port {
    fn try_from_field_number(x: u32) -> std::io::Result<Self> {
        if PORTS.contains(&x) {
            Ok(Port(x))
        } else {
            Err(std::io::Error::new(std::io::ErrorKind::InvalidData, "not a port"))
        }
    }
    fn as_field_number(&self) -> u32 { self.0 }
}

impl KeyBind for Port {
    const BITS: u32 = KEY_PORT;
    fn from_u32(x: u32) -> Self { Port::try_from_field_number(x).expect("harness: not a port") }
    fn to_u32(&self) -> u32 { self.0 }
}

pub trait KeyBind: MapKey + Eq + Hash + 'static {
    const BITS: u32;
    fn from_u32(x: u32) -> Self;
    fn to_u32(&self) -> u32;
}
macro_rules! bind_key {
    ($($t:ident)*) => {$(
        impl KeyBind for $t {
            const BITS: u32 = $t::BITS;
            fn from_u32(x: u32) -> Self { x as $t }
            fn to_u32(&self) -> u32 { *self as u32 }
        }
    )*};
}
bind_key!(u8 u16 u32);

impl<K: KeyBind, V: Bind + State> Bind for Map<K, V>
where
    Map<K, V>: Clone,
{
    fn ty() -> Ty { Ty::Map(K::BITS, Box::new(V::ty())) }
    fn build(v: &Val) -> Self {
        v.map().iter().map(|(k, x)| (K::from_u32(*k), V::build(x))).collect()
    }
    fn assemble(v: &Val, rt: Runtime) -> Self {
        Map::from_iter(rt, v.map().iter().map(|(k, x)| (K::from_u32(*k), V::build(x))))
    }
    fn view(&self) -> Val {
        Val::Map(self.iter().map(|(k, x)| (k.to_u32(), x.view())).collect())
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            let Step::K(k, via) = step else { panic!("harness: step {:?}", step) };
            let key = K::from_u32(*k);
            let item = match via % 3 {
                0 => self.get_mut(&key).expect("Map::get_mut lost an entry"),
                1 => &mut self[&key],
                _ => self.iter_mut().find(|(x, _)| *x == key).expect("Map::iter_mut lost an entry").1,
            };
            return item.apply(rest, op);
        }
        match op {
            Op::Insert { key, val, how } => {
                let key = K::from_u32(*key);
                Res::Removed(
                    if is_with(how) {
                        self.insert_with(key, |rt| make(val, how, rt))
                    } else {
                        self.insert(key, prep(val, how))
                    }
                    .map(|x| x.view()),
                )
            }
            Op::Remove(k) => Res::Removed(self.remove(&K::from_u32(*k)).map(|x| x.view())),
            op => panic!("harness: {:?} on a map", op),
        }
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        visit(at, self.runtime());
        for (k, x) in self.iter() {
            at.push(k.to_u32());
            x.wiring(at, visit);
            at.pop();
        }
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        match path.split_first() {
            Some((Step::K(k, _), rest)) => {
                self.get_mut(&K::from_u32(*k)).expect("Map::get_mut").poke(rest, val)
            }
            _ => *self = Self::build(val),
        }
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        match path.split_first() {
            Some((Step::K(k, _), rest)) => {
                self.get_mut(&K::from_u32(*k)).expect("Map::get_mut").node(rest, f)
            }
            _ => f(&mut Nd(self)),
        }
    }
}

impl<T: Bind + State> Bind for Maybe<T> {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef {
            name: "Maybe",
            csharp: None,
            is_enum: true,
            is_state: true,
            builtin: true,
            no_meta: false,
            setters: true,
            params: vec!["T"],
            vars: vec![
                VarDef { name: "None", csharp: None, tag: 0, fields: vec![] },
                VarDef {
                    name: "Some",
                    csharp: None,
                    tag: 1,
                    fields: vec![FieldDef {
                        name: "value",
                        csharp: None,
                        tag: 0,
                        ty: T::ty(),
                        no_state: false,
                        no_eq: false,
                        no_hash: false,
                        src: "T",
                    }],
                },
            ],
        }
    }
    fn build(v: &Val) -> Self {
        match v.msg() {
            (0, _) => Maybe::new_none(Runtime::new()),
            (_, f) => {
                let mut x = Maybe::new_some(Runtime::new());
                if let Maybe::Some { value, .. } = &mut x {
                    *value = T::build(&f[0]);
                }
                x
            }
        }
    }
    fn assemble(v: &Val, rt: Runtime) -> Self {
        // an item of a list may be wired as a sibling was: both ways occur
        let direct = rt.path().collect_values().iter().fold(0u32, |a, x| a.wrapping_add(*x)) % 2 == 0;
        match v.msg() {
            (0, _) if direct => Maybe::none(rt),
            (0, _) => Maybe::from_option(rt, None),
            (_, f) if direct => Maybe::some(rt, T::build(&f[0])),
            (_, f) => Maybe::from_option(rt, Some(T::build(&f[0]))),
        }
    }
    fn ctors(rt: &Runtime) -> Vec<Self> {
        vec![Self::new(rt.clone()), Self::new_none(rt.clone()), Self::new_some(rt.clone())]
    }
    fn view(&self) -> Val {
        match self {
            Maybe::None { .. } => Val::Msg(0, vec![]),
            Maybe::Some { value, .. } => Val::Msg(1, vec![value.view()]),
        }
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((_, rest)) = path.split_first() {
            match self {
                Maybe::Some { value, .. } => return value.apply(rest, op),
                _ => panic!("Maybe lost its value"),
            }
        }
        match op {
            Op::Set { val, how, .. } => {
                if is_with(how) {
                    self.set_some_value_with(|rt| make(val, how, rt));
                } else {
                    self.set_some_value(prep(val, how));
                }
                Res::Unit
            }
            op => panic!("harness: {:?} on Maybe", op),
        }
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        at.push(self.is_some() as u32);
        visit(at, self.runtime());
        if let Maybe::Some { value, .. } = self {
            at.push(0);
            value.wiring(at, visit);
            at.pop();
        }
        at.pop();
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        match (path.split_first(), self) {
            (Some((_, rest)), Maybe::Some { value, .. }) => value.poke(rest, val),
            (_, x) => *x = Self::build(val),
        }
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        match (path.split_first(), self) {
            (Some((_, rest)), Maybe::Some { value, .. }) => value.node(rest, f),
            (_, x) => f(&mut Nd(x)),
        }
    }
}
