// Written by /verif/tools; do not edit.
#![allow(warnings)]
use engine::prelude::*;
use steit::{rt::Runtime, state::State, steit_derive, types::{Bytes, List, Map, Maybe}};
use std::collections::HashMap;
use super::*;

#[steit_derive(Clone, PartialEq, State, Debug)]
#[steit(size_cache_renamed = "the_cache", ctor_prefix = "make", csharp_name = "Relabelled2")]
pub enum RenamedE {
    #[steit(tag = 0, csharp_name = "Aleph")]
    Alpha {
        #[steit(tag = 0)]
        size_cache: u32,
        #[steit(tag = 1)]
        rt: Leaf,
},
    #[steit(tag = 5, no_size_cache)]
    BetaGamma(#[steit(tag = 0, csharp_name = "firstOne")] u8),
    #[steit(tag = 1, runtime_renamed = "rr", size_cache_renamed = "sc")]
    D {
        #[steit(tag = 0)]
        q: Shape,
},
}

impl Bind for RenamedE {
    fn ty() -> Ty { msg_ty::<Self>() }
    fn def() -> MsgDef {
        MsgDef { name: "RenamedE", csharp: Some("Relabelled2"), is_enum: true, is_state: true, builtin: false, no_meta: false, setters: true, params: vec![], vars: vec![
            VarDef { name: "Alpha", csharp: Some("Aleph"), tag: 0, fields: vec![
                FieldDef { name: "size_cache", csharp: None, tag: 0, ty: <u32 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u32" },
                FieldDef { name: "rt", csharp: None, tag: 1, ty: <Leaf as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Leaf" },
            ] },
            VarDef { name: "BetaGamma", csharp: None, tag: 5, fields: vec![
                FieldDef { name: "f0", csharp: Some("firstOne"), tag: 0, ty: <u8 as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "u8" },
            ] },
            VarDef { name: "D", csharp: None, tag: 1, fields: vec![
                FieldDef { name: "q", csharp: None, tag: 0, ty: <Shape as Bind>::ty(), no_state: false, no_eq: false, no_hash: false, src: "Shape" },
            ] },
        ] }
    }
    fn build(v: &Val) -> Self {
        let (vi, fs) = v.msg();
        match vi {
            0 => {
                let mut x = Self::make_alpha(Runtime::new());
                if let RenamedE::Alpha { size_cache: g0, rt: g1, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                    *g1 = Bind::build(&fs[1]);
                }
                x
            }
            1 => {
                let mut x = Self::make_beta_gamma(Runtime::new());
                if let RenamedE::BetaGamma { 0: g0, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                }
                x
            }
            2 => {
                let mut x = Self::make_d(Runtime::new());
                if let RenamedE::D { q: g0, .. } = &mut x {
                    *g0 = Bind::build(&fs[0]);
                }
                x
            }
            _ => panic!("harness: variant index {}", vi),
        }
    }
    fn ctors(rt: &Runtime) -> Vec<Self> { vec![Self::make(rt.clone()), Self::make_alpha(rt.clone()), Self::make_beta_gamma(rt.clone()), Self::make_d(rt.clone())] }
    fn view(&self) -> Val {
        match self {
            RenamedE::Alpha { size_cache: g0, rt: g1,  .. } => Val::Msg(0, vec![g0.view(), g1.view()]),
            RenamedE::BetaGamma { 0: g0,  .. } => Val::Msg(1, vec![g0.view()]),
            RenamedE::D { q: g0,  .. } => Val::Msg(2, vec![g0.view()]),
        }
    }
    fn apply(&mut self, path: &[Step], op: &Op) -> Res {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (RenamedE::Alpha { size_cache: g, .. }, Step::F(0, 0)) => return g.apply(rest, op),
                (RenamedE::Alpha { rt: g, .. }, Step::F(0, 1)) => return g.apply(rest, op),
                (RenamedE::BetaGamma { 0: g, .. }, Step::F(1, 0)) => return g.apply(rest, op),
                (RenamedE::D { q: g, .. }, Step::F(2, 0)) => return g.apply(rest, op),
                (_, s) => panic!("RenamedE is not in the expected variant for {:?}", s),
            }
        }
        let Op::Set { var, field, val, how } = op else { panic!("harness: {:?} on RenamedE", op) };
        let this = self as *mut Self;
        let ret: *mut Self = match (var, field) {
            (0, 0) => if is_with(how) { self.set_alpha_size_cache_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_alpha_size_cache(prep(val, how)) as *mut Self },
            (0, 1) => if is_with(how) { self.set_alpha_rt_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_alpha_rt(prep(val, how)) as *mut Self },
            (1, 0) => if is_with(how) { self.set_beta_gamma_f0_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_beta_gamma_f0(prep(val, how)) as *mut Self },
            (2, 0) => if is_with(how) { self.set_d_q_with(|rt| make(val, how, rt)) as *mut Self } else { self.set_d_q(prep(val, how)) as *mut Self },
            x => panic!("harness: no field {:?} in RenamedE", x),
        };
        assert!(this == ret, "a setter of RenamedE returned another object");
        Res::Unit
    }
    fn poke(&mut self, path: &[Step], val: &Val) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (RenamedE::Alpha { size_cache: g, .. }, Step::F(0, 0)) => return g.poke(rest, val),
                (RenamedE::Alpha { rt: g, .. }, Step::F(0, 1)) => return g.poke(rest, val),
                (RenamedE::BetaGamma { 0: g, .. }, Step::F(1, 0)) => return g.poke(rest, val),
                (RenamedE::D { q: g, .. }, Step::F(2, 0)) => return g.poke(rest, val),
                (_, s) => panic!("RenamedE is not in the expected variant for {:?}", s),
            }
        }
        *self = Self::build(val);
    }
    fn node(&mut self, path: &[Step], f: &mut dyn FnMut(&mut dyn Node)) {
        if let Some((step, rest)) = path.split_first() {
            match (&mut *self, step) {
                (RenamedE::Alpha { size_cache: g, .. }, Step::F(0, 0)) => return g.node(rest, f),
                (RenamedE::Alpha { rt: g, .. }, Step::F(0, 1)) => return g.node(rest, f),
                (RenamedE::BetaGamma { 0: g, .. }, Step::F(1, 0)) => return g.node(rest, f),
                (RenamedE::D { q: g, .. }, Step::F(2, 0)) => return g.node(rest, f),
                (_, s) => panic!("RenamedE is not in the expected variant for {:?}", s),
            }
        }
        f(&mut Nd(self))
    }
    fn wiring(&self, at: &mut Vec<u32>, visit: &mut dyn FnMut(&[u32], &Runtime)) {
        match self {
            RenamedE::Alpha { size_cache: g0, rt: g1,  .. } => {
                at.push(0);
                visit(at, State::runtime(self));
                at.push(0); g0.wiring(at, visit); at.pop();
                at.push(1); g1.wiring(at, visit); at.pop();
                at.pop();
            }
            RenamedE::BetaGamma { 0: g0,  .. } => {
                at.push(5);
                visit(at, State::runtime(self));
                at.push(0); g0.wiring(at, visit); at.pop();
                at.pop();
            }
            RenamedE::D { q: g0,  .. } => {
                at.push(1);
                visit(at, State::runtime(self));
                at.push(0); g0.wiring(at, visit); at.pop();
                at.pop();
            }
        }
    }
}
