//! What a case gets to work with.

use engine::{
    inst::{Lent, Meta, Shared, Target},
    src::Src,
    val::Ty,
};

pub struct Env {
    pub targets: Vec<Box<dyn Target>>,
    pub metas: Vec<Meta>,
    pub shared: Vec<Shared>,
    pub lent: Vec<Lent>,
    pub states: Vec<usize>,
    pub plains: Vec<usize>,
    /// messages: derived types, structs and enums
    pub msgs: Vec<usize>,
}

impl Env {
    pub fn new(targets: Vec<Box<dyn Target>>, metas: Vec<Meta>, shared: Vec<Shared>, lent: Vec<Lent>) -> &'static Env {
        // resolve every definition up front
        for t in &targets {
            let mut seen = vec![];
            engine::val::walk_ty(&t.ty(), &mut seen, &mut |_| ());
        }
        for m in &metas {
            (m.ty)();
        }
        for x in &shared {
            (x.ty)();
        }
        for x in &lent {
            let mut seen = vec![];
            engine::val::walk_ty(&(x.ty)(), &mut seen, &mut |_| ());
        }
        let states = (0..targets.len()).filter(|i| targets[*i].is_state()).collect();
        let plains = (0..targets.len()).filter(|i| !targets[*i].is_state()).collect();
        let msgs = (0..targets.len()).filter(|i| matches!(targets[*i].ty(), Ty::Msg(_))).collect();
        Box::leak(Box::new(Env { targets, metas, shared, lent, states, plains, msgs }))
    }
}

pub type Out = Result<(), String>;

pub struct Cx {
    pub s: Src,
    pub env: &'static Env,
    pub verbose: bool,
    pub notes: Vec<String>,
    pub labels: Vec<String>,
    pub nontrivial: bool,
    /// deviations that a known-findings entry may cover: (signature, what fails)
    pub findings: Vec<(String, String)>,
    pub index: u64,
}

impl Cx {
    pub fn new(s: Src, env: &'static Env, verbose: bool) -> Self {
        Cx { s, env, verbose, notes: vec![], labels: vec![], nontrivial: false, findings: vec![], index: 0 }
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let mut t = f();
            if t.len() > 700 {
                let mut n = 700;
                while !t.is_char_boundary(n) {
                    n -= 1;
                }
                t.truncate(n);
                t.push('…');
            }
            self.notes.push(t);
        }
    }

    pub fn label(&mut self, l: &str) {
        if !self.labels.iter().any(|x| x == l) {
            self.labels.push(l.to_string());
        }
    }

    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l)
        }
    }

    /// Any type.
    pub fn target(&mut self) -> &'static dyn Target {
        let env = self.env;
        let i = if !env.plains.is_empty() && (env.states.is_empty() || self.s.bool()) {
            *self.s.pick(&env.plains)
        } else {
            *self.s.pick(&env.states)
        };
        let t = &*env.targets[i];
        self.note(|| format!("type {}", t.name()));
        t
    }

    pub fn state(&mut self) -> &'static dyn Target {
        let env = self.env;
        let t = &*env.targets[*self.s.pick(&env.states)];
        self.note(|| format!("type {}", t.name()));
        t
    }

    pub fn msg(&mut self) -> &'static dyn Target {
        let env = self.env;
        let t = &*env.targets[*self.s.pick(&env.msgs)];
        self.note(|| format!("type {}", t.name()));
        t
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($f:tt)*) => {
        if !$c {
            return Err(format!($($f)*));
        }
    };
}

pub type Scenario = (u64, &'static str, fn(&mut Cx) -> Out);

pub struct Check {
    pub id: &'static str,
    /// cases of the quick and the thorough tier
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub scenarios: &'static [Scenario],
}

impl Check {
    pub fn case(&self, cx: &mut Cx) -> Out {
        let ws: Vec<u64> = self.scenarios.iter().map(|x| x.0).collect();
        let i = cx.s.weighted(&ws);
        let (_, name, f) = self.scenarios[i];
        cx.label(name);
        cx.note(|| format!("scenario {}", name));
        f(cx)
    }
}
