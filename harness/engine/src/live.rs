//! A state under observation: the implementation next to the model, with a logger in between.

use std::{
    io,
    sync::{Arc, Mutex},
};

use steit::{
    de::Reader,
    log::{loggers::BufferLogger, LogEntry, Logger},
    rt::Runtime,
};

use crate::{
    inst::{Inst, Target},
    model::{apply, same_entry, Entry, Op, Res, Step},
    val::{Ty, Val},
};

pub fn entry_of(e: &LogEntry) -> Entry {
    match e {
        LogEntry::Update { path, value, .. } => Entry::Update(path.clone(), value.clone().into_raw()),
        LogEntry::ListPush { path, item, .. } => Entry::Push(path.clone(), item.clone().into_raw()),
        LogEntry::ListPop { path, .. } => Entry::Pop(path.clone()),
        LogEntry::MapRemove { path, key, .. } => Entry::Remove(path.clone(), *key),
    }
}

#[derive(Default)]
pub struct TapLog {
    pub entries: Vec<Entry>,
    pub buffer: BufferLogger,
}

/// Records entries both as model entries and through the library's own buffer logger.
#[derive(Clone, Default)]
pub struct Tap(pub Arc<Mutex<TapLog>>);

impl Tap {
    pub fn len(&self) -> usize {
        self.0.lock().unwrap().entries.len()
    }
    pub fn since(&self, n: usize) -> Vec<Entry> {
        self.0.lock().unwrap().entries[n..].to_vec()
    }
    pub fn runtime(&self) -> Runtime {
        Runtime::with_logger(self.clone())
    }
    /// The framed bytes of the entries logged since the last call.
    pub fn pluck_bytes(&self) -> Vec<u8> {
        self.0.lock().unwrap().buffer.pluck_bytes()
    }
}

impl Logger for Tap {
    fn log(&mut self, entry: LogEntry) -> io::Result<()> {
        let mut t = self.0.lock().unwrap();
        t.entries.push(entry_of(&entry));
        t.buffer.log(entry)
    }
}

pub fn new_tap() -> (Tap, Runtime) {
    let tap = Tap::default();
    let rt = tap.runtime();
    (tap, rt)
}

pub fn at(rt: &Runtime, path: &[u32]) -> Runtime {
    path.iter().fold(rt.clone(), |rt, n| rt.nested(*n))
}

pub struct Live {
    pub ty: Ty,
    pub x: Box<dyn Inst>,
    pub model: Val,
    pub tap: Tap,
    pub rt: Runtime,
    pub base: Vec<u32>,
}

impl Live {
    /// A state with value `v` attached at `base` of a fresh logger.
    pub fn new(t: &dyn Target, v: &Val, base: &[u32]) -> Live {
        let (tap, rt) = new_tap();
        let mut x = t.build(v);
        x.set_runtime(at(&rt, base));
        Live { ty: t.ty(), x, model: v.clone(), tap, rt, base: base.to_vec() }
    }

    pub fn view(&self) -> Val {
        self.x.view()
    }

    /// Applies the operation to both sides without comparing anything.
    pub fn apply(&mut self, path: &[Step], op: &Op) -> (Res, Res, Vec<Entry>) {
        let mut want = Vec::new();
        let want_res = apply(&self.ty, &mut self.model, path, op, &mut self.base.clone(), &mut want);
        let res = self.x.apply(path, op);
        (want_res, res, want)
    }

    /// The contents must be those of the model.
    pub fn same(&self, what: &str) -> Result<(), String> {
        same_val(&self.model, &self.x.view(), what)
    }

    /// Applies an operation and compares result, contents and log entries.
    pub fn step(&mut self, path: &[Step], op: &Op) -> Result<(), String> {
        let before = self.model.clone();
        let mark = self.tap.len();
        let (want_res, res, want) = self.apply(path, op);
        let got = self.tap.since(mark);
        let what = format!("{:?} at {:?}", op, path);
        if res.canon() != want_res.canon() {
            return Err(format!("{}: returned {:?}, expected {:?}", what, res, want_res));
        }
        self.same(&what)?;
        self.same_entries(&before, &want, &got, &what)
    }

    pub fn same_entries(&self, before: &Val, want: &[Entry], got: &[Entry], what: &str) -> Result<(), String> {
        let n = self.base.len();
        let rel = |e: &Entry| {
            let cut = |p: &Vec<u32>| if p.starts_with(&self.base) { Some(p[n..].to_vec()) } else { None };
            match e {
                Entry::Update(p, b) => cut(p).map(|p| Entry::Update(p, b.clone())),
                Entry::Push(p, b) => cut(p).map(|p| Entry::Push(p, b.clone())),
                Entry::Pop(p) => cut(p).map(Entry::Pop),
                Entry::Remove(p, k) => cut(p).map(|p| Entry::Remove(p, *k)),
            }
        };
        let same = want.len() == got.len()
            && want.iter().zip(got).all(|(w, g)| match (rel(w), rel(g)) {
                (Some(w), Some(g)) => same_entry(&self.ty, before, &w, &g),
                _ => false,
            });
        if same {
            Ok(())
        } else {
            Err(format!("{}: logged {:?}, expected {:?}", what, got, want))
        }
    }

    /// Every node has the right path and logger.
    pub fn wired(&self, what: &str) -> Result<(), String> {
        wired(&*self.x, &self.rt, &self.base, &self.ty, what)
    }
}

pub fn same_val(want: &Val, got: &Val, what: &str) -> Result<(), String> {
    if want.canon() == got.canon() {
        Ok(())
    } else {
        Err(format!("{}: contents are {:?}, expected {:?}", what, got.canon(), want.canon()))
    }
}

pub fn wired(x: &dyn Inst, root: &Runtime, base: &[u32], ty: &Ty, what: &str) -> Result<(), String> {
    let mut bad = None;
    x.wiring_from(base, &mut |at, rt| {
        if bad.is_some() {
            return;
        }
        let path = rt.path().collect_values();
        if path != at {
            bad = Some(format!("{}: the {} node at {:?} reports the path {:?}", what, crate::val::show_ty(ty), at, path));
        } else if !Arc::ptr_eq(rt.logger(), root.logger()) {
            bad = Some(format!("{}: the {} node at {:?} does not share the logger of its root", what, crate::val::show_ty(ty), at));
        }
    });
    bad.map_or(Ok(()), Err)
}

pub fn with_reader<T>(r: &mut dyn io::Read, f: impl FnOnce(&mut Reader<&mut dyn io::Read>) -> T) -> T {
    f(&mut Reader::new(r))
}
