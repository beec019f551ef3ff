//! C19: loggers. C28: threads.

use std::{
    io::{self, Write},
    sync::{Arc, Barrier, Mutex},
};

use engine::{
    bind::Bind,
    inst::Target,
    io::{Plan, Sink},
    live::{at, entry_of, new_tap, same_val, Live, Tap},
    model::*,
    ops::{gen_op, Kit},
    src::Src,
    val::*,
};
use steit::{
    de::{Deserialize, Reader},
    log::{
        loggers::{BufferLogger, NoopLogger, WriterLogger},
        LogEntry, LogEntryKind, Logger,
    },
    rt::Runtime,
    ser::Serialize,
    state::State,
    types::{List, Map, Maybe},
    wire_fmt::WireType,
};

use super::log::{lib_entry, log_call, replay};
use crate::{
    cx::{Check, Cx, Out},
    item::Item,
};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C19",
            quick: 1_000_000,
            thorough: 12_000_000,
            rule: "A case draws log entries (long paths, large keys and payloads) and a sequence of log, log_multi, bytes, clear, pluck and pluck_bytes calls on a logger, bare, boxed or behind runtimes and states; or a writer that chunks, interrupts or fails. Outcomes are compared with a list of entries. Non-trivial: an entry of 128 bytes or more, or four logged entries with a clear or pluck, or a write error.",
            scenarios: &[(3, "entry", c19_entry), (4, "buffer", c19_buffer), (3, "writer", c19_writer), (1, "noop", c19_noop), (1, "failing", c19_failing)],
        },
        Check {
            id: "C28",
            quick: 40_000,
            thorough: 700_000,
            rule: "A case starts two to eight threads that mutate states at different places of one logger by random operations, or that serialize one value; the logger dawdles at random. Non-trivial: entries of different threads alternate in the log at least twice, or several threads serialized a value of three or more nodes.",
            scenarios: &[(4, "any type", c28_any), (3, "one root", c28_root), (2, "plucked meanwhile", c28_drain), (2, "serialize", c28_ser)],
        },
    ]
}

// ---------------------------------------------------------------- C19

fn long_entry(cx: &mut Cx) -> Entry {
    let n = match cx.s.weighted(&[120, 200, 80, 1]) {
        0 => 0,
        1 => cx.s.idx(6),
        2 => cx.s.idx(60),
        _ => cx.s.idx(6000),
    };
    let path: Vec<u32> = (0..n).map(|_| if cx.s.bool() { gen_key(&mut cx.s, 32) } else { gen_u(&mut cx.s, 32) as u32 }).collect();
    let e = match cx.s.idx(4) {
        0 => Entry::Update(path, gen_bytes(&mut cx.s)),
        1 => Entry::Push(path, gen_bytes(&mut cx.s)),
        2 => Entry::Pop(path),
        _ => Entry::Remove(path, gen_u(&mut cx.s, 32) as u32),
    };
    cx.nontrivial |= e.encode().len() >= 128;
    e
}

fn kind_of(e: &Entry) -> LogEntryKind {
    match e {
        Entry::Update(..) => LogEntryKind::Update,
        Entry::Push(..) => LogEntryKind::ListPush,
        Entry::Pop(..) => LogEntryKind::ListPop,
        Entry::Remove(..) => LogEntryKind::MapRemove,
    }
}

fn io_err<T>(r: io::Result<T>, what: &str) -> Result<T, String> {
    r.map_err(|e| format!("{} failed: {}", what, e))
}

fn c19_entry(cx: &mut Cx) -> Out {
    let e = long_entry(cx);
    cx.note(|| format!("{:?}", e));
    let l = lib_entry(&e);
    ensure!(l.kind() == kind_of(&e), "{:?} is of the kind {:?}", e, l.kind());
    let want = e.encode();
    // sizes in any order
    match cx.s.below(3) {
        0 => (),
        1 => {
            l.compute_size();
        }
        _ => {
            l.cache_size();
        }
    }
    ensure!(l.compute_size() as usize == want.len(), "{:?} claims the size {}, expected {}", e, l.compute_size(), want.len());
    let got = l.to_bytes();
    ensure!(got == want, "{:?} is written as {:?}, expected {:?}", e, got, want);
    let mut framed = vec![];
    l.cache_size();
    io_err(l.serialize_nested(None, false, &mut framed), "writing an entry")?;
    ensure!(framed == e.framed(), "{:?} is framed as {:?}, expected {:?}", e, framed, e.framed());
    let back = io_err(LogEntry::deserialize(&mut Reader::new(&want[..])), "parsing an entry")?;
    ensure!(entry_of(&back) == e, "{:?} parses as {:?}", e, entry_of(&back));
    ensure!(back.kind() == kind_of(&e), "{:?} parses as an entry of the kind {:?}", e, back.kind());
    let c = l.clone();
    ensure!(entry_of(&c) == e, "the clone of {:?} is {:?}", e, entry_of(&c));
    // several frames in a row
    let others: Vec<Entry> = (0..cx.s.idx(4)).map(|_| long_entry(cx)).collect();
    let mut all = framed;
    others.iter().for_each(|e| all.extend(e.framed()));
    let mut r = Reader::new(&all[..]);
    for e in std::iter::once(&e).chain(&others) {
        ensure!(!io_err(r.eof(), "eof")?, "a frame of {:?} is lost", e);
        let got = io_err(LogEntry::deserialize_nested(WireType::Sized, &mut r), "parsing a frame")?;
        ensure!(entry_of(&got) == *e, "the frame of {:?} parses as {:?}", e, entry_of(&got));
    }
    ensure!(io_err(r.eof(), "eof")?, "bytes are left after the last frame");
    // constructors
    let rt = at(&Runtime::with_logger(NoopLogger::new()), e.path());
    let made = match &e {
        Entry::Update(p, _) if !p.is_empty() && cx.s.bool() => {
            let b = varint(p[0] as u64);
            let (l, parent) = (p[p.len() - 1], &p[..p.len() - 1]);
            let m = at(&Runtime::with_logger(NoopLogger::new()), parent).entry_update_child(l, &p[0]);
            ensure!(entry_of(&m) == Entry::Update(p.clone(), b.clone()), "an update of {:?} with {:?} is made as {:?}", p, b, m);
            return Ok(());
        }
        Entry::Update(_, b) => rt.entry_update(b),
        Entry::Push(_, b) => rt.entry_list_push(b),
        Entry::Pop(_) => rt.entry_list_pop(),
        Entry::Remove(_, k) => rt.entry_map_remove(*k),
    };
    // a Vec<u8> is written as varints
    let vec = |b: &Vec<u8>| b.iter().flat_map(|x| varint(*x as u64)).collect::<Vec<u8>>();
    let want = match &e {
        Entry::Update(p, b) => Entry::Update(p.clone(), vec(b)),
        Entry::Push(p, b) => Entry::Push(p.clone(), vec(b)),
        e => e.clone(),
    };
    ensure!(entry_of(&made) == want, "a runtime makes the entry {:?}, expected {:?}", made, want);
    Ok(())
}

/// A logger under test and where its buffer can be read.
enum Buf {
    Bare(BufferLogger),
    Rt(Runtime, steit::rt::LoggerHandle<BufferLogger>),
}

impl Buf {
    fn with<T>(&mut self, f: impl FnOnce(&mut BufferLogger) -> T) -> T {
        match self {
            Buf::Bare(b) => f(b),
            Buf::Rt(_, h) => f(&mut *h.lock().unwrap()),
        }
    }
    fn log(&mut self, s: &mut Src, e: LogEntry) -> io::Result<()> {
        match self {
            Buf::Bare(b) => match s.below(2) {
                0 => b.log(e),
                _ => {
                    let mut boxed: Box<dyn Logger> = Box::new(std::mem::take(b));
                    // a boxed logger forwards
                    let r = boxed.log(e);
                    let raw = Box::into_raw(boxed) as *mut BufferLogger;
                    *b = *unsafe { Box::from_raw(raw) };
                    r
                }
            },
            Buf::Rt(rt, _) => match s.below(2) {
                0 => rt.log(e),
                _ => rt.nested(3).logger().lock().unwrap().log(e),
            },
        }
    }
    fn log_multi(&mut self, es: Vec<LogEntry>) -> io::Result<()> {
        match self {
            Buf::Bare(b) => b.log_multi(es),
            Buf::Rt(rt, _) => rt.nested(1).log_multi(es),
        }
    }
}

fn c19_buffer(cx: &mut Cx) -> Out {
    let mut buf = match cx.s.below(3) {
        0 => Buf::Bare(if cx.s.bool() { BufferLogger::new() } else { BufferLogger::default() }),
        _ => {
            let (rt, h) = Runtime::with_logger_returned(BufferLogger::new());
            Buf::Rt(rt, h)
        }
    };
    let mut want: Vec<Entry> = vec![];
    let mut state: Option<List<u32>> = None;
    let (mut logged, mut cleared) = (0, 0);
    let mut frames: Vec<u8> = vec![];
    for _ in 0..cx.s.count(2, 24) {
        match cx.s.weighted(&[6, 3, 3, 2, 2, 3, 3, 2]) {
            0 => {
                let e = long_entry(cx);
                cx.note(|| format!("log {:?}", e));
                io_err(buf.log(&mut cx.s, lib_entry(&e)), "logging")?;
                want.push(e);
                logged += 1;
            }
            1 => {
                let es: Vec<Entry> = match cx.s.chance(1, 400) {
                    // many at once
                    true => {
                        let k = *cx.s.pick(&[127, 128, 255, 256, 257, 1000, 5000]);
                        (0..k).map(|i| Entry::Remove(vec![i % 3], i)).collect()
                    }
                    _ => (0..cx.s.idx(5)).map(|_| long_entry(cx)).collect(),
                };
                cx.note(|| format!("log_multi {:?}", es));
                io_err(buf.log_multi(es.iter().map(lib_entry).collect()), "logging")?;
                logged += es.len();
                want.extend(es);
            }
            2 => cx.note(|| "bytes".into()),
            3 => {
                cx.note(|| "clear".into());
                buf.with(|b| b.clear());
                want.clear();
                frames.clear();
                cleared += 1;
            }
            4 => {
                let got: Vec<Entry> = buf.with(|b| b.pluck()).iter().map(entry_of).collect();
                cx.note(|| format!("pluck: {:?}", got));
                ensure!(got == want, "plucked {:?}, expected {:?}", got, want);
                want.clear();
                frames.clear();
                cleared += 1;
            }
            5 => {
                let got = buf.with(|b| b.pluck_bytes());
                cx.note(|| format!("pluck_bytes: {:?}", got));
                let w: Vec<u8> = want.iter().flat_map(|e| e.framed()).collect();
                ensure!(got == w, "plucked the bytes {:?}, expected {:?}", got, w);
                want.clear();
                frames.clear();
                cleared += 1;
            }
            6 => {
                if let Buf::Rt(rt, _) = &buf {
                    let rt = match cx.s.below(3) {
                        0 => rt.clone(),
                        1 => rt.nested(gen_key(&mut cx.s, 32)),
                        _ => rt.nested(1).nested(2).sibling(gen_key(&mut cx.s, 32)),
                    };
                    let es = log_call(cx, &rt)?;
                    cx.note(|| format!("by a runtime: {:?}", es));
                    logged += es.len();
                    want.extend(es);
                }
            }
            _ => {
                if let Buf::Rt(rt, _) = &buf {
                    let l = state.get_or_insert_with(|| List::new(rt.nested(9)));
                    let x = gen_u(&mut cx.s, 32) as u32;
                    let n = l.len();
                    match cx.s.below(3) {
                        0 if n > 1 => {
                            let last = l[n - 1];
                            l.swap_remove(0);
                            want.push(Entry::Pop(vec![9]));
                            want.push(Entry::Update(vec![9, 0], varint(last as u64)));
                        }
                        1 if n > 0 => {
                            l.pop();
                            want.push(Entry::Pop(vec![9]));
                        }
                        _ => {
                            l.push(x);
                            want.push(Entry::Push(vec![9], varint(x as u64)));
                        }
                    }
                    logged += 1;
                }
            }
        }
        let got = buf.with(|b| b.bytes());
        let done = frames.len();
        ensure!(got.len() >= done && got[..done] == frames[..], "the buffer's bytes no longer start with {:?}: {:?}", frames, got);
        frames = want.iter().flat_map(|e| e.framed()).collect();
        ensure!(got == frames, "the buffer's bytes are {:?}, expected {:?} of {:?}", got, frames, want);
    }
    cx.nontrivial |= logged >= 4 && cleared > 0;
    Ok(())
}

#[derive(Clone)]
struct SharedSink(Arc<Mutex<Sink>>);

impl Write for SharedSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.lock().unwrap().write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.0.lock().unwrap().flush()
    }
}

impl SharedSink {
    fn new(p: Plan) -> Self {
        SharedSink(Arc::new(Mutex::new(Sink::with_plan(p))))
    }
    fn data(&self) -> Vec<u8> {
        self.0.lock().unwrap().data.clone()
    }
    fn fired(&self) -> bool {
        self.0.lock().unwrap().fired
    }
}

/// What a writer logger writes for one entry.
fn written(e: &Entry) -> Result<Vec<u8>, String> {
    let s = SharedSink::new(Plan::default());
    let mut w = WriterLogger::new(s.clone());
    io_err(w.log(lib_entry(e)), "writing an entry")?;
    drop(w);
    let data = s.data();
    let text = String::from_utf8(data.clone()).map_err(|_| "a writer logger writes invalid UTF-8".to_string())?;
    let frame = format!("{:?}", e.framed());
    ensure!(text.contains(&frame), "a writer logger writes {:?} for {:?}, without its bytes {}", text, e, frame);
    Ok(data)
}

fn c19_writer(cx: &mut Cx) -> Out {
    let mut plan = Plan::gen(&mut cx.s);
    let fail = cx.s.chance(1, 2);
    let es: Vec<Entry> = (0..1 + cx.s.idx(6)).map(|_| { let mut e = long_entry(cx); short(&mut e); e }).collect();
    let mut each = vec![];
    for e in &es {
        each.push(written(e)?);
    }
    let total: usize = each.iter().map(|x| x.len()).sum();
    if fail {
        plan.fail_at = Some(cx.s.below(total as u64) as usize);
        plan.kind = cx.s.below(4) as u8;
        plan.once = cx.s.bool();
    }
    cx.note(|| format!("{:?} into {:?}", es, plan));
    let sink = SharedSink::new(plan);
    let writer = WriterLogger::new(sink.clone());
    enum W {
        Bare(WriterLogger),
        Boxed(Box<dyn Logger>),
        Rt(Runtime),
    }
    let mut w = match cx.s.below(4) {
        0 => W::Bare(writer),
        1 => W::Boxed(Box::new(writer)),
        2 => W::Rt(Runtime::with_logger(writer)),
        _ => W::Rt(Runtime::with_logger(Box::new(writer) as Box<dyn Logger>)),
    };
    let mut i = 0;
    let mut all: Vec<u8> = vec![];
    while i < es.len() {
        let n = if cx.s.chance(1, 3) { 1 + cx.s.idx(es.len() - i) } else { 1 };
        let group: Vec<LogEntry> = es[i..i + n].iter().map(lib_entry).collect();
        let single = n == 1 && cx.s.bool();
        let one = |mut g: Vec<LogEntry>| g.pop().unwrap();
        let res = match (&mut w, single) {
            (W::Bare(w), true) => w.log(one(group)),
            (W::Bare(w), false) => w.log_multi(group),
            (W::Boxed(w), true) => w.log(one(group)),
            (W::Boxed(w), false) => w.log_multi(group),
            (W::Rt(r), true) => r.log(one(group)),
            (W::Rt(r), false) => r.log_multi(group),
        };
        each[i..i + n].iter().for_each(|x| all.extend(x));
        let data = sink.data();
        if sink.fired() {
            cx.nontrivial = true;
            ensure!(res.is_err(), "logging succeeds although writing failed");
            ensure!(all.starts_with(&data), "wrote {:?}, expected the beginning of {:?}", String::from_utf8_lossy(&data), String::from_utf8_lossy(&all));
            break;
        }
        io_err(res, "logging to a writer")?;
        ensure!(data == all, "wrote {:?}, expected {:?}", String::from_utf8_lossy(&data), String::from_utf8_lossy(&all));
        i += n;
    }
    ensure!(!fail || sink.fired(), "fewer bytes were written than for each entry alone");
    Ok(())
}

/// Long payloads take long to print.
fn short(e: &mut Entry) {
    if let Entry::Update(_, b) | Entry::Push(_, b) = e {
        b.truncate(300);
    }
}

fn c19_noop(cx: &mut Cx) -> Out {
    let mut l = if cx.s.bool() { NoopLogger::new() } else { NoopLogger::default() };
    let mut boxed: Box<dyn Logger> = Box::new(NoopLogger::new());
    let rt = Runtime::with_logger(NoopLogger::new());
    for _ in 0..cx.s.count(1, 5) {
        let es: Vec<Entry> = (0..1 + cx.s.idx(4)).map(|_| long_entry(cx)).collect();
        cx.note(|| format!("{:?}", es));
        let m = || -> Vec<LogEntry> { es.iter().map(lib_entry).collect() };
        io_err(l.log(lib_entry(&es[0])), "a no-op logger")?;
        io_err(l.log_multi(m()), "a no-op logger")?;
        io_err(boxed.log(lib_entry(&es[0])), "a no-op logger")?;
        io_err(boxed.log_multi(m()), "a no-op logger")?;
        io_err(rt.log_multi(m()), "a no-op logger")?;
        log_call(cx, &rt)?;
    }
    cx.nontrivial = true;
    Ok(())
}

/// A logger of the application's own, which fails at some point.
struct Failing {
    seen: Arc<Mutex<Vec<Entry>>>,
    left: usize,
}

impl Logger for Failing {
    fn log(&mut self, e: LogEntry) -> io::Result<()> {
        if self.left == 0 {
            return Err(io::Error::new(io::ErrorKind::BrokenPipe, "injected"));
        }
        self.left -= 1;
        self.seen.lock().unwrap().push(entry_of(&e));
        Ok(())
    }
}

fn c19_failing(cx: &mut Cx) -> Out {
    let seen = Arc::new(Mutex::new(vec![]));
    let left = cx.s.idx(8);
    let l = Failing { seen: seen.clone(), left };
    let rt = if cx.s.bool() { Runtime::with_logger(l) } else { Runtime::with_logger(Box::new(l) as Box<dyn Logger>) };
    let mut want: Vec<Entry> = vec![];
    for _ in 0..cx.s.count(1, 6) {
        let es: Vec<Entry> = (0..1 + cx.s.idx(4)).map(|_| long_entry(cx)).collect();
        let res = if es.len() == 1 && cx.s.bool() { rt.log(lib_entry(&es[0])) } else { rt.nested(2).log_multi(es.iter().map(lib_entry).collect()) };
        let fits = want.len() + es.len() <= left;
        want.extend(es);
        want.truncate(left);
        match res {
            Ok(()) => ensure!(fits, "logging succeeds although the logger failed"),
            Err(e) => {
                ensure!(!fits, "logging fails although the logger did not: {}", e);
                ensure!(e.kind() == io::ErrorKind::BrokenPipe, "the logger's error became {:?}", e);
                cx.nontrivial = true;
            }
        }
        let got = seen.lock().unwrap().clone();
        ensure!(got == want, "the logger got {:?}, expected {:?}", got, want);
    }
    Ok(())
}

// ---------------------------------------------------------------- C28

/// A tap that takes its time.
struct Slow {
    tap: Tap,
    rng: engine::src::Rng,
    pace: u64,
}

impl Logger for Slow {
    fn log(&mut self, e: LogEntry) -> io::Result<()> {
        dawdle(&mut self.rng, self.pace);
        let r = self.tap.log(e);
        dawdle(&mut self.rng, self.pace);
        r
    }
}

fn dawdle(rng: &mut engine::src::Rng, pace: u64) {
    match pace {
        0 => (),
        1 => {
            if rng.next() % 3 == 0 {
                std::thread::yield_now();
            }
        }
        _ => {
            for _ in 0..rng.next() % 400 {
                std::hint::spin_loop();
            }
        }
    }
}

struct Done {
    path: Vec<u32>,
    ty: Ty,
    start: Val,
    end: Val,
    view: Val,
    steps: Vec<(Val, Vec<Entry>, bool)>,
    wrong: Option<String>,
}

/// One thread's history on a state of its own.
fn history(t: &dyn Target, root: &Runtime, tap: &Tap, path: &[u32], start: &Val, seed: u64, ops: u64, go: &Barrier) -> Done {
    let mut s = Src::random(seed);
    let mut x = t.build(start);
    x.set_runtime(at(root, path));
    let mut live = Live { ty: t.ty(), x, model: start.clone(), tap: tap.clone(), rt: root.clone(), base: path.to_vec() };
    let kit = Kit { foreign: vec![], with: false };
    let mut steps = vec![];
    let mut wrong = None;
    go.wait();
    for _ in 0..ops {
        let Some((p, op)) = gen_op(&mut s, &live.ty, &live.model, &kit) else { break };
        let before = live.model.clone();
        let (want, got, entries) = live.apply(&p, &op);
        if want.canon() != got.canon() && wrong.is_none() {
            wrong = Some(format!("{:?} at {:?} of the state at {:?} returned {:?}, expected {:?}", op, p, path, got, want));
        }
        let tight = matches!(op, Op::SwapRemove(_)) && entries.len() > 1;
        steps.push((before, entries, tight));
    }
    let view = live.x.view();
    Done { path: path.to_vec(), ty: live.ty.clone(), start: start.clone(), end: live.model.clone(), view, steps, wrong }
}

/// Does every thread's part of the log say what the thread did?
fn judge(cx: &mut Cx, done: &[Done], log: &[Entry]) -> Out {
    let mine = |d: &Done, e: &Entry| e.path().starts_with(&d.path);
    for e in log {
        let n = done.iter().filter(|d| mine(d, e)).count();
        ensure!(n == 1, "the log contains {:?}, which belongs to no thread", e);
    }
    for d in done {
        if let Some(w) = &d.wrong {
            return Err(w.clone());
        }
        same_val(&d.end, &d.view, &format!("the state at {:?} after its thread ended", d.path))?;
        let got: Vec<(usize, &Entry)> = log.iter().enumerate().filter(|(_, e)| mine(d, e)).collect();
        let all: usize = d.steps.iter().map(|s| s.1.len()).sum();
        ensure!(got.len() == all, "the thread at {:?} logged {} entries, expected {}: {:?} instead of {:?}", d.path, got.len(), all, got, d.steps.iter().map(|x| &x.1).collect::<Vec<_>>());
        let mut i = 0;
        let probe = Live { ty: d.ty.clone(), x: NoInst::boxed(), model: d.start.clone(), tap: Tap::default(), rt: Runtime::new(), base: d.path.clone() };
        for (before, want, tight) in &d.steps {
            let part = &got[i..i + want.len()];
            i += want.len();
            let es: Vec<Entry> = part.iter().map(|x| x.1.clone()).collect();
            probe.same_entries(before, want, &es, &format!("the thread at {:?}", d.path))?;
            if *tight {
                ensure!(part.windows(2).all(|w| w[0].0 + 1 == w[1].0), "the entries {:?} of one swap_remove are apart in the log", part);
            }
        }
    }
    let owner: Vec<usize> = log.iter().map(|e| done.iter().position(|d| mine(d, e)).unwrap()).collect();
    let switches = owner.windows(2).filter(|w| w[0] != w[1]).count();
    cx.nontrivial |= switches >= 2;
    cx.label_if(switches >= done.len() + 1, "interleaved");
    Ok(())
}

struct NoInst;
impl NoInst {
    fn boxed() -> Box<dyn engine::inst::Inst> {
        engine::inst::plain::<bool>().default()
    }
}

/// Strips the first elements of the paths.
fn strip_path(e: &Entry, n: usize) -> Entry {
    let cut = |p: &Vec<u32>| p[n..].to_vec();
    match e {
        Entry::Update(p, b) => Entry::Update(cut(p), b.clone()),
        Entry::Push(p, b) => Entry::Push(cut(p), b.clone()),
        Entry::Pop(p) => Entry::Pop(cut(p)),
        Entry::Remove(p, k) => Entry::Remove(cut(p), *k),
    }
}

fn parse_all(bytes: &[u8]) -> Result<Vec<Entry>, String> {
    let mut c = Cur::new(bytes);
    let mut out = vec![];
    while !c.eof() {
        out.push(Entry::parse(&mut c).map_err(|e| format!("the log is damaged: {:?}", e))?);
    }
    Ok(out)
}

fn slow(cx: &mut Cx) -> (Tap, Runtime) {
    let tap = Tap::default();
    let (pace, seed) = (cx.s.below(3), cx.s.below(1 << 40));
    let rt = Runtime::with_logger(Slow { tap: tap.clone(), rng: engine::src::Rng::new(seed), pace });
    (tap, rt)
}

fn c28_any(cx: &mut Cx) -> Out {
    let n = cx.s.range(2, 8);
    let (tap, rt) = slow(cx);
    let ops = 3 + cx.s.below(30);
    let mut jobs = vec![];
    let one_type = cx.s.bool();
    let first = cx.state();
    for i in 0..n {
        let t = if one_type || i == 0 { first } else { cx.state() };
        let v = gen_small(&mut cx.s, &t.ty());
        let mut path = vec![i as u32];
        for _ in 0..cx.s.below(3) {
            path.push(gen_key(&mut cx.s, 32));
        }
        jobs.push((t, v, path, cx.s.raw()));
    }
    cx.note(|| format!("{} threads, up to {} operations: {:?}", n, ops, jobs.iter().map(|j| (j.0.name(), &j.1, &j.2)).collect::<Vec<_>>()));
    let go = Barrier::new(n);
    let done: Vec<Done> = std::thread::scope(|s| {
        let hs: Vec<_> = jobs
            .iter()
            .map(|(t, v, path, seed)| {
                let (rt, tap, go) = (rt.clone(), tap.clone(), &go);
                std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(s, move || history(*t, &rt, &tap, path, v, *seed, ops, go)).unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().map_err(|_| "a mutating thread panicked".to_string())).collect::<Result<_, _>>()
    })?;
    let log = tap.since(0);
    judge(cx, &done, &log)?;
    let parsed = parse_all(&tap.pluck_bytes())?;
    ensure!(parsed == log, "the buffer holds {:?}, expected {:?}", parsed, log);
    // each part of the log replays
    for (d, (t, ..)) in done.iter().zip(&jobs) {
        let bytes: Vec<u8> = log.iter().filter(|e| e.path().starts_with(&d.path)).flat_map(|e| strip_path(e, d.path.len()).framed()).collect();
        let mut x = t.build(&d.start);
        x.set_runtime(Runtime::new());
        io_err(replay(&mut *x, &bytes), "replaying a thread's entries")?;
        same_val(&mask_no_state(&d.ty, &d.end), &mask_no_state(&d.ty, &x.view()), "the replica of a thread's state")?;
    }
    Ok(())
}

/// Threads work on the entries of one map; its replica replays the whole log.
fn root_case<T: Bind + State>(cx: &mut Cx) -> Out
where
    Map<u16, T>: Clone,
{
    let n = cx.s.range(2, 8);
    let (tap, rt) = slow(cx);
    let ops = 3 + cx.s.below(30);
    let t = engine::inst::state::<T>();
    let t = &*t;
    let ty = t.ty();
    let jobs: Vec<(Val, u32, u64)> = (0..n).map(|i| (gen_small(&mut cx.s, &ty), 7 * i as u32, cx.s.raw())).collect();
    cx.note(|| format!("{} threads on the entries of a map, up to {} operations: {:?}", n, ops, jobs));
    let go = Barrier::new(n);
    let done: Vec<Done> = std::thread::scope(|s| {
        let hs: Vec<_> = jobs
            .iter()
            .map(|(v, key, seed)| {
                let (rt, tap, go) = (rt.clone(), tap.clone(), &go);
                std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(s, move || history(t, &rt, &tap, &[*key], v, *seed, ops, go)).unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().map_err(|_| "a mutating thread panicked".to_string())).collect::<Result<_, _>>()
    })?;
    let log = tap.since(0);
    judge(cx, &done, &log)?;
    let root = engine::inst::state::<Map<u16, T>>();
    let mut replica = root.build(&Val::Map(jobs.iter().map(|(v, k, _)| (*k, v.clone())).collect()));
    let (_tap, rrt) = new_tap();
    replica.set_runtime(rrt);
    io_err(replay(&mut *replica, &tap.pluck_bytes()), "replaying the common log")?;
    let want = Val::Map(jobs.iter().zip(&done).map(|((_, k, _), d)| (*k, d.end.clone())).collect());
    same_val(&want, &replica.view(), "the replica of all threads' states")
}

fn c28_root(cx: &mut Cx) -> Out {
    match cx.s.below(5) {
        0 => root_case::<List<u16>>(cx),
        1 => root_case::<Item>(cx),
        2 => root_case::<List<Item>>(cx),
        3 => root_case::<Map<u8, Item>>(cx),
        _ => root_case::<Maybe<List<List<i32>>>>(cx),
    }
}

/// The log is plucked while the threads work.
fn c28_drain(cx: &mut Cx) -> Out {
    let n = cx.s.range(2, 7);
    let (rt, handle) = Runtime::with_logger_returned(BufferLogger::new());
    let ops = 3 + cx.s.below(30);
    let t = engine::inst::state::<List<Item>>();
    let t = &*t;
    let ty = t.ty();
    let jobs: Vec<(Val, u32, u64)> = (0..n).map(|i| (gen_small(&mut cx.s, &ty), i as u32, cx.s.raw())).collect();
    let how = cx.s.below(2);
    cx.note(|| format!("{} threads, up to {} operations, log plucked meanwhile: {:?}", n, ops, jobs));
    let go = Barrier::new(n + 1);
    let unused = Tap::default();
    let mut log: Vec<Entry> = vec![];
    let pluck = |log: &mut Vec<Entry>| -> Out {
        if how == 0 {
            log.extend(parse_all(&handle.lock().unwrap().pluck_bytes())?);
        } else {
            log.extend(handle.lock().unwrap().pluck().iter().map(entry_of));
        }
        Ok(())
    };
    let done: Vec<Done> = std::thread::scope(|s| {
        let hs: Vec<_> = jobs
            .iter()
            .map(|(v, key, seed)| {
                let (rt, tap, go) = (rt.clone(), unused.clone(), &go);
                std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(s, move || history(t, &rt, &tap, &[*key], v, *seed, ops, go)).unwrap()
            })
            .collect();
        go.wait();
        let mut res = Ok(());
        while !hs.iter().all(|h| h.is_finished()) {
            if res.is_ok() {
                res = pluck(&mut log);
            }
            std::thread::yield_now();
        }
        let done: Result<Vec<Done>, String> = hs.into_iter().map(|h| h.join().map_err(|_| "a mutating thread panicked".to_string())).collect();
        res.and(done)
    })?;
    pluck(&mut log)?;
    judge(cx, &done, &log)
}

fn c28_ser(cx: &mut Cx) -> Out {
    let sh = cx.env.shared[cx.s.idx(cx.env.shared.len())];
    let ty = (sh.ty)();
    let v = gen_val(&mut cx.s, &ty);
    let threads = cx.s.range(2, 8);
    let rounds = cx.s.range(1, 5);
    cx.note(|| format!("{} threads serialize {} {:?}", threads, (sh.name)(), v));
    let want = encode(&ty, &v);
    for got in (sh.serialize)(&v, threads, rounds) {
        if got != want {
            // map order may differ
            let same = got.len() == want.len() && matches!((decode(&ty, &got), decode(&ty, &want)), (Ok(a), Ok(b)) if a.canon() == b.canon());
            ensure!(same, "a thread got the bytes {:?}, expected {:?}", got, want);
        }
    }
    cx.nontrivial |= v.nodes() >= 3;
    Ok(())
}
