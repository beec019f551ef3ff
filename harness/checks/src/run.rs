//! Runs a check: one parent, several worker processes, shrinking, replay, evidence.

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    io::{BufRead, BufReader, Write},
    os::unix::process::ExitStatusExt,
    panic::{catch_unwind, AssertUnwindSafe},
    process::{Command, Stdio},
    sync::mpsc,
    time::{Duration, Instant},
};

use engine::src::{hash_words, mix, Src};

use crate::cx::{Check, Cx, Env};

const STACK: usize = 1 << 30;
const MEMORY: usize = 2 << 30;
/// A case is a matter of milliseconds; one that takes this long is taken for endless.
const STALL: Duration = Duration::from_secs(60);
const SHRINK: Duration = Duration::from_secs(25);

thread_local!(static PANIC: RefCell<String> = const { RefCell::new(String::new()) });

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|x| x.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let at = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_empty() {
                *p = format!("{}{}", msg, at);
            }
        });
    }));
}

pub struct Done {
    pub fail: Option<String>,
    pub cx: Cx,
}

pub fn run_case(check: &Check, env: &'static Env, s: Src, verbose: bool) -> Done {
    let mut cx = Cx::new(s, env, verbose);
    PANIC.with(|p| p.borrow_mut().clear());
    let r = catch_unwind(AssertUnwindSafe(|| check.case(&mut cx)));
    let fail = match r {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(e),
        Err(_) => {
            let m = PANIC.with(|p| p.borrow().clone());
            Some(if m.starts_with("harness:") { m } else { format!("panicked: {}", m) })
        }
    };
    Done { fail, cx }
}

fn seed_of(check: &Check, seed: u64, index: u64) -> u64 {
    let id = check.id.bytes().fold(seed, |h, b| mix(h ^ b as u64));
    mix(id ^ mix(index))
}

fn is_harness(f: &Option<String>) -> bool {
    f.as_ref().is_some_and(|f| f.starts_with("harness:"))
}

/// Shrinks a failing tape.
fn shrink(check: &Check, env: &'static Env, tape: Vec<u64>) -> Vec<u64> {
    let start = Instant::now();
    let mut best = tape;
    let mut evals = 0u32;
    let mut try_tape = |best: &mut Vec<u64>, t: Vec<u64>| -> bool {
        if evals >= 4000 || start.elapsed() > SHRINK || t == *best {
            return false;
        }
        evals += 1;
        let d = run_case(check, env, Src::replay(t.clone()), false);
        if d.fail.is_none() || is_harness(&d.fail) {
            return false;
        }
        let used = d.cx.s.used().to_vec();
        let t = if used.len() < t.len() { used } else { t };
        if (t.len(), &t) < (best.len(), &*best) {
            *best = t;
            return true;
        }
        false
    };
    loop {
        let before = best.clone();
        for size in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = best.len();
            while i > 0 {
                i = i.saturating_sub(size);
                if i >= best.len() {
                    continue;
                }
                let mut t = best.clone();
                t.drain(i..(i + size).min(t.len()));
                try_tape(&mut best, t);
            }
        }
        for size in [8usize, 1] {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    t[i..end].iter_mut().for_each(|x| *x = 0);
                    try_tape(&mut best, t);
                }
                i += size;
            }
        }
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            while i < best.len() && best[i] > lo {
                let mid = lo + (best[i] - lo) / 2;
                let mut t = best.clone();
                t[i] = mid;
                if !try_tape(&mut best, t) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before {
            break;
        }
    }
    best
}

struct Args {
    tier: String,
    seed: u64,
    jobs: u64,
    cases: Option<u64>,
    worker: Option<u64>,
    one: Option<u64>,
    tape: Option<String>,
    replay: Option<String>,
    out: String,
    replays: String,
    known: String,
}

fn parse_args() -> (String, Args) {
    let mut a = Args {
        tier: "quick".into(),
        seed: 1,
        jobs: 8,
        cases: None,
        worker: None,
        one: None,
        tape: None,
        replay: None,
        out: String::new(),
        replays: String::new(),
        known: String::new(),
    };
    let mut id = String::new();
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut v = || it.next().expect("missing argument");
        match x.as_str() {
            "--tier" => a.tier = v(),
            "--seed" => a.seed = v().parse().unwrap(),
            "--jobs" => a.jobs = v().parse().unwrap(),
            "--cases" => a.cases = Some(v().parse().unwrap()),
            "--worker" => a.worker = Some(v().parse().unwrap()),
            "--one" => a.one = Some(v().parse().unwrap()),
            "--tape" => a.tape = Some(v()),
            "--replay" => a.replay = Some(v()),
            "--out" => a.out = v(),
            "--replays" => a.replays = v(),
            "--known" => a.known = v(),
            x => id = x.to_string(),
        }
    }
    (id, a)
}

fn join(t: &[u64]) -> String {
    t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}

fn parse_tape(s: &str) -> Vec<u64> {
    s.split(',').filter(|x| !x.is_empty()).map(|x| x.trim().parse().unwrap()).collect()
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn main(env: fn() -> &'static Env) {
    let (id, a) = parse_args();
    let check: &'static Check = match crate::c::all().into_iter().find(|c| c.id == id) {
        Some(c) => Box::leak(Box::new(c)),
        None => {
            eprintln!("unknown check {:?}", id);
            std::process::exit(2);
        }
    };
    install_hook();
    let code = std::thread::Builder::new()
        .stack_size(STACK)
        .spawn(move || match a.worker.is_some() || a.one.is_some() || a.tape.is_some() {
            true => worker(check, env(), &a),
            false => parent(check, env, &a),
        })
        .unwrap()
        .join()
        .unwrap_or(2);
    std::process::exit(code);
}

// ---------------------------------------------------------------- worker

fn total(check: &Check, a: &Args) -> u64 {
    a.cases.unwrap_or(if a.tier == "thorough" { check.thorough } else { check.quick })
}

fn worker(check: &'static Check, env: &'static Env, a: &Args) -> i32 {
    engine::mem::set_limit(MEMORY);
    let stdout = std::io::stdout();
    let say = |s: String| {
        let mut o = stdout.lock();
        let _ = writeln!(o, "{}", s);
        let _ = o.flush();
    };
    if let Some(t) = &a.tape {
        let d = run_case(check, env, Src::replay(parse_tape(t)), false);
        say(format!("TAPE {}", d.fail.is_some() as u8));
        return 0;
    }
    if let Some(i) = a.one {
        let d = run_case(check, env, Src::random(seed_of(check, a.seed, i)), false);
        say(format!("ONE {}", d.fail.is_some() as u8));
        return 0;
    }
    let me = a.worker.unwrap();
    let n = total(check, a);
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut found: BTreeMap<String, String> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut done = 0u64;
    let mut samples = 0;
    let mut i = me;
    // the index of the case under way, for the parent to find after a crash
    let progress = std::env::var("CHECK_PROGRESS").ok().and_then(|p| std::fs::File::create(p).ok());
    let mark = |i: u64| {
        if let Some(f) = &progress {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(&i.to_le_bytes(), 0);
        }
    };
    while i < n {
        mark(i);
        let begin = Instant::now();
        let d = run_case(check, env, Src::random(seed_of(check, a.seed, i)), false);
        done += 1;
        if begin.elapsed() > Duration::from_secs(2) {
            say(format!("SLOW {} {:?} {} draws", i, begin.elapsed(), d.cx.s.used().len()));
        }
        if let Some(f) = d.fail {
            if f.starts_with("harness:") {
                say(format!("HARNESS {} {}", i, f.replace('\n', " ")));
                return 2;
            }
            let tape = d.cx.s.tape.clone();
            let first = f.replace('\n', " ");
            say(format!("FOUND {} {}", i, join(&tape)));
            let small = shrink(check, env, tape);
            say(format!("FAIL {} {} {}", i, join(&small), first));
            return 1;
        }
        for l in &d.cx.labels {
            *labels.entry(l.clone()).or_default() += 1;
        }
        for (sig, what) in d.cx.findings {
            found.entry(sig).or_insert(what);
        }
        if d.cx.nontrivial {
            if hashes.insert(hash_words(d.cx.s.used())) && samples < 2 {
                samples += 1;
                say(format!("SAMPLE {}", i));
            }
        }
        i += a.jobs;
    }
    for (l, c) in labels {
        say(format!("LABEL {} {}", c, l));
    }
    for (k, w) in found {
        say(format!("FINDING {}\t{}", k, w.replace('\n', " ")));
    }
    let hs: Vec<u64> = hashes.into_iter().collect();
    for c in hs.chunks(4096) {
        say(format!("HASH {}", join(c)));
    }
    say(format!("DONE {}", done));
    0
}

// ---------------------------------------------------------------- parent

enum Ev {
    Line(u64, String),
    End(u64),
}

/// `sig` lines of the known-findings file for this property.
fn known(a: &Args, id: &str) -> Vec<String> {
    let text = std::fs::read_to_string(&a.known).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| l.strip_prefix(&format!("property={} ", id)))
        .filter_map(|l| l.strip_prefix("signature="))
        .map(|l| l.split(" | ").next().unwrap().trim().to_string())
        .collect()
}

fn parent(check: &'static Check, env: fn() -> &'static Env, a: &Args) -> i32 {
    let start = Instant::now();
    if let Some(p) = &a.replay {
        return replay(check, env(), p);
    }
    let n = total(check, a);
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("checks-{}-{}", check.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let (tx, rx) = mpsc::channel();
    let mut kids = Vec::new();
    for w in 0..a.jobs {
        let mut c = Command::new(&exe)
            .args([check.id, "--tier", &a.tier, "--seed", &a.seed.to_string(), "--jobs", &a.jobs.to_string()])
            .args(["--cases", &n.to_string(), "--worker", &w.to_string()])
            .env("CHECK_PROGRESS", dir.join(format!("p{}", w)))
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        let out = c.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines().map_while(Result::ok) {
                let _ = tx.send(Ev::Line(w, l));
            }
            let _ = tx.send(Ev::End(w));
        });
        kids.push(c);
    }
    let (mut done, mut ended) = (0u64, 0);
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut findings: BTreeMap<String, String> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<u64> = vec![];
    let mut fail: Option<(u64, Vec<u64>, String)> = None;
    let mut full: BTreeMap<u64, Vec<u64>> = BTreeMap::new();
    let mut trouble: Option<String> = None;
    let mut last: Vec<(u64, Instant)> = vec![(u64::MAX, Instant::now()); a.jobs as usize];
    let progress = |w: u64| -> u64 {
        std::fs::read(dir.join(format!("p{}", w)))
            .ok()
            .and_then(|b| b.try_into().ok())
            .map_or(u64::MAX, u64::from_le_bytes)
    };
    let mut finished = vec![false; a.jobs as usize];
    let mut shrinking: Vec<Option<Instant>> = vec![None; a.jobs as usize];
    let mut stuck: Option<u64> = None;
    let mut crashed: Vec<(u64, i32)> = vec![];
    while ended < a.jobs && fail.is_none() && trouble.is_none() && crashed.is_empty() && stuck.is_none() {
        match rx.recv_timeout(Duration::from_secs(1)) {
            Ok(Ev::Line(w, l)) => {
                let (k, rest) = l.split_once(' ').unwrap_or((&l, ""));
                match k {
                    "FOUND" => {
                        let (i, t) = rest.split_once(' ').unwrap_or((rest, ""));
                        full.insert(i.parse().unwrap(), parse_tape(t));
                        shrinking[w as usize] = Some(Instant::now());
                    }
                    "FAIL" => {
                        let mut it = rest.splitn(3, ' ');
                        let i: u64 = it.next().unwrap().parse().unwrap();
                        let tape = parse_tape(it.next().unwrap());
                        fail = Some((i, tape, it.next().unwrap_or("").to_string()));
                    }
                    "HARNESS" => trouble = Some(rest.to_string()),
                    "SAMPLE" => samples.push(rest.parse().unwrap()),
                    "LABEL" => {
                        let (c, l) = rest.split_once(' ').unwrap();
                        *labels.entry(l.to_string()).or_default() += c.parse::<u64>().unwrap();
                    }
                    "FINDING" => {
                        let (k, w) = rest.split_once('\t').unwrap();
                        findings.insert(k.to_string(), w.to_string());
                    }
                    "HASH" => hashes.extend(parse_tape(rest)),
                    "DONE" => {
                        done += rest.parse::<u64>().unwrap();
                        finished[w as usize] = true;
                    }
                    _ => (),
                }
            }
            Ok(Ev::End(w)) => {
                ended += 1;
                let st = kids[w as usize].wait().unwrap();
                if !finished[w as usize] && fail.is_none() && trouble.is_none() {
                    match st.signal() {
                        // ended from outside (memory), says nothing about the code
                        Some(9) | Some(15) => trouble = Some(format!("worker {} was killed", w)),
                        Some(sig) if shrinking[w as usize].is_some() => {
                            let (i, t) = full.iter().next().unwrap();
                            fail = Some((*i, t.clone(), format!("fails, and crashes with signal {} while shrinking", sig)));
                        }
                        Some(sig) => crashed.push((progress(w), sig)),
                        None => trouble = Some(format!("worker {} ended with {:?}", w, st)),
                    }
                }
            }
            Err(_) => {
                for w in 0..a.jobs {
                    if finished[w as usize] {
                        continue;
                    }
                    if let Some(since) = shrinking[w as usize] {
                        if since.elapsed() > STALL + SHRINK {
                            let (i, t) = full.iter().next().unwrap();
                            fail = Some((*i, t.clone(), "fails, and does not end while shrinking".into()));
                        }
                        continue;
                    }
                    let p = progress(w);
                    let l = &mut last[w as usize];
                    if p != l.0 {
                        *l = (p, Instant::now());
                    } else if l.1.elapsed() > STALL {
                        stuck = Some(p);
                    }
                }
            }
        }
    }
    for k in &mut kids {
        let _ = k.kill();
        let _ = k.wait();
    }
    let _ = std::fs::remove_dir_all(&dir);
    let env = env();
    if let Some((i, sig)) = crashed.first() {
        // confirm alone, then shrink by subprocess
        let crash = |t: &[&str]| -> bool {
            let st = Command::new(&exe)
                .arg(check.id)
                .args(["--tier", &a.tier, "--seed", &a.seed.to_string()])
                .args(t)
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status()
                .unwrap();
            matches!(st.signal(), Some(s) if s != 9 && s != 15)
        };
        if crash(&["--one", &i.to_string()]) {
            let mut tape = full_tape(check, env, seed_of(check, a.seed, *i), &crash);
            let begin = Instant::now();
            for size in [64usize, 16, 4, 1] {
                let mut k = tape.len();
                while k > 0 && begin.elapsed() < Duration::from_secs(30) {
                    k = k.saturating_sub(size);
                    let mut t = tape.clone();
                    t.drain(k..(k + size).min(t.len()));
                    if crash(&["--tape", &join(&t)]) {
                        tape = t;
                    }
                }
            }
            fail = Some((*i, tape, format!("the process crashes with signal {}", sig)));
        } else {
            trouble = Some(format!("case {} crashed with signal {} but not when run alone", i, sig));
        }
    }
    if let Some(i) = stuck {
        // confirm alone
        let mut c = Command::new(&exe)
            .arg(check.id)
            .args(["--tier", &a.tier, "--seed", &a.seed.to_string(), "--one", &i.to_string()])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        let begin = Instant::now();
        let mut ended = false;
        while !ended && begin.elapsed() < STALL {
            std::thread::sleep(Duration::from_millis(100));
            ended = c.try_wait().unwrap().is_some();
        }
        let _ = c.kill();
        let _ = c.wait();
        match ended {
            true => trouble = Some(format!("case {} did not end within {:?}, but does when run alone", i, STALL)),
            false => {
                let mut rng = engine::src::Rng::new(seed_of(check, a.seed, i));
                let tape = (0..20000).map(|_| rng.next()).collect();
                fail = Some((i, tape, format!("does not end: no result within {:?}, twice", STALL)));
            }
        }
    }
    let mut violations = 0;
    let mut code = 0;
    let listed = known(a, check.id);
    let mut unlisted = vec![];
    for (sig, what) in &findings {
        if listed.contains(sig) {
            println!("KNOWN-FINDING: property={} {}", check.id, what);
        } else {
            unlisted.push((sig.clone(), what.clone()));
        }
    }
    if fail.is_none() && trouble.is_none() {
        if let Some((sig, what)) = unlisted.first() {
            let p = write_replay(a, check.id, &[], &format!("{}: {}", sig, what), &[]);
            println!("{}", what);
            println!("VIOLATION property={} replay={}", check.id, p);
            violations += 1;
            code = 1;
        }
    }
    if let Some((i, tape, msg)) = &fail {
        let crashes = msg.contains("crashes with signal") || msg.contains("not end");
        let (mut tape, mut notes, mut msg) = (tape.clone(), vec![], msg.clone());
        if !crashes {
            // the shrunk case, told in full; a case that depends on hash order may need a few tries
            let mut seen = false;
            for t in [tape.clone(), full.get(i).cloned().unwrap_or_default()] {
                for _ in 0..20 {
                    let d = run_case(check, env, Src::replay(t.clone()), true);
                    if let Some(f) = d.fail.filter(|f| !f.starts_with("harness:")) {
                        (notes, msg, tape, seen) = (d.cx.notes, f, t.clone(), true);
                        break;
                    }
                }
                if seen {
                    break;
                }
            }
        }
        let p = write_replay(a, check.id, &tape, &msg, &notes);
        for n in &notes {
            println!("  {}", n);
        }
        println!("{} (case {}): {}", check.id, i, msg);
        println!("VIOLATION property={} replay={}", check.id, p);
        violations += 1;
        code = 1;
    }
    if let Some(t) = &trouble {
        println!("ERROR in check {}: {}", check.id, t);
        code = 2;
    }
    if !a.out.is_empty() {
        samples.sort();
        samples.truncate(6);
        let mut told = vec![];
        if code == 0 {
            for i in samples {
                let d = run_case(check, env, Src::random(seed_of(check, a.seed, i)), true);
                told.push(format!(
                    "{{\"case\": {}, \"labels\": [{}], \"steps\": [{}]}}",
                    i,
                    d.cx.labels.iter().map(|l| json(l)).collect::<Vec<_>>().join(", "),
                    d.cx.notes.iter().take(40).map(|l| json(l)).collect::<Vec<_>>().join(", ")
                ));
            }
        } else {
            told.push(json("the run ended early; see the replay file"));
        }
        let text = format!(
            "{{\n\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n\"coverage\": {{\n\"evaluations\": {}, \"distinct_nontrivial\": {},\n\"rule\": {},\n\"labels\": {{{}}},\n\"known_findings\": [{}],\n\"types\": {},\n\"samples\": [{}]\n}},\n\"wall_s\": {:.2}, \"violations\": {}\n}}\n",
            json(check.id),
            json(&a.tier),
            a.seed,
            done,
            hashes.len(),
            json(check.rule),
            labels.iter().map(|(l, c)| format!("{}: {}", json(l), c)).collect::<Vec<_>>().join(", "),
            findings.values().map(|w| json(w)).collect::<Vec<_>>().join(", "),
            env.targets.len(),
            told.join(",\n"),
            start.elapsed().as_secs_f64(),
            violations
        );
        std::fs::write(&a.out, text).unwrap();
    }
    if code == 0 {
        println!("{}: {} cases, {} distinct non-trivial, {:.1}s", check.id, done, hashes.len(), start.elapsed().as_secs_f64());
    }
    code
}

/// The tape of a case that crashes the process: as much of it as is drawn before the crash cannot
/// be read back, so the whole stream of the generator is laid out.
fn full_tape(_: &Check, _: &'static Env, seed: u64, crash: &dyn Fn(&[&str]) -> bool) -> Vec<u64> {
    let mut rng = engine::src::Rng::new(seed);
    let raw: Vec<u64> = (0..6000).map(|_| rng.next()).collect();
    let mut n = raw.len();
    while n > 1 && crash(&["--tape", &join(&raw[..n / 2])]) {
        n /= 2;
    }
    raw[..n].to_vec()
}

fn write_replay(a: &Args, id: &str, tape: &[u64], msg: &str, notes: &[String]) -> String {
    let dir = if a.replays.is_empty() { ".".to_string() } else { a.replays.clone() };
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{}/{}-{:016x}.json", dir, id, hash_words(tape) ^ mix(msg.len() as u64));
    let text = format!(
        "{{\n\"property\": {},\n\"message\": {},\n\"steps\": [{}],\n\"tape\": [{}]\n}}\n",
        json(id),
        json(msg),
        notes.iter().map(|n| json(n)).collect::<Vec<_>>().join(",\n "),
        join(tape)
    );
    std::fs::write(&p, text).unwrap();
    p
}

fn replay(check: &'static Check, env: &'static Env, p: &str) -> i32 {
    let text = std::fs::read_to_string(p).expect("replay file");
    let tail = text.rsplit("\"tape\": [").next().unwrap();
    let tape = parse_tape(tail.split(']').next().unwrap());
    for _ in 0..20 {
        let d = run_case(check, env, Src::replay(tape.clone()), true);
        if let Some(f) = d.fail {
            for n in &d.cx.notes {
                println!("  {}", n);
            }
            println!("{}", f);
            println!("VIOLATION property={} replay={}", check.id, p);
            return 1;
        }
    }
    println!("{}: the case of {} passes", check.id, p);
    0
}
