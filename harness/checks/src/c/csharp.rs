//! C29, C30: the C# client library and the generated classes, executed by an interpreter of C#
//! (/verif/cs) and compared with the model.

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashMap, HashSet},
    io::{BufRead, BufReader, Write},
    path::PathBuf,
    process::{Child, ChildStdin, ChildStdout, Command, Stdio},
};

use engine::{
    inst::{Meta, Target},
    live::Live,
    model::{encode, Entry},
    model::{decode, E},
    ops::gen_op,
    src::mix,
    val::*,
};
use steit::gen::{generators::CSharpSetting, Setting};

use super::{
    codegen::{collides, shadows, make_msg, messages, msg, reachable, read_type, text, upper, written, Dir, Gty, Msg, Name},
    log::{construct, kit, log_path, some_place},
};
use crate::{
    cx::{Check, Cx, Env, Out},
    gen::{noisy, noisy_entry, Noise},
};

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C29",
            quick: 16_000,
            thorough: 1_000_000,
            rule: "A case draws a state type, constructs it in one of many ways, gives its snapshot to the C# client and then what a random history logs, entry by entry or in batches, some of them with unknown fields added; after every step the contents, classes, paths and variants of the whole C# state are compared with the model, and the events raised with the change. Non-trivial: at least three mutations changed the state.",
            scenarios: &[(3, "entries", c29_entries), (2, "batches", c29_batches)],
        },
        Check {
            id: "C30",
            quick: 30_000,
            thorough: 1_500_000,
            rule: "A case draws a type with metadata and a value, and gives its encoding, or one with unknown, mistyped, reordered and explicit fields, to the C# client, which must build that value. Non-trivial: the value has four nodes or more, or a field was added.",
            scenarios: &[(2, "plain", c30_plain), (3, "noisy", c30_noisy), (1, "truncated", c30_truncated)],
        },
    ]
}

// ---------------------------------------------------------------- the client

struct Client {
    _child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
    /// the roots that were announced, of the current and the older program
    roots: HashSet<usize>,
    /// why a program could not be loaded
    broken: [Option<Answer>; 2],
    units: Units,
}

#[derive(Clone, Debug)]
enum Answer {
    Ok(u64),
    Bad(String),
    Skip(String),
}

/// The types with metadata the client can know.
struct Units {
    metas: Vec<(&'static Meta, &'static dyn Target)>,
    /// the classes of the current definitions, and of definitions with fewer fields
    files: [BTreeMap<String, String>; 2],
    msgs: HashMap<&'static str, &'static MsgDef>,
}

impl Units {
    fn of(env: &'static Env) -> Units {
        let msgs = messages(env);
        let mut metas = vec![];
        let mut files = BTreeMap::new();
        let mut differ = HashSet::new();
        for m in &env.metas {
            let ty = (m.ty)();
            let Some(t) = env.targets.iter().find(|t| t.ty() == ty) else { continue };
            if reachable(env, &ty, &msgs).iter().any(|d| d.no_meta || collides(&msg(d, &msgs)) || shadows(&msg(d, &msgs))) {
                continue;
            }
            let dir = Dir::new();
            let set = Setting::new(&dir.0, CSharpSetting::new("Zoo")).skip_builtins(true);
            (m.generate)(&set).unwrap_or_else(|e| panic!("code generation from {} fails: {}", m.src, e));
            for (n, t) in dir.files() {
                if files.get(&n).is_some_and(|x| *x != t) {
                    differ.insert(n.clone());
                }
                files.insert(n, t);
            }
            metas.push((m, &**t));
        }
        // definitions of one name cannot be in one namespace
        metas.retain(|(m, _)| {
            let ds = reachable(env, &(m.ty)(), &msgs);
            !ds.iter().any(|d| differ.contains(&format!("{}.cs", Name::new(d.name, d.csharp).cs())))
        });
        files.retain(|n, _| !differ.contains(n));
        let mut old = BTreeMap::new();
        let set = CSharpSetting::new("Zoo");
        for (m, _) in &metas {
            for d in reachable(env, &(m.ty)(), &msgs) {
                if d.builtin {
                    continue;
                }
                let mut x = msg(d, &msgs);
                match &mut x {
                    Msg::Struct(c) => c.fields.retain(|f| !gone(d, 0, f.tag)),
                    Msg::Enum { vars, .. } => {
                        vars.iter_mut().enumerate().for_each(|(i, (_, c))| c.fields.retain(|f| !gone(d, i, f.tag)))
                    }
                }
                old.insert(format!("{}.cs", x.name().cs()), text(&make_msg(&x), &set));
            }
        }
        Units { metas, files: [files, old], msgs }
    }
}

/// Whether the older definition lacks a field.
fn gone(d: &MsgDef, var: usize, tag: u32) -> bool {
    !d.builtin && d.name.bytes().fold(mix(tag as u64 * 31 + var as u64), |h, b| mix(h ^ b as u64)) % 3 == 0
}

fn ask(to: &mut ChildStdin, from: &mut BufReader<ChildStdout>, req: &str) -> Answer {
    let died = "harness: the C# interpreter died";
    to.write_all(req.as_bytes()).expect(died);
    to.write_all(b"\n").expect(died);
    to.flush().expect(died);
    let mut l = String::new();
    from.read_line(&mut l).expect(died);
    let l = l.trim_end();
    let (k, rest) = l.split_at(l.len().min(1));
    let rest = rest.trim_start().to_string();
    match k {
        "O" => Answer::Ok(rest.parse().expect(died)),
        "B" => Answer::Bad(rest),
        "C" => Answer::Bad(format!("the C# code does not compile: {}", rest)),
        "S" => Answer::Skip(rest),
        _ => panic!("harness: the C# interpreter failed: {}", l),
    }
}

impl Client {
    fn new(env: &'static Env) -> Client {
        let units = Units::of(env);
        let here = match std::env::var("VERIF_CS") {
            Ok(d) => PathBuf::from(d),
            Err(_) => PathBuf::from(env!("CARGO_MANIFEST_DIR")).join("../../cs"),
        };
        let repo = std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into());
        let mut child = Command::new("node")
            .arg("--stack-size=4000")
            .arg(here.join("serve.js"))
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .spawn()
            .expect("harness: node does not start");
        let (mut to, mut from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
        let mut broken = [None, None];
        for old in 0..2 {
            let files: Vec<String> = units.files[old].iter().map(|(n, t)| format!("[{},{}]", js(n), js(t))).collect();
            let lib = js(&format!("{}/steit-csharp/src", repo));
            let req = format!("{{\"op\":\"load\",\"code\":{},\"lib\":{},\"files\":[{}]}}", old, lib, files.join(","));
            match ask(&mut to, &mut from, &req) {
                Answer::Ok(_) => (),
                a => broken[old] = Some(a),
            }
        }
        Client { _child: child, to, from, roots: HashSet::new(), broken, units }
    }

    /// Announces a root type: the index of its metadata, doubled, plus one for the older program.
    fn root(&mut self, i: usize) -> Answer {
        let old = i % 2;
        if let Some(a) = &self.broken[old] {
            return a.clone();
        }
        if self.roots.contains(&i) {
            return Answer::Ok(0);
        }
        let m = self.units.metas[i / 2].0;
        let mut d = Desc { old: old == 1, msgs: &self.units.msgs, at: HashMap::new(), out: vec![] };
        d.ty(&(m.ty)(), &read_type(m.r#type));
        let req = format!("{{\"op\":\"root\",\"code\":{},\"id\":{},\"types\":[{}]}}", old, i, d.out.join(","));
        let a = ask(&mut self.to, &mut self.from, &req);
        if let Answer::Ok(_) = a {
            self.roots.insert(i);
        }
        a
    }

    fn run(&mut self, req: &str) -> Answer {
        ask(&mut self.to, &mut self.from, req)
    }
}

/// Runs `f` with the client of this thread.
fn with_client<T>(env: &'static Env, f: impl FnOnce(&mut Client) -> T) -> T {
    thread_local!(static CLIENT: RefCell<Option<Client>> = const { RefCell::new(None) });
    CLIENT.with(|c| {
        let mut c = c.borrow_mut();
        f(c.get_or_insert_with(|| Client::new(env)))
    })
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    o.push_str(&format!("\\u{:04x}", u));
                }
            }
            c => o.push(c),
        }
    }
    o + "\""
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

// ---------------------------------------------------------------- descriptions

struct Desc<'a> {
    old: bool,
    msgs: &'a HashMap<&'static str, &'static MsgDef>,
    at: HashMap<String, usize>,
    out: Vec<String>,
}

fn close(g: &Gty, params: &[&str], args: &[Gty]) -> Gty {
    match g {
        Gty::Param(p) => args[params.iter().position(|x| x == p).expect("harness: an unknown parameter")].clone(),
        Gty::Ref(n, xs) => Gty::Ref(n.clone(), xs.iter().map(|x| close(x, params, args)).collect()),
        g => g.clone(),
    }
}

impl Desc<'_> {
    /// The index of a type's description; `g` is the type as it was written.
    fn ty(&mut self, ty: &Ty, g: &Gty) -> usize {
        let arg = |i: usize| match g {
            Gty::Ref(_, xs) => xs[i].clone(),
            g => panic!("harness: {:?} written as {:?}", ty, g),
        };
        if let Ty::Boxed(t) = ty {
            return match g {
                Gty::Ref(n, xs) if n.rust == "Box" => self.ty(t, &xs[0]),
                g => self.ty(t, g),
            };
        }
        let key = format!("{:?} {:?}", ty, g);
        if let Some(i) = self.at.get(&key) {
            return *i;
        }
        let i = self.out.len();
        self.at.insert(key, i);
        self.out.push(String::new());
        let text = match ty {
            Ty::Bool | Ty::U(_) | Ty::I(_) | Ty::Str => {
                let n = match ty {
                    Ty::Bool => "Boolean".to_string(),
                    Ty::U(8) => "Byte".to_string(),
                    Ty::I(8) => "SByte".to_string(),
                    Ty::U(n) => format!("UInt{}", n),
                    Ty::I(n) => format!("Int{}", n),
                    _ => "String".to_string(),
                };
                format!("{{\"k\":\"prim\",\"name\":\"{}\"}}", n)
            }
            Ty::Bytes => "{\"k\":\"bytes\"}".to_string(),
            Ty::Opt(t) => format!("{{\"k\":\"opt\",\"of\":{}}}", self.ty(t, &arg(0))),
            Ty::Vec(t) | Ty::Arr(_, t) => format!("{{\"k\":\"vec\",\"of\":{}}}", self.ty(t, &arg(0))),
            Ty::List(t) => format!("{{\"k\":\"list\",\"of\":{}}}", self.ty(t, &arg(0))),
            Ty::Map(_, t) => {
                // the key type is not an argument of the C# type
                let Gty::Ref(_, xs) = g else { panic!("harness: {:?} written as {:?}", ty, g) };
                format!("{{\"k\":\"map\",\"of\":{}}}", self.ty(t, xs.last().unwrap()))
            }
            Ty::Msg(id) => {
                let d = def(*id);
                let Gty::Ref(_, args) = g else { panic!("harness: {:?} written as {:?}", ty, g) };
                let old = self.old;
                let mut fields = |i: usize, v: &VarDef, args: &[Gty]| -> String {
                    let xs: Vec<String> = v
                        .fields
                        .iter()
                        .map(|f| {
                            let g = close(&written(f.src, &d.params, self.msgs), &d.params, args);
                            let n = upper(f.csharp.unwrap_or(f.name));
                            let names = if d.builtin { format!("\"{}\",\"Value\",\"F0\"", n) } else { format!("\"{}\"", n) };
                            let of = self.ty(&f.ty, &g);
                            let gone = old && gone(d, i, f.tag);
                            let skip = gone || f.no_state && d.is_state;
                            format!("{{\"tag\":{},\"names\":[{}],\"of\":{},\"skip\":{},\"gone\":{}}}", f.tag, names, of, skip, gone)
                        })
                        .collect();
                    format!("[{}]", xs.join(","))
                };
                let vars: Vec<String> = d
                    .vars
                    .iter()
                    .enumerate()
                    .map(|(i, v)| format!("{{\"tag\":{},\"name\":{},\"fields\":{}}}", v.tag, js(v.csharp.unwrap_or(v.name)), fields(i, v, args)))
                    .collect();
                let fs = if d.is_enum { String::new() } else { fields(0, &d.vars[0], args) };
                let args: Vec<String> = args.iter().map(|g| self.by_name(g).to_string()).collect();
                let name = d.csharp.unwrap_or(d.name);
                let full = if d.builtin { format!("Steit.Builtins.{}", name) } else { format!("Zoo.{}", name) };
                if d.is_enum {
                    format!("{{\"k\":\"enum\",\"full\":{},\"args\":[{}],\"vars\":[{}]}}", js(&full), args.join(","), vars.join(","))
                } else {
                    format!("{{\"k\":\"struct\",\"full\":{},\"args\":[{}],\"fields\":{}}}", js(&full), args.join(","), fs)
                }
            }
            t => panic!("harness: {:?} has no metadata", t),
        };
        self.out[i] = text;
        i
    }

    /// The description of an argument of a type: only its C# type matters.
    fn by_name(&mut self, g: &Gty) -> usize {
        if let Gty::Ref(n, xs) = g {
            if n.rust == "Box" {
                return self.by_name(&xs[0]);
            }
        }
        let key = format!("arg {:?}", g);
        if let Some(i) = self.at.get(&key) {
            return *i;
        }
        let i = self.out.len();
        self.at.insert(key, i);
        self.out.push(String::new());
        self.out[i] = match g {
            Gty::Prim(n, _) => format!("{{\"k\":\"prim\",\"name\":\"{}\"}}", n.cs()),
            Gty::Ref(n, xs) => match n.rust.as_str() {
                "Bytes" => "{\"k\":\"bytes\"}".to_string(),
                "Option" => format!("{{\"k\":\"opt\",\"of\":{}}}", self.by_name(&xs[0])),
                "Vec" => format!("{{\"k\":\"vec\",\"of\":{}}}", self.by_name(&xs[0])),
                "List" => format!("{{\"k\":\"list\",\"of\":{}}}", self.by_name(&xs[0])),
                "Map" => format!("{{\"k\":\"map\",\"of\":{}}}", self.by_name(xs.last().unwrap())),
                name => {
                    let args: Vec<String> = xs.iter().map(|x| self.by_name(x).to_string()).collect();
                    let builtin = self.msgs.get(name).is_some_and(|d| d.builtin);
                    let full = format!("{}.{}", if builtin { "Steit.Builtins" } else { "Zoo" }, n.cs());
                    // never looked into
                    format!("{{\"k\":\"type\",\"full\":{},\"args\":[{}]}}", js(&full), args.join(","))
                }
            },
            Gty::Param(p) => panic!("harness: the parameter {} is open", p),
        };
        i
    }
}

fn val(ty: &Ty, v: &Val, out: &mut String) {
    let many = |out: &mut String, xs: &mut dyn Iterator<Item = (&Ty, &Val)>| {
        out.push('[');
        for (i, (t, x)) in xs.enumerate() {
            if i > 0 {
                out.push(',');
            }
            val(t, x, out);
        }
        out.push(']');
    };
    match (ty, v) {
        (Ty::Boxed(t), v) => val(t, v, out),
        (_, Val::Bool(b)) => out.push_str(if *b { "true" } else { "false" }),
        (_, Val::U(x)) => out.push_str(&format!("\"{}\"", x)),
        (_, Val::I(x)) => out.push_str(&format!("\"{}\"", x)),
        (_, Val::Str(x)) => out.push_str(&format!("\"{}\"", hex(x.as_bytes()))),
        (_, Val::Bytes(x)) => out.push_str(&format!("\"{}\"", hex(x))),
        (Ty::Opt(_), Val::Opt(None)) => out.push_str("null"),
        (Ty::Opt(t), Val::Opt(Some(x))) => many(out, &mut std::iter::once((&**t, &**x))),
        (Ty::Vec(t) | Ty::Arr(_, t) | Ty::List(t), Val::Seq(xs)) => many(out, &mut xs.iter().map(|x| (&**t, x))),
        (Ty::Map(_, t), Val::Map(xs)) => {
            out.push('[');
            for (i, (k, x)) in xs.iter().enumerate() {
                out.push_str(&format!("{}[{},", if i > 0 { "," } else { "" }, k));
                val(t, x, out);
                out.push(']');
            }
            out.push(']');
        }
        (Ty::Msg(id), Val::Msg(vi, fs)) => {
            out.push_str(&format!("[{},", vi));
            many(out, &mut def(*id).vars[*vi].fields.iter().map(|f| &f.ty).zip(fs));
            out.push(']');
        }
        (t, v) => panic!("harness: {:?} of type {:?}", v, t),
    }
}

fn val_text(ty: &Ty, v: &Val) -> String {
    let mut o = String::new();
    val(ty, v, &mut o);
    o
}

/// A type of the zoo that the client knows.
fn pick(cx: &mut Cx, state: bool) -> Option<(usize, &'static dyn Target)> {
    let env = cx.env;
    let all: Vec<(usize, &'static dyn Target, &'static str)> = with_client(env, |c| {
        c.units.metas.iter().enumerate().filter(|(_, (_, t))| !state || t.is_state()).map(|(i, (m, t))| (i, *t, m.src)).collect()
    });
    if all.is_empty() {
        return None;
    }
    let (i, t, src) = *cx.s.pick(&all);
    let old = cx.s.chance(1, 4);
    cx.note(|| format!("type {}{}", src, if old { " in an older version" } else { "" }));
    cx.label_if(old, "older client");
    Some((2 * i + old as usize, t))
}

/// Sends a request; the number of events raised, None if the interpreter does not know what it met.
fn send(cx: &mut Cx, i: usize, req: &str) -> Result<Option<u64>, String> {
    let a = with_client(cx.env, |c| match c.root(i) {
        Answer::Ok(_) => c.run(req),
        a => a,
    });
    match a {
        Answer::Ok(n) => Ok(Some(n)),
        Answer::Bad(m) => Err(m),
        Answer::Skip(m) => {
            cx.note(|| format!("not executed: {}", m));
            cx.label("not executed");
            Ok(None)
        }
    }
}

// ---------------------------------------------------------------- C30

/// A path for a root that is a part of something else, in the ways of loading that take one.
fn base_for(cx: &mut Cx, how: usize) -> Vec<u32> {
    if (how == 0 || how == 3) && cx.s.chance(1, 3) {
        cx.label("a root with a path");
        (0..1 + cx.s.below(3)).map(|_| gen_u(&mut cx.s, 32) as u32).collect()
    } else {
        vec![]
    }
}

fn request(i: usize, snap: &[u8], how: usize, base: &[u32], events: bool, ty: &Ty, v: &Val, steps: &[String]) -> String {
    format!(
        "{{\"op\":\"run\",\"id\":{},\"snap\":\"{}\",\"how\":{},\"base\":{:?},\"events\":{},\"val\":{},\"steps\":[{}]}}",
        i,
        hex(snap),
        how,
        base,
        events,
        val_text(ty, v),
        steps.join(",")
    )
}

fn c30(cx: &mut Cx, budget: u32) -> Out {
    let Some((i, t)) = pick(cx, false) else { return Ok(()) };
    let ty = t.ty();
    let v = gen_val(&mut cx.s, &ty);
    let mut n = if budget == 0 { Noise::new(0) } else { Noise::with_padding(budget, &mut cx.s) };
    n.repeats = true;
    let b = if budget == 0 { t.build(&v).to_bytes() } else { noisy(&mut cx.s, &ty, &v, &mut n) };
    let how = cx.s.idx(if t.is_state() { 4 } else { 3 });
    let base = base_for(cx, how);
    cx.note(|| format!("{:?} as {} in way {} at {:?}", v, hex(&b), how, base));
    cx.label_if(n.unknown > 0, "unknown fields");
    cx.label_if(n.mistyped > 0, "mistyped fields");
    cx.label_if(n.padded > 0, "padded varints");
    cx.label_if(n.repeated > 0, "repeated fields");
    if send(cx, i, &request(i, &b, how, &base, false, &ty, &v, &[]))?.is_some() {
        cx.nontrivial = v.nodes() >= 4 || n.total() > 0;
    }
    Ok(())
}

fn c30_plain(cx: &mut Cx) -> Out {
    c30(cx, 0)
}

fn c30_noisy(cx: &mut Cx) -> Out {
    let n = 1 + cx.s.below(6) as u32;
    c30(cx, n)
}

/// A prefix of an encoding: what is whole is read, what is not raises an exception.
fn c30_truncated(cx: &mut Cx) -> Out {
    let Some((i, t)) = pick(cx, false) else { return Ok(()) };
    let ty = t.ty();
    let v = gen_val(&mut cx.s, &ty);
    let mut n = Noise::new(cx.s.below(4) as u32);
    let mut b = noisy(&mut cx.s, &ty, &v, &mut n);
    b.truncate(cx.s.idx(b.len() + 1));
    let how = cx.s.idx(3);
    cx.note(|| format!("{:?} cut to {} in way {}", v, hex(&b), how));
    let (v, fail) = match decode(&ty, &b) {
        Ok(v) => (v, false),
        Err(E::Bad(m)) if m.starts_with("end of input") => (v, true),
        Err(_) => return Ok(()),
    };
    let mut arrays = false;
    walk_ty(&ty, &mut vec![], &mut |t| arrays |= matches!(t, Ty::Arr(..)));
    if arrays && !fail {
        // a short array is padded; the client knows it as a vector
        return Ok(());
    }
    let mut req = request(i, &b, how, &[], false, &ty, &v, &[]);
    if fail {
        req = format!("{{\"fail\":true,{}", &req[1..]);
        cx.label("an exception is due");
    }
    if send(cx, i, &req)?.is_some() {
        cx.nontrivial = fail && b.len() > 2;
    }
    Ok(())
}

// ---------------------------------------------------------------- C29

fn frame(bytes: &[u8], kind: &str, path: &[u32], key: Option<u32>) -> String {
    let p: Vec<String> = path.iter().map(|x| x.to_string()).collect();
    let k = key.map(|k| format!(",{}", k)).unwrap_or_default();
    format!("{{\"b\":\"{}\",\"e\":[\"{}\",[{}]{}]}}", hex(bytes), kind, p.join(","), k)
}

fn entry(e: &Entry, bytes: &[u8]) -> String {
    match e {
        Entry::Update(p, _) => frame(bytes, "update", p, None),
        Entry::Push(p, _) => frame(bytes, "push", p, None),
        Entry::Pop(p) => frame(bytes, "pop", p, None),
        Entry::Remove(p, k) => frame(bytes, "remove", p, Some(*k)),
    }
}

/// An entry that cannot be applied: a pop of an empty list, an item past the end, an absent key.
fn misfit(cx: &mut Cx, live: &mut Live) -> Option<Entry> {
    for _ in 0..4 {
        let (p, ty) = some_place(cx, live);
        let mut v = default_val(&ty);
        live.x.node(&p, &mut |n| v = n.view());
        let mut path = log_path(&live.ty, &live.model, &p);
        match (strip(&ty), &v) {
            (Ty::List(_), Val::Seq(xs)) if xs.is_empty() && cx.s.bool() => return Some(Entry::Pop(path)),
            (Ty::List(t), Val::Seq(xs)) => {
                path.push((xs.len() as u32).saturating_add(if cx.s.bool() { 0 } else { gen_u(&mut cx.s, 29) as u32 }));
                return Some(Entry::Update(path, encode(t, &gen_small(&mut cx.s, t))));
            }
            (Ty::Map(bits, _), Val::Map(xs)) => {
                let k = gen_key(&mut cx.s, *bits);
                if xs.iter().all(|x| x.0 != k) {
                    return Some(Entry::Remove(path, k));
                }
            }
            _ => (),
        }
    }
    None
}

/// One history: the request for the client.
fn history(cx: &mut Cx, batches: bool) -> Out {
    let Some((i, t)) = pick(cx, true) else { return Ok(()) };
    let mut live: Live = construct(cx, t, &[])?;
    live.tap.pluck_bytes();
    let snap = if cx.s.bool() { live.x.to_bytes() } else { encode(&live.ty, &live.model) };
    let (how, first) = (cx.s.idx(4), live.model.clone());
    let base = base_for(cx, how);
    let events = cx.s.chance(3, 4);
    let noise = cx.s.chance(1, 4);
    let kit = kit(&[&live.rt.clone()]);
    let n = if batches { 3 + cx.s.below(16) } else { 2 + cx.s.below(10) };
    let (mut changed, mut steps, mut cleared) = (0, vec![], !events);
    for _ in 0..n {
        let before = live.model.clone();
        let mark = live.tap.len();
        let Some((p, op)) = gen_op(&mut cx.s, &live.ty, &live.model, &kit) else { break };
        cx.note(|| format!("{:?} at {:?}", op, p));
        live.apply(&p, &op);
        changed += (before != live.model) as u32;
        if batches && cx.s.chance(2, 3) {
            continue;
        }
        let frames: Vec<String> = if batches {
            vec![frame(&live.tap.pluck_bytes(), "batch", &[], None)]
        } else {
            let entries = live.tap.since(mark);
            live.tap.pluck_bytes();
            entries
                .iter()
                .map(|e| {
                    let b = if noise { noisy_entry(&mut cx.s, e, &mut Noise::new(2)) } else { e.framed() };
                    cx.note(|| format!("{:?}: {}", e, hex(&b)));
                    entry(e, &b)
                })
                .collect()
        };
        let clear = if !cleared && cx.s.chance(1, 12) {
            cleared = true;
            1 + cx.s.below(2)
        } else {
            0
        };
        steps.push(format!("{{\"clear\":{},\"frames\":[{}],\"val\":{}}}", clear, frames.join(","), val_text(&live.ty, &live.model)));
    }
    let mut torn = false;
    if batches {
        let mut b = live.tap.pluck_bytes();
        let whole = val_text(&live.ty, &live.model);
        if cx.s.chance(1, 4) {
            // an entry which did not arrive as a whole
            let mark = live.tap.len();
            if let Some((p, op)) = gen_op(&mut cx.s, &live.ty, &live.model, &kit) {
                live.apply(&p, &op);
                if let Some(e) = live.tap.since(mark).first() {
                    let e = e.framed();
                    b.extend(&e[..1 + cx.s.idx(e.len() - 1)]);
                    torn = true;
                    cx.note(|| format!("{:?} at {:?}, torn", op, p));
                    cx.label("torn log");
                }
            }
        }
        let b = frame(&b, "batch", &[], None);
        steps.push(format!("{{\"clear\":0,\"frames\":[{{\"torn\":{},{}],\"val\":{}}}", torn, &b[1..], whole));
    }
    let mut misfits = 0;
    while i % 2 == 0 && !torn && cx.s.chance(1, 3) {
        // an entry of a diverged server
        let Some(e) = misfit(cx, &mut live) else { break };
        cx.note(|| format!("{:?}, which does not apply", e));
        misfits += 1;
        let f = entry(&e, &e.framed());
        steps.push(format!("{{\"clear\":0,\"frames\":[{{\"torn\":2,{}],\"val\":{}}}", &f[1..], val_text(&live.ty, &live.model)));
    }
    live.same("the history")?;
    let req = request(i, &snap, how, &base, events, &live.ty, &first, &steps);
    if let Some(n) = send(cx, i, &req)? {
        cx.label_if(n > 0, "events compared");
        cx.label_if(noise, "noisy entries");
        cx.label_if(misfits > 0, "entries that do not apply");
        cx.nontrivial = changed >= 3;
    }
    Ok(())
}

fn c29_entries(cx: &mut Cx) -> Out {
    history(cx, false)
}

fn c29_batches(cx: &mut Cx) -> Out {
    history(cx, true)
}
