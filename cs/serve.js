'use strict';
// Serves requests of the harness, one JSON object per line: load a program, run a history on it.
// Answers with one line: `O <events>` when everything was as expected, `B <what was not>`, or
// `S <why>` when the text uses something that is not modelled.

const fs = require('fs');
const path = require('path');
const { parse, Unsupported } = require('./parse');
const { Program, CompileError } = require('./gen');
const { Runtime, Num, EnumVal, Obj, CsArray, Delegate, Thrown, Fuel, IllTyped } = require('./rt');

class Bad extends Error {}
const bad = m => { throw new Bad(m); };

const walk = d => fs.readdirSync(d, { withFileTypes: true }).sort((a, b) => a.name < b.name ? -1 : 1)
  .flatMap(e => e.isDirectory() ? walk(path.join(d, e.name)) : e.name.endsWith('.cs') ? [path.join(d, e.name)] : []);


// The library and the generated classes of one namespace.
class Code {
  constructor(req) {
    // a program keeps what it found out about the text in the tree
    const library = walk(req.lib).map(f => parse(fs.readFileSync(f, 'utf8'), path.relative(req.lib, f)));
    this.rt = new Runtime();
    this.prog = new Program(this.rt);
    this.rt.prog = this.prog;
    for (const a of library) this.prog.add(a);
    for (const [name, text] of req.files) this.prog.add(parse(text, name));
    this.prog.check();
  }
}

// A root type of such a program.
class Prog {
  constructor(code, types) {
    this.rt = code.rt;
    this.prog = code.prog;
    this.types = types;
    this.cs = [];
    this.replayer = this.cls('Steit.State.StateReplayer', []);
    this.factory = this.cls('Steit.State.StateFactory', []);
    this.reader = this.cls('Steit.Codec.ByteReader', []);
    this.pathT = this.cls('Steit.State.Path', []);
    this.instate = this.cls('Steit.State.IState', []);
  }
  cls(full, args) {
    const key = full + (args.length ? '`' + args.length : '');
    const def = this.prog.defs.find(d => d.full === key) || bad(`there is no class ${key}`);
    return this.rt.cls(def.id, args);
  }
  nested(T, name) {
    const def = T.def.nested.get(name + '`0') || bad(`${T.def.full} has no class ${name}`);
    return this.rt.cls(def.id, T.args);
  }
  // the C# type of a type of the schema
  type(i) {
    if (this.cs[i]) return this.cs[i];
    const t = this.types[i];
    const of = () => [this.type(t.of)];
    let T;
    switch (t.k) {
      case 'prim': T = this.rt.p[t.name]; break;
      case 'bytes': T = this.cls('Steit.Builtins.Bytes', []); break;
      case 'opt': T = this.cls('Steit.Builtins.Option', of()); break;
      case 'vec': T = this.cls('Steit.Collections.Vector', of()); break;
      case 'list': T = this.cls('Steit.Collections.StateList', of()); break;
      case 'map': T = this.cls('Steit.Collections.StateMap', of()); break;
      default: T = this.cls(t.full, t.args.map(a => this.type(a)));
    }
    return (this.cs[i] = T);
  }
  bytes(hex) {
    const a = [];
    for (let i = 0; i < hex.length; i += 2) a.push(new Num('Byte', parseInt(hex.substr(i, 2), 16)));
    return this.rt.new(this.reader, [new CsArray(this.rt.p.Byte, a)]);
  }
  get(o, ...names) {
    for (const n of names) if (this.rt.look(o.cls, n)) return this.rt.get(o, n);
    bad(`${this.rt.show(o.cls)} has no ${names[0]}`);
  }
  items(o) { return [...this.rt.iter(o)]; }
  pathOf(o) { const p = this.rt.get(o, 'Path'); return p === null ? 'null' : this.rt.str(p); }

  // ---- comparison and text of values
  // The first difference between an object and an expected value, or null. `at`: its path, null where
  // paths mean nothing.
  diff(i, o, v, at) {
    const t = this.types[i], rt = this.rt;
    const where = at === null ? '(inside a value)' : at === '' ? 'the root' : at;
    const show = x => x === undefined ? 'nothing' : x === null ? 'null' : typeof x === 'object' ? JSON.stringify(x) : String(x);
    const is = T => o instanceof Obj && o.cls === T ? null : `${where} is ${o === null ? 'null' : rt.show(rt.typeOfVal(o))}, not ${rt.show(T)}`;
    const node = () => {
      const e = is(this.type(i));
      if (e) return e;
      if (at !== null && this.pathOf(o) !== at) return `${where} reports the path ${this.pathOf(o)}`;
      return null;
    };
    const below = n => at === null ? null : `${at}/${n}`;
    switch (t.k) {
      case 'prim': {
        let got = o;
        if (t.name === 'String') { if (o === null) got = ''; else if (typeof o !== 'string') return is(rt.p.String) || 'not a string'; got = Buffer.from(got, 'utf8').toString('hex'); }
        else if (t.name === 'Boolean') { if (typeof o !== 'boolean') return is(rt.p.Boolean); }
        else { if (!(o instanceof Num) || o.t !== t.name) return is(rt.p[t.name]); got = String(o.v); }
        return got === v ? null : `${where} is ${show(t.name === 'String' ? JSON.stringify(o) : got)}, expected ${show(t.name === 'String' ? JSON.stringify(Buffer.from(v, 'hex').toString()) : v)}`;
      }
      case 'bytes': {
        const e = node();
        if (e) return e;
        const got = this.items(o).map(n => Number(n.v).toString(16).padStart(2, '0')).join('');
        return got === v ? null : `${where} is the bytes ${got}, expected ${v}`;
      }
      case 'opt': {
        const e = node();
        if (e) return e;
        const some = rt.get(o, 'IsSome');
        if (some !== (v !== null) || rt.get(o, 'IsNone') !== !some) return `${where} is ${some ? 'Some' : 'None'}, expected the other`;
        return some ? this.diff(t.of, rt.get(o, 'ValueOrDefault'), v[0], below(0)) : null;
      }
      case 'vec': case 'list': {
        const e = node();
        if (e) return e;
        const xs = this.items(o);
        if (Number(rt.get(o, 'Count').v) !== v.length || xs.length !== v.length) return `${where} has ${xs.length} items (Count ${rt.get(o, 'Count').v}), expected ${v.length}`;
        for (let k = 0; k < xs.length; k++) {
          const d = this.diff(t.of, xs[k], v[k], below(k));
          if (d) return d;
        }
        return t.k === 'list' && v.length ? this.wire(t.of, o, v.length - 1) : null;
      }
      case 'map': {
        const e = node();
        if (e) return e;
        const got = new Map(this.items(o).map(p => [Number(rt.get(p, 'Key').v), rt.get(p, 'Value')]));
        if (Number(rt.get(o, 'Count').v) !== v.length) return `${where} has the keys ${[...got.keys()]}, expected ${v.map(x => x[0])}`;
        for (const [k, x] of v) {
          if (!got.has(k)) return `${where} has the keys ${[...got.keys()]}, expected ${v.map(y => y[0])}`;
          const d = this.diff(t.of, got.get(k), x, below(k));
          if (d) return d;
        }
        return v.length ? this.wire(t.of, o, v[0][0]) : null;
      }
      case 'struct': {
        const e = node();
        return e || this.fields(t.fields, o, v[1], at);
      }
      case 'enum': {
        const e = node();
        if (e) return e;
        const want = t.vars[v[0]];
        const tag = Number(rt.get(o, 'Tag').v);
        if (tag !== want.tag) return `${where} is variant ${tag}, expected ${want.tag}`;
        const x = rt.get(o, 'Variant');
        const V = this.nested(this.type(i), want.name);
        if (!(x instanceof Obj) || x.cls !== V) return `${where} is of variant ${tag}, but its content is ${x === null ? 'null' : rt.show(rt.typeOfVal(x))}`;
        if (this.get(o, want.name + 'Variant') !== x) return `${want.name}Variant of ${where} is not its variant`;
        for (const u of t.vars) if (u !== want && this.get(o, u.name + 'Variant') !== null) return `${u.name}Variant of ${where} is not null`;
        if (at !== null && this.pathOf(x) !== `${at}/${tag}`) return `the variant of ${where} reports the path ${this.pathOf(x)}`;
        return this.fields(want.fields, x, v[1], below(tag));
      }
      default: throw new Error('kind ' + t.k);
    }
  }
  // what a container tells about its items: a wire type
  wire(i, o, tag) {
    const t = this.types[i], want = t.k === 'prim' && t.name !== 'String' ? 0 : 2;
    const w = this.rt.call(o, 'GetWireType', null, [new Num('UInt32', tag)]);
    return w instanceof EnumVal && Number(w.num.v) === want ? null : `GetWireType(${tag}) of a container of ${t.k} is ${w instanceof EnumVal ? w.num.v : w}, expected ${want}`;
  }
  fields(fs_, o, vs, at) {
    for (let k = 0; k < fs_.length; k++) {
      const f = fs_[k];
      if (f.skip) continue;
      const d = this.diff(f.of, this.get(o, ...f.names), vs[k], at === null ? null : `${at}/${f.tag}`);
      if (d) return d;
    }
    return null;
  }
  // a text that tells values apart
  image(i, o) {
    const t = this.types[i], rt = this.rt;
    const fields = (fs_, x) => fs_.map(f => f.skip ? '_' : this.image(f.of, this.get(x, ...f.names))).join(',');
    if (t.k === 'prim') return o === null ? '""' : typeof o === 'string' ? JSON.stringify(o) : o instanceof Num ? `${o.t} ${o.v}` : String(o);
    if (o === null) return 'null';
    switch (t.k) {
      case 'bytes': return this.items(o).map(n => n.v).join('.');
      case 'opt': return rt.get(o, 'IsSome') ? `Some(${this.image(t.of, rt.get(o, 'ValueOrDefault'))})` : 'None';
      case 'vec': case 'list': return `[${this.items(o).map(x => this.image(t.of, x)).join(',')}]`;
      case 'map': return `{${this.items(o).map(p => [Number(rt.get(p, 'Key').v), this.image(t.of, rt.get(p, 'Value'))]).sort((a, b) => a[0] - b[0]).map(x => x.join(':')).join(',')}}`;
      case 'struct': return `(${fields(t.fields, o)})`;
      case 'enum': {
        const tag = Number(rt.get(o, 'Tag').v), u = t.vars.find(x => x.tag === tag);
        return `${tag}(${u ? fields(u.fields, rt.get(o, 'Variant')) : '?'})`;
      }
      default: throw new Error('kind ' + t.k);
    }
  }
  // every node that has a type of its own in the schema: f(type index, object)
  each(i, o, f) {
    const t = this.types[i], rt = this.rt;
    if (t.k === 'prim' || o === null) return;
    f(i, o);
    const fields = (fs_, x) => { for (const g of fs_) if (!g.skip) this.each(g.of, this.get(x, ...g.names), f); };
    switch (t.k) {
      case 'opt': if (rt.get(o, 'IsSome')) this.each(t.of, rt.get(o, 'ValueOrDefault'), f); break;
      case 'vec': case 'list': for (const x of this.items(o)) this.each(t.of, x, f); break;
      case 'map': for (const p of this.items(o)) this.each(t.of, rt.get(p, 'Value'), f); break;
      case 'struct': fields(t.fields, o); break;
      case 'enum': { const tag = Number(rt.get(o, 'Tag').v), u = t.vars.find(x => x.tag === tag); if (u) fields(u.fields, rt.get(o, 'Variant')); break; }
      default:
    }
  }

  // ---- events
  handler(kind, type, log) {
    const rt = this.rt;
    const of = typeof type === 'function' ? type : () => type;
    return rt.del((sender, a) => {
      if (!(a instanceof Obj)) bad(`an event of kind ${kind} comes without arguments`);
      const g = n => rt.get(a, n);
      const e = { kind, sender, live: rt.depth };
      const image = x => this.image(of(), x);
      switch (kind) {
        case 'update': case 'replace': e.tag = Number(g('Tag').v); e.at = g('Container'); e.now = image(g('NewValue')); e.was = image(g('OldValue')); break;
        case 'push': case 'pop': e.tag = Number(g('Tag').v); e.at = g('List'); e[kind === 'push' ? 'now' : 'was'] = image(g('Item')); break;
        case 'insert': case 'remove': e.tag = Number(g('Tag').v); e.at = g('Map'); e[kind === 'insert' ? 'now' : 'was'] = image(g('Value')); break;
        case 'variant': e.tag = Number(g('NewTag').v); e.at = g('Container'); break;
        default:
      }
      log.push(e);
    });
  }
  // every closed class type in reach of the schema, with its static events
  classes(f) {
    const seen = new Set();
    this.types.forEach((t, i) => {
      // definitions that differ in boxes only are one class
      if (t.k !== 'struct' && t.k !== 'enum') return;
      if (seen.has(this.type(i))) return;
      seen.add(this.type(i));
      if (t.k === 'struct') f(this.type(i), t.fields, null);
      else if (t.k === 'enum') {
        f(this.type(i), [], i);
        for (const u of t.vars) f(this.nested(this.type(i), u.name), u.fields, null);
      }
    });
  }
  subscribe(log) {
    this.classes((T, fields, en) => {
      if (en !== null) this.rt.event(T, 'OnUpdate', '+', this.handler('variant', en, log));
      for (const g of fields) {
        if (g.gone) continue;
        const n = g.names.find(x => this.rt.look(T, `On${x}Update`)) || bad(`${T.def.full} has no event for ${g.names[0]}`);
        this.rt.event(T, `On${n}Update`, '+', this.handler('update', g.of, log));
      }
    });
  }
  unsubscribe(one) {
    this.classes((T, fields) => {
      if (one) for (const g of fields) { if (g.gone) continue; const n = g.names.find(x => this.rt.look(T, `On${x}Update`)); this.rt.scall(T, `Clear${n}UpdateHandlers`, null, []); }
      else this.rt.scall(T, 'ClearUpdateHandlers', null, []);
    });
    if (one) this.classes((T, f, en) => { if (en !== null) this.rt.scall(T, 'ClearUpdateHandlers', null, []); });
  }
  listen(root, log, seen) {
    this.each(0, root, (i, o) => {
      const t = this.types[i];
      if ((t.k !== 'list' && t.k !== 'map') || seen.has(o)) return;
      seen.add(o);
      const kinds = t.k === 'list' ? { OnUpdate: 'replace', OnPush: 'push', OnPop: 'pop' } : { OnUpdate: 'replace', OnInsert: 'insert', OnRemove: 'remove' };
      for (const n of Object.keys(kinds)) this.rt.event(o, n, '+', this.handler(kinds[n], t.of, log));
    });
  }
  unlisten(root) {
    this.each(0, root, (i, o) => {
      const t = this.types[i];
      const names = t.k === 'list' ? ['Update', 'Push', 'Pop'] : t.k === 'map' ? ['Update', 'Insert', 'Remove'] : [];
      for (const n of names) this.rt.call(o, `Clear${n}Handlers`, null, []);
    });
  }

  // The node at a path: {i: its type, o, fields?: of a struct or variant, en?: of an enum}, null if there is none
  find(root, path_) {
    const rt = this.rt;
    let n = this.view(0, root);
    for (const tag of path_) {
      if (n === null) return null;
      n = this.child(n, tag);
      if (n === null || n.i === null) continue;
      n = this.view(n.i, n.o);
    }
    void rt;
    return n;
  }
  view(i, o) {
    const t = this.types[i];
    return t.k === 'struct' ? { i, o, k: 'struct', fields: t.fields } : { i, o, k: t.k };
  }
  // what a node holds at a tag: {i, o}; i is null for a variant
  child(n, tag) {
    const rt = this.rt, t = n.i === null ? null : this.types[n.i];
    if (n.fields) {
      const f = n.fields.find(x => x.tag === tag && !x.skip);
      return f ? { i: f.of, o: this.get(n.o, ...f.names) } : null;
    }
    switch (n.k) {
      case 'list': { const xs = this.items(n.o); return tag >= 0 && tag < xs.length ? { i: t.of, o: xs[tag] } : null; }
      case 'map': { for (const p of this.items(n.o)) if (Number(rt.get(p, 'Key').v) === tag) return { i: t.of, o: rt.get(p, 'Value') }; return null; }
      case 'enum': {
        if (Number(rt.get(n.o, 'Tag').v) !== tag) return null;
        const u = t.vars.find(x => x.tag === tag);
        return u ? { i: null, o: rt.get(n.o, 'Variant'), k: 'struct', fields: u.fields } : null;
      }
      default: return null;
    }
  }

  load(hex, how, base) {
    const rt = this.rt, T = this.type(0), r = this.bytes(hex);
    const root = () => (base || []).reduce((p, tag) => rt.call(p, 'GetNested', null, [new Num('UInt32', tag)]), rt.sget(this.pathT, 'Root'));
    switch (how) {
      case 0: return rt.scall(this.factory, 'Deserialize', [T], [r, root()]);
      case 1: return rt.scall(this.factory, 'Deserialize', [T], [r]);
      case 2: if (T.kind === 'cls') return rt.scall(T, 'Deserialize', null, [r]); return rt.scall(this.factory, 'Deserialize', [T], [r]);
      default: {
        // an existing root is replaced by a snapshot
        const e = rt.scall(this.factory, 'Construct', [T], [root()]);
        if (!rt.is(e, this.instate)) return rt.scall(this.factory, 'Deserialize', [T], [r, root()]);
        const box = { v: e };
        rt.scall(this.replayer, 'Replay', [T], [box, this.bytes(this.frame(hex))]);
        return box.v;
      }
    }
  }
  // an update of the root
  frame(hex) {
    const varint = n => { const out = []; do { out.push((n & 0x7f) | (n > 0x7f ? 0x80 : 0)); n >>>= 7; } while (n); return out.map(b => b.toString(16).padStart(2, '0')).join(''); };
    const body = '00' + (hex.length ? '0a' + varint(hex.length / 2) + hex : '');
    return varint(body.length / 2) + body;
  }

  run(req) {
    const rt = this.rt;
    // large inputs take longer
    rt.fuel = 4e6 + 1000 * (req.snap.length + (req.steps || []).reduce((n, s) => n + s.frames.reduce((n, f) => n + f.b.length, 0), 0));
    rt.depth = 0;
    rt.out.length = rt.err.length = 0;
    const log = [];
    const seen = new WeakSet();
    let count = 0;
    this.unsubscribe(false);
    const guard = (what, f) => {
      try { return f(); } catch (e) {
        if (e instanceof Thrown) bad(`${what}: ${rt.describe(e)}`);
        if (e instanceof Fuel) bad(`${what}: it does not end`);
        throw e;
      }
    };
    let subscribed = !!req.events;
    if (subscribed) this.subscribe(log);
    const throws = (what, f) => {
      try { f(); } catch (e) {
        if (e instanceof Thrown) return;
        if (e instanceof Fuel) bad(`${what}: it does not end`);
        throw e;
      }
      bad(`${what}: no exception is thrown`);
    };
    if (req.fail) {
      throws('decoding a damaged encoding', () => this.load(req.snap, req.how, req.base));
      return 0;
    }
    const box = { v: guard('loading the snapshot', () => this.load(req.snap, req.how, req.base)) };
    const top = (req.base || []).map(x => `/${x}`).join('');
    const same = (v, what) => {
      const d = guard(what, () => this.diff(0, box.v, v, this.types[0].k === 'prim' ? null : top));
      if (d) bad(`${what}: ${d}${rt.err.length ? ` (it reported: ${rt.err.slice(-2).join(' / ')})` : ''}`);
    };
    same(req.val, 'after the snapshot');
    if (log.length) bad(`loading a snapshot raised ${log.length} events`);
    let k = 0;
    for (const s of req.steps) {
      if (s.clear && subscribed) {
        guard('clearing the handlers', () => { this.unsubscribe(s.clear === 2); this.unlisten(box.v); });
        subscribed = false;
      }
      for (const f of s.frames) {
        const what = `entry ${k++} ${JSON.stringify(f.e)}`;
        const [kind, path_] = f.e;
        let want = null;
        const apply = () => (f.torn ? throws : guard)(`replaying ${f.torn ? f.torn === 2 ? `${what}, which does not apply` : 'a torn log' : what}`, () => rt.scall(this.replayer, 'Replay', [this.type(0)], [box, this.bytes(f.b)]));
        if (subscribed && kind !== 'batch') {
          guard(what, () => this.listen(box.v, log, seen));
          log.length = 0;
          if (kind === 'update' && path_.length) {
            const n = this.find(box.v, path_.slice(0, -1)), tag = path_[path_.length - 1];
            if (n && n.i !== undefined) {
              const c = this.child(n, tag);
              if (n.k === 'map' && !c) want = { kind: 'insert', n, tag };
              else if (c && c.i !== null) want = { kind: n.fields ? 'update' : 'replace', n, tag, was: this.image(c.i, c.o) };
              else if (c) want = { kind: 'variant', n, tag };
            }
          } else if (kind !== 'update') {
            const n = this.find(box.v, path_);
            if (n && kind === 'push') want = { kind, n, tag: this.items(n.o).length };
            else if (n) {
              const tag = kind === 'pop' ? this.items(n.o).length - 1 : f.e[2];
              const c = this.child(n, tag);
              if (c) want = { kind, n, tag, was: this.image(c.i, c.o) };
            }
          }
          apply();
          if (want && want.kind !== 'pop' && want.kind !== 'remove' && want.kind !== 'variant') {
            const c = this.child(want.n, want.tag);
            if (!c) bad(`${what}: nothing is there afterwards`);
            want.now = this.image(c.i, c.o);
          }
          const tell = e => `${e.kind} ${e.tag}${e.was === undefined ? '' : ` of ${e.was}`}${e.now === undefined ? '' : ` to ${e.now}`}`;
          if (log.length !== (want ? 1 : 0)) bad(`${what} raised ${log.length} events (${log.map(tell).join('; ')}), expected ${want ? tell(want) : 'none'}`);
          if (want) {
            const e = log[0];
            count++;
            if (e.kind !== want.kind || e.tag !== want.tag || e.was !== want.was || e.now !== want.now) bad(`${what} raised ${tell(e)}, expected ${tell(want)}`);
            if (e.at !== want.n.o || e.sender !== want.n.o) bad(`${what} raised ${tell(e)} for another ${e.at !== want.n.o ? 'container' : 'sender'}`);
          }
        } else {
          log.length = 0;
          apply();
          if (!subscribed && log.length) bad(`${what} raised an event after the handlers were cleared`);
        }
      }
      same(s.val, `after ${s.frames.length} entries up to entry ${k - 1}`);
    }
    return count;
  }
}

const line = s => String(s).replace(/[\r\n]+/g, ' ').slice(0, 1500);
const codes = new Map();
const roots = new Map();
function answer(req) {
  try {
    switch (req.op) {
      case 'load': codes.set(req.code, new Code(req)); return 'O 0';
      case 'root': { const p = new Prog(codes.get(req.code), req.types); p.classes(() => undefined); roots.set(req.id, p); return 'O 0'; }
      default: return 'O ' + roots.get(req.id).run(req);
    }
  } catch (e) {
    if (e instanceof Bad) return 'B ' + line(e.message);
    if (e instanceof CompileError) return 'C ' + line(e.message);
    if (e instanceof Unsupported || e instanceof IllTyped) return 'S ' + line(e.message);
    if (e instanceof RangeError && /call stack/.test(e.message)) return 'S the recursion is too deep';
    if (e.constructor.name === 'SyntaxError_') return 'C ' + line(e.message);
    return 'X ' + line(e.stack);
  }
}

let buf = '';
process.stdin.setEncoding('latin1');
process.stdin.on('data', d => {
  buf += d;
  let i;
  while ((i = buf.indexOf('\n')) >= 0) {
    const l = buf.slice(0, i);
    buf = buf.slice(i + 1);
    if (l) process.stdout.write(answer(JSON.parse(l)) + '\n');
  }
});
process.stdin.on('end', () => process.exit(0));
void EnumVal; void Delegate;
