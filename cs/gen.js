'use strict';
// Compiles parsed C# into JavaScript functions over the runtime in rt.js. Typing is dynamic: values
// carry their C# types, and conversions happen where a declared type says so.

const { Unsupported } = require('./parse');

class CompileError extends Error {}
module.exports.CompileError = CompileError;

// ---------------------------------------------------------------- definitions

let nextId = 0;

class Def {
  constructor(name, ns, outer, kind, tparams, scope) {
    this.id = nextId++;
    this.name = name;
    this.ns = ns;
    this.outer = outer;
    this.kind = kind;
    this.own = tparams;
    this.tparams = outer ? outer.tparams.concat(tparams) : tparams;
    this.scope = scope;
    this.full = (outer ? outer.full + '+' : ns ? ns + '.' : '') + name + (tparams.length ? '`' + tparams.length : '');
    this.nested = new Map();
    this.bases = [];
    this.fields = [];      // fields, auto-properties and field-like events: {name, type, stat, init, kind}
    this.members = new Map(); // name -> {kind: 'field'|'prop'|'event'|'const', ...}
    this.methods = new Map(); // name -> [Method]
    this.ctors = [];
    this.sctors = [];
    this.indexers = [];
    this.items = null;     // of an enum
    this.delegate = null;
    this.statik = false;
  }
}

class Method {
  constructor(def, m, stat) {
    this.def = def;
    this.m = m;
    this.name = m.name;
    this.stat = stat;
    this.params = m.params;
    this.tparams = m.tparams || [];
    this.ext = m.params.length > 0 && m.params[0].ext;
    this.need = m.params.filter(p => !p.def && p.mod !== 'params').length;
    this.variadic = m.params.length > 0 && m.params[m.params.length - 1].mod === 'params';
    this._fn = null;
    this.ptype = null; // compiled lazily
  }
}

class Program {
  constructor(rt) {
    this.rt = rt;
    this.top = new Map();   // 'Ns.Name`arity' -> Def
    this.namespaces = new Set();
    this.ext = new Map();   // name -> [Method]
    this.defs = [];
    this.consts = [];       // hoisted types
    this.warnings = [];
  }

  add(ast) {
    const walk = (decls, ns, scopes) => {
      for (const d of decls) {
        if (d.k === 'ns') {
          let full = ns;
          for (const part of d.name) { full = full ? full + '.' + part : part; this.namespaces.add(full); }
          walk(d.decls, full, [{ ns: full, usings: d.usings }].concat(this.between(ns, d.name), scopes));
        } else this.declare(d, ns, null, scopes);
      }
    };
    walk(ast.decls, '', [{ ns: '', usings: ast.usings }]);
  }
  between(ns, name) {
    // the namespaces between the enclosing one and the one declared by a dotted name
    const out = [];
    let full = ns;
    for (const part of name.slice(0, -1)) { full = full ? full + '.' + part : part; out.unshift({ ns: full, usings: [] }); }
    return out;
  }

  declare(d, ns, outer, scope) {
    const tparams = d.tparams || [];
    const key = d.name + '`' + tparams.length;
    const table = outer ? outer.nested : this.top;
    const full = outer ? key : (ns ? ns + '.' : '') + key;
    let def = table.get(full);
    if (def && !(def.partial && d.mods.has('partial'))) throw new CompileError(`${def.full} is declared twice`);
    if (!def) {
      def = new Def(d.name, ns, outer, d.k, tparams, scope);
      table.set(full, def);
      this.defs.push(def);
    } else if (def.kind !== d.k) throw new CompileError(`${def.full} is declared as ${def.kind} and ${d.k}`);
    def.partial = d.mods.has('partial');
    if (d.mods.has('static')) def.statik = true;
    if (d.k === 'enum') { def.items = d.items; def.under = d.under; return; }
    if (d.k === 'delegate') { def.delegate = d; return; }
    for (const b of d.bases) def.bases.push({ ast: b, scope });
    const put = (name, m) => {
      if (def.members.has(name) || def.methods.has(name)) throw new CompileError(`${def.full} already contains a definition of ${name}`);
      if (name === def.name && def.kind !== 'interface') throw new CompileError(`${def.full}: a member cannot have the name of its class`);
      def.members.set(name, m);
    };
    for (const m of d.members) {
      m.scope = scope;
      m.def = def;
      const stat = (m.mods && m.mods.has('static')) || def.statik;
      switch (m.k) {
        case 'class': case 'struct': case 'interface': case 'enum': case 'delegate':
          if (def.members.has(m.name) || def.methods.has(m.name)) throw new CompileError(`${def.full} already contains a definition of ${m.name}`);
          this.declare(m, ns, def, scope);
          break;
        case 'field': {
          const konst = m.mods.has('const');
          const e = { kind: 'field', name: m.name, type: m.type, stat: stat || konst, init: m.init, konst, m };
          put(m.name, e);
          def.fields.push(e);
          break;
        }
        case 'event': {
          const e = { kind: m.add ? 'cevent' : 'event', name: m.name, type: m.type, stat, init: m.init || null, m };
          put(m.name, e);
          if (!m.add) def.fields.push(e);
          break;
        }
        case 'prop': {
          if (m.iface) { // explicit implementation: reachable when no other member has the name
            if (def.members.has(m.name)) break;
          }
          const e = { kind: m.auto && def.kind !== 'interface' ? 'auto' : 'prop', name: m.name, type: m.type, stat, init: m.init, m };
          if (m.auto && m.mods.has('abstract')) { e.kind = 'prop'; }
          put(m.name, e);
          if (e.kind === 'auto') def.fields.push(e);
          break;
        }
        case 'indexer': def.indexers.push(m); break;
        case 'ctor':
          if (m.mods.has('static')) def.sctors.push(m);
          else def.ctors.push(new Method(def, Object.assign(m, { name: '.ctor' }), false));
          break;
        case 'method': {
          if (def.members.has(m.name)) throw new CompileError(`${def.full} already contains a definition of ${m.name}`);
          if (m.name === def.name) throw new CompileError(`${def.full}: a member cannot have the name of its class`);
          const me = new Method(def, m, stat);
          if (!def.methods.has(m.name)) def.methods.set(m.name, []);
          const same = def.methods.get(m.name).find(o => !m.iface && !o.m.iface && o.tparams.length === me.tparams.length && o.params.length === me.params.length &&
            o.params.every((p, i) => JSON.stringify(strip(p.type)) === JSON.stringify(strip(me.params[i].type))));
          if (same && m.body && same.m.body) throw new CompileError(`${def.full} defines ${m.name} twice with the same parameters`);
          def.methods.get(m.name).push(me);
          if (me.ext) {
            if (!this.ext.has(m.name)) this.ext.set(m.name, []);
            this.ext.get(m.name).push(me);
          }
          break;
        }
        default: throw new CompileError('member ' + m.k);
      }
    }
  }

  // Compiles everything, so that an ill-formed text is found whether or not it is ever executed.
  check() {
    const rt = this.rt;
    for (const def of this.defs) {
      if (def.kind === 'enum') continue;
      const where = n => e => { if (e instanceof CompileError) e.message = `${def.full}.${n}: ${e.message}`; throw e; };
      for (const b of def.bases) new Ctx(this, def, b.scope, true).typeCode(b.ast);
      for (const [n, m] of def.members) {
        try { new Ctx(this, def, m.m.scope, true).typeCode(m.type); this.member(def, m); } catch (e) { where(n)(e); }
      }
      for (const [n, ms] of def.methods) for (const m of ms) { try { this.fn(m); } catch (e) { where(n)(e); } }
      for (const c of def.ctors) { try { this.fn(c); } catch (e) { where('.ctor')(e); } }
      for (const c of def.sctors) { try { this.sctor(def, c); } catch (e) { where('.cctor')(e); } }
      for (const ix of def.indexers) { try { this.indexer(def, ix); } catch (e) { where('this')(e); } }
      // the interfaces are implemented
      this.implemented(def);
    }
    void rt;
  }
  implemented(def) {
    if (def.kind === 'interface' || def.kind === 'delegate') return;
    for (const b of def.bases) {
      const r = new Ctx(this, def, b.scope, true).typeRef(b.ast);
      if (!r.def || r.def.kind !== 'interface') continue;
      for (const i of this.closure(r.def)) {
        for (const [n] of i.members) if (!this.has(def, n, 'members')) throw new CompileError(`${def.full} does not implement ${i.full}.${n}`);
        for (const [n, ms] of i.methods) {
          const mine = this.all(def, n);
          for (const m of ms) {
            if (!mine.some(x => x.params.length === m.params.length)) throw new CompileError(`${def.full} does not implement ${i.full}.${n}`);
          }
        }
      }
    }
  }
  closure(idef) {
    const out = [idef];
    for (const b of idef.bases) {
      const r = new Ctx(this, idef, b.scope, true).typeRef(b.ast);
      if (r.def) out.push(...this.closure(r.def));
    }
    return out;
  }
  baseDef(def) {
    if (def._base !== undefined) return def._base;
    def._base = null;
    def._bclBase = null;
    for (const b of def.bases) {
      const r = new Ctx(this, def, b.scope, true).typeRef(b.ast);
      if (r.def && r.def.kind !== 'interface') def._base = r.def;
      else if (r.bcl && !this.rt.isInterface(r.bcl)) def._bclBase = r.bcl;
    }
    return def._base;
  }
  bclBase(def) { this.baseDef(def); return def._bclBase; }
  has(def, n, what) {
    for (let d = def; d; d = this.baseDef(d)) {
      if (d[what].has(n)) return true;
      if (this.bclBase(d)) return this.rt.bclHas(this.bclBase(d), n);
    }
    return false;
  }
  all(def, n) {
    const out = [];
    for (let d = def; d; d = this.baseDef(d)) if (d.methods.has(n)) out.push(...d.methods.get(n));
    return out;
  }

  // ---- compilation of single members, on demand
  make(params, body) {
    const f = new Function('$', '$t', ...params, body);
    const rt = this.rt, t = this.rt.T;
    return (...a) => f(rt, t, ...a);
  }
  raw(params, body) {
    // a function with $ and $t bound
    return new Function('$', '$t', `return function(${params}) {${body}\n};`)(this.rt, this.rt.T);
  }
  fn(m) {
    if (m._fn) return m._fn;
    const def = m.def, ast = m.m;
    const cx = new Ctx(this, def, ast.scope, m.stat, m.tparams);
    const names = [];
    for (const p of ast.params) {
      const js = cx.declare(p.name, p.mod === 'ref' || p.mod === 'out');
      names.push(js);
    }
    m.ptype = ast.params.map(p => this.raw('C,M', 'return ' + cx.typeCode(p.type)));
    m.pdef = ast.params.map(p => p.def ? this.raw('C,M', `return $.co(${cx.typeCode(p.type)}, ${cx.constExpr(p.def, p.type)});`) : null);
    if (ast.ret) m.rtype = this.raw('C,M', 'return ' + cx.typeCode(ast.ret));
    const sig = ['C', 'M', 'self'].concat(names).join(',');
    if (m.name === '.ctor') {
      const i = ast.init;
      let code = '';
      if (i && i.which === 'this') code = `$.ctor(C, self, ${cx.args(i.args)});`;
      else code = `$.finit(C, self); $.basector(C, self, ${cx.args(i ? i.args : [])});`;
      m._fn = this.raw(sig, code + cx.fnBody(ast.body, null));
      return m._fn;
    }
    if (!ast.body) {
      m._fn = () => { throw this.rt.fail('NotImplementedException', `${def.full}.${m.name} has no body`); };
      return m._fn;
    }
    m._fn = this.raw(sig, cx.fnBody(ast.body, ast.ret));
    return m._fn;
  }
  member(def, e) {
    if (e.done) return e;
    e.done = true;
    const m = e.m;
    const cx = () => new Ctx(this, def, m.scope, e.stat);
    e.tfn = this.raw('C', 'const M = null; return ' + cx().typeCode(e.type));
    if (e.init) e.ifn = this.raw('C,self', `const M = null; return $.co(${cx().typeCode(e.type)}, ${new Ctx(this, def, m.scope, true).init(e.init, e.type)});`);
    if (e.kind === 'prop') {
      if (m.get) { const c = cx(); e.get = this.raw('C,self', 'const M = null;' + c.fnBody(m.get, e.type)); }
      if (m.set) { const c = cx(); const v = c.declare('value'); e.set = this.raw('C,self,' + v, 'const M = null;' + c.fnBody(m.set, null)); }
    } else if (e.kind === 'auto' && (m.get || m.set)) throw new Unsupported('half-automatic properties');
    if (e.kind === 'cevent') {
      for (const w of ['add', 'remove']) {
        const c = cx();
        const v = c.declare('value');
        e[w] = this.raw('C,self,' + v, 'const M = null;' + c.fnBody(m[w], null));
      }
    }
    return e;
  }
  sctor(def, m) {
    return m._fn || (m._fn = this.raw('C', 'const M = null, self = null;' + new Ctx(this, def, m.scope, true).fnBody(m.body, null)));
  }
  indexer(def, ix) {
    if (ix.done) return ix;
    ix.done = true;
    ix.ptype = ix.params.map(p => this.raw('C', 'const M = null; return ' + new Ctx(this, def, ix.scope, false).typeCode(p.type)));
    ix.tfn = this.raw('C', 'const M = null; return ' + new Ctx(this, def, ix.scope, false).typeCode(ix.type));
    if (ix.get) {
      const c = new Ctx(this, def, ix.scope, false);
      const ps = ix.params.map(p => c.declare(p.name));
      ix.gfn = this.raw('C,self,' + ps.join(','), 'const M = null;' + c.fnBody(ix.get, ix.type));
    }
    if (ix.set) {
      const c = new Ctx(this, def, ix.scope, false);
      const ps = ix.params.map(p => c.declare(p.name)).concat(c.declare('value'));
      ix.sfn = this.raw('C,self,' + ps.join(','), 'const M = null;' + c.fnBody(ix.set, null));
    }
    return ix;
  }
}

function strip(x) {
  // a type without its line numbers
  if (Array.isArray(x)) return x.map(strip);
  if (x && typeof x === 'object') {
    const o = {};
    for (const k of Object.keys(x)) if (k !== 'line') o[k] = strip(x[k]);
    return o;
  }
  return x;
}

// ---------------------------------------------------------------- code

class Ctx {
  constructor(prog, def, scope, stat, tparams) {
    this.p = prog;
    this.def = def;
    this.scope = scope;
    this.stat = stat;
    this.mparams = tparams || [];
    this.locals = [new Map()];
    this.n = 0;
    this.labels = [];     // {brk, cont}
    this.checked = false;
    this.hole = null;
    this.iterator = false;
    this.lamret = [];
  }
  fail(m, node) { throw new CompileError((node && node.line ? `line ${node.line}: ` : '') + m); }
  // a name that nothing here declares may still be one of the parts of the class library that are not modelled
  unknown(name, m, node) {
    if (!/^[A-Z]/.test(name) || this.p.defs.some(d => d.name === name)) this.fail(m, node);
    throw new Unsupported(m);
  }
  fresh(p) { return `${p}${this.n++}`; }
  declare(name, byref) {
    const js = `v${this.n++}_${name.replace(/[^A-Za-z0-9_]/g, '_')}`;
    const top = this.locals[this.locals.length - 1];
    if (top.has(name)) this.fail(`${name} is declared twice`);
    top.set(name, { js, byref: !!byref });
    return js;
  }
  push() { this.locals.push(new Map()); }
  pop() { this.locals.pop(); }
  local(name) {
    for (let i = this.locals.length - 1; i >= 0; i--) if (this.locals[i].has(name)) return this.locals[i].get(name);
    return null;
  }

  // ---- types
  // {code, def?, bcl?, prim?}
  typeRef(t) {
    const p = this.p, rt = p.rt;
    switch (t.k) {
      case 'prim': return { code: `$.p.${t.name}`, prim: t.name };
      case 'nullable': { const r = this.typeRef(t.of); return { code: `$.nullable(${r.code})` }; }
      case 'array': { const r = this.typeRef(t.of); return { code: this.hoist(`$.arr(${r.code})`) }; }
      case 'tuple': return { code: this.hoist(`$.tup([${t.elems.map(e => this.typeCode(e.type))}], ${JSON.stringify(t.elems.map(e => e.name))})`) };
      case 'name': break;
      default: this.fail('type ' + t.k);
    }
    let cur = null;
    for (let i = 0; i < t.parts.length; i++) {
      const part = t.parts[i];
      const next = i === 0 ? this.lookupType(part, t) : cur.ns !== undefined ? this.inNamespace(cur.ns, part) : cur.def ? this.nestedIn(cur, part) : null;
      if (!next) this.unknown(part.id, `the type or namespace ${t.parts.slice(0, i + 1).map(x => x.id + (x.args.length ? '`' + x.args.length : '')).join('.')} does not exist`, t);
      cur = next;
    }
    if (cur.ns !== undefined) this.fail(`${cur.ns} is a namespace`, t);
    void rt;
    return cur;
  }
  typeCode(t) { return this.typeRef(t).code; }
  hoist(code) {
    if (/\b[CM]\b/.test(code.replace(/\$\.(p|cls|bcl|arr|tup|nullable)\b/g, ''))) return code;
    if (!/^\$\.(cls|bcl|arr|tup)/.test(code)) return code;
    const c = this.p.consts;
    let i = c.indexOf(code);
    if (i < 0) { i = c.length; c.push(code); this.p.rt.T.push(new Function('$', '$t', 'return ' + code)); }
    return `$.t(${i})`;
  }
  defType(def, args, outerCode) {
    // args: codes of the own arguments; outerCode: codes of the outer ones
    const all = outerCode.concat(args);
    return { code: this.hoist(`$.cls(${def.id}, [${all.join(',')}])`), def, all };
  }
  args_(part) { return part.args.map(a => a ? this.typeCode(a) : '$.p.Object'); }
  lookupType(part, t) {
    const { id, args } = part;
    if (!args.length) {
      const mi = this.mparams.indexOf(id);
      if (mi >= 0) return { code: `M[${mi}]`, param: true };
      const ci = this.def ? this.def.tparams.lastIndexOf(id) : -1;
      if (ci >= 0) return { code: `C.args[${ci}]`, param: true };
    }
    const key = id + '`' + args.length;
    for (let d = this.def; d; d = d.outer) {
      if (d.name === id && d.own.length === args.length && !d.outer) break; // found below as a top-level type
      const n = this.nestedOf(d, key);
      if (n) return this.defType(n, this.args_(part), this.outerArgs(n.outer));
    }
    for (const s of this.scope) {
      const r = this.inNamespace(s.ns, part);
      if (r) return r;
      for (const u of s.usings) {
        if (u.alias === id && !args.length) return new Ctx(this.p, null, [{ ns: '', usings: [] }], true).aliasRef(u.type);
      }
      const found = [];
      for (const u of s.usings) {
        if (u.alias || u.st) continue;
        const ns = u.type.parts.map(x => x.id).join('.');
        const r2 = this.inNamespace(ns, part, true);
        if (r2 && r2.ns === undefined && !found.some(f => f.code === r2.code)) found.push(r2);
      }
      if (found.length > 1) this.fail(`${id} is ambiguous`, t);
      if (found.length) return found[0];
    }
    return null;
  }
  aliasRef(t) {
    try { return this.typeRef(t); } catch (e) {
      if (t.k === 'name') return { ns: t.parts.map(x => x.id).join('.') };
      throw e;
    }
  }
  nestedOf(d, key) {
    for (let x = d; x; x = this.baseOf(x)) if (x.nested.has(key)) return x.nested.get(key);
    return null;
  }
  baseOf(d) {
    if (d._resolving) return null;
    d._resolving = true;
    try { return this.p.baseDef(d); } finally { d._resolving = false; }
  }
  outerArgs(outer) {
    // the arguments of an enclosing (or inherited) generic class, as seen from here
    if (!outer) return [];
    return outer.tparams.map((_, i) => `C.args[${i}]`);
  }
  nestedIn(cur, part) {
    const n = this.nestedOf(cur.def, part.id + '`' + part.args.length);
    return n ? this.defType(n, this.args_(part), cur.all) : null;
  }
  inNamespace(ns, part, typesOnly) {
    const full = (ns ? ns + '.' : '') + part.id;
    const d = this.p.top.get(full + '`' + part.args.length);
    if (d) return this.defType(d, this.args_(part), []);
    const b = this.p.rt.bclType(full, part.args.length);
    if (b) {
      if (b.prim) return { code: `$.p.${b.prim}`, prim: b.prim };
      return { code: this.hoist(`$.bcl(${JSON.stringify(b.key)}, [${this.args_(part)}])`), bcl: b };
    }
    if (!typesOnly && !part.args.length && (this.p.namespaces.has(full) || this.p.rt.isNamespace(full))) return { ns: full };
    return null;
  }

  // ---- functions
  fnBody(body, ret) {
    if (!body) return '';
    this.ret = ret;
    const iter = ret && hasYield(body);
    const saved = this.iterator;
    this.iterator = iter;
    const rc = ret && !(ret.k === 'prim' && ret.name === 'Void') ? this.typeCode(ret) : null;
    let code;
    if (body.k === 'arrow') code = rc ? `return $.co(${rc}, ${this.expr(body.e)});` : `${this.stmtExpr(body.e)};`;
    else {
      this.retCode = rc;
      code = this.block(body);
      if (iter) code = `return $.seq(${rc}, function*() {${code}});`;
    }
    this.iterator = saved;
    return '$.tick();' + code;
  }
  block(b) {
    this.push();
    // local functions are visible throughout
    for (const s of b.stmts) if (s.k === 'localfn') { s.js = this.declare(s.name); this.local(s.name).fn = s; }
    const code = b.stmts.map(s => this.stmt(s)).join('\n');
    this.pop();
    return `{${code}}`;
  }
  stmt(s) {
    switch (s.k) {
      case 'block': return this.block(s);
      case 'empty': return '';
      case 'expr': return this.stmtExpr(s.e) + ';';
      case 'local': return s.vars.map(v => {
        if (s.type.k === 'var') {
          if (!v.init) this.fail('an implicitly typed variable needs a value', s);
          const e = this.expr(v.init);
          return `let ${this.declare(v.name)} = $.val(${e});`;
        }
        const t = this.typeCode(s.type);
        const e = v.init ? `$.co(${t}, ${this.init(v.init, s.type)})` : null;
        const js = this.declare(v.name);
        this.local(v.name).type = t;
        return e ? `let ${js} = ${e};` : `let ${js};`;
      }).join('');
      case 'localfn': {
        const cx = this;
        this.push();
        const saved = [this.ret, this.retCode, this.iterator, this.labels, this.mparams];
        this.labels = [];
        if (s.tparams.length) throw new Unsupported('generic local functions');
        const ps = s.params.map(p => this.declare(p.name, p.mod === 'ref' || p.mod === 'out'));
        const co = s.params.map((p, i) => p.mod ? '' : `${ps[i]} = $.co(${this.typeCode(p.type)}, ${ps[i]}${p.def ? ` === undefined ? ${this.expr(p.def)} : ${ps[i]}` : ''});`).join('');
        const body = this.fnBody(s.body, s.ret);
        [this.ret, this.retCode, this.iterator, this.labels, this.mparams] = saved;
        this.pop();
        void cx;
        return `var ${s.js} = $.del((${ps.join(',')}) => {${co}${body}});`;
      }
      case 'if': return `if (${this.cond(s.c)}) {${this.scoped(s.then)}}` + (s.els ? ` else {${this.scoped(s.els)}}` : '');
      case 'while': return this.loop(l => `${l}: while (${this.cond(s.c)}) { $.tick(); ${this.scoped(s.body)} }`);
      case 'do': return this.loop(l => `${l}: do { $.tick(); ${this.scoped(s.body)} } while (${this.cond(s.c)});`);
      case 'for': {
        this.push();
        const init = s.init.map(x => this.stmt(x)).join('');
        const c = s.c ? this.cond(s.c) : 'true';
        const code = this.loop(l => {
          const body = this.scoped(s.body);
          return `${l}: for (; ${c}; ${s.step.map(x => this.stmtExpr(x)).join(', ')}) { $.tick(); ${body} }`;
        });
        this.pop();
        return `{${init}${code}}`;
      }
      case 'foreach': {
        const e = this.expr(s.e);
        this.push();
        const it = this.fresh('it');
        let bind;
        if (s.targets) bind = this.deconstruct(s.targets, it);
        else {
          const t = s.type.k === 'var' ? null : this.typeCode(s.type);
          bind = `let ${this.declare(s.name)} = ${t ? `$.cast(${t}, ${it})` : it};`;
        }
        const code = this.loop(l => `${l}: for (const ${it} of $.iter(${e})) { $.tick(); ${bind} ${this.scoped(s.body)} }`);
        this.pop();
        return code;
      }
      case 'switch': return this.switch_(s);
      case 'break': {
        const l = this.labels[this.labels.length - 1];
        if (!l) this.fail('break outside a loop', s);
        return `break ${l.brk};`;
      }
      case 'continue': {
        const l = [...this.labels].reverse().find(x => x.cont);
        if (!l) this.fail('continue outside a loop', s);
        return `continue ${l.cont};`;
      }
      case 'return':
        if (!s.e) return 'return;';
        return this.retCode ? `return $.co(${this.retCode}, ${this.expr(s.e)});` : this.inLambda ? `return ${this.expr(s.e)};` : this.fail('a value is returned from a function without one', s);
      case 'yield': return `yield ${this.expr(s.e)};`;
      case 'yieldbreak': return 'return;';
      case 'throw': return s.e ? `throw $.thrown(${this.expr(s.e)});` : `throw ${this.caught || this.fail('nothing to rethrow', s)};`;
      case 'try': {
        let code = `try ${this.block(s.body)}`;
        if (s.catches.length) {
          const x = this.fresh('x');
          let inner = '';
          for (const c of s.catches) {
            this.push();
            const saved = this.caught;
            this.caught = x;
            let test = c.type ? `$.is(${x}.value, ${this.typeCode(c.type)})` : 'true';
            let bind = '';
            if (c.name) { const js = this.declare(c.name); bind = `let ${js} = ${x}.value;`; }
            if (c.when) test = `(() => { if (!(${test})) return false; ${bind} return ${this.cond(c.when)}; })()`;
            inner += `if (${test}) {${bind}${this.block(c.body)}} else `;
            this.caught = saved;
            this.pop();
          }
          code += ` catch (${x}_) { const ${x} = $.catchable(${x}_); ${inner} throw ${x}; }`;
        }
        if (s.fin) code += ` finally ${this.block(s.fin)}`;
        return code;
      }
      case 'using': {
        this.push();
        const d = this.fresh('u');
        const init = s.init.k === 'local' ? this.stmt(s.init) + `const ${d} = ${this.local(s.init.vars[0].name).js};` : `const ${d} = ${this.expr(s.init.e)};`;
        const code = `{${init} try {${this.scoped(s.body)}} finally { if (${d} !== null) $.call(${d}, 'Dispose', null, []); }}`;
        this.pop();
        return code;
      }
      case 'checked': {
        const saved = this.checked;
        this.checked = s.on;
        const code = this.block(s.body);
        this.checked = saved;
        return code;
      }
      case 'deconstruct': {
        const x = this.fresh('d');
        const e = this.expr(s.e);
        // declared names live on in the enclosing block
        return `const ${x} = ${e}; ${this.deconstruct(s.targets, x)}`;
      }
      default: this.fail('statement ' + s.k, s);
    }
    return '';
  }
  scoped(s) {
    if (s.k === 'block') return this.block(s);
    this.push();
    const code = this.stmt(s);
    this.pop();
    return code;
  }
  deconstruct(targets, x) {
    const parts = this.fresh('p');
    let code = `const ${parts} = $.parts(${x}, ${targets.length});`;
    targets.forEach((t, i) => {
      const v = `${parts}[${i}]`;
      if (t.decl) {
        if (t.name === '_') return;
        const type = t.type && t.type.k !== 'var' ? this.typeCode(t.type) : null;
        code += `let ${this.declare(t.name)} = ${type ? `$.co(${type}, ${v})` : v};`;
      } else if (t.e.k === 'name' && t.e.name === '_' && !this.local('_')) {
        // discarded
      } else code += this.assign(t.e, v) + ';';
    });
    return code;
  }
  loop(f) {
    const l = this.fresh('L');
    this.labels.push({ brk: l, cont: l });
    const code = f(l);
    this.labels.pop();
    return code;
  }
  switch_(s) {
    const l = this.fresh('S'), x = this.fresh('s'), e = this.expr(s.e);
    this.labels.push({ brk: l });
    this.push();
    // every section shares the scope of the switch block; pattern variables belong to their section
    let decls = '', tests = '', dflt = null;
    const bodies = [];
    s.sections.forEach((sec, i) => {
      this.push();
      const conds = [];
      for (const lab of sec.labels) {
        if (lab.k === 'default') { dflt = i; continue; }
        const [c, vars] = this.pattern(lab.pat, x);
        decls += vars.map(v => `let ${v};`).join('');
        conds.push(lab.when ? `(${c} && ${this.cond(lab.when)})` : c);
      }
      this.pushNone();
      const code = sec.stmts.map(st => this.stmt(st)).join('\n');
      this.popNone();
      this.pop();
      const last = sec.stmts[sec.stmts.length - 1];
      if (!last || !ends(last)) this.fail('control falls through a case', s);
      bodies.push(code);
      if (conds.length) tests += `if (${conds.join(' || ')}) ${x}k = ${i}; else `;
    });
    this.pop();
    this.labels.pop();
    return `${l}: { const ${x} = ${e}; let ${x}k; ${decls} ${tests} ${x}k = ${dflt === null ? -1 : dflt}; switch (${x}k) { ${bodies.map((b, i) => `case ${i}: {${b}}`).join('\n')} } }`;
  }
  pushNone() {}
  popNone() {}

  // ---- patterns: [condition, variables to declare]
  pattern(p, x) {
    const vars = [];
    const bind = (name, v) => {
      if (!name || name === '_') return 'true';
      const js = this.declare(name);
      vars.push(js);
      return `((${js} = ${v}), true)`;
    };
    const go = (q, v) => {
      switch (q.k) {
        case 'pany': return 'true';
        case 'pvar': return bind(q.name, v);
        case 'ptype': return `($.is(${v}, ${this.typeCode(q.type)}) && ${bind(q.name, v)})`;
        case 'pconst': {
          if (q.e.k === 'null') return `(${v} === null)`;
          const t = this.asType(q.e);
          if (t) return `$.is(${v}, ${t.code})`;
          return `$.eqc(${v}, ${this.expr(q.e)})`;
        }
        case 'prel': return `(${v} !== null && $.cmp(${JSON.stringify(q.op)}, ${v}, ${this.expr(q.e)}))`;
        case 'pnot': return `!(${go(q.a, v)})`;
        case 'pand': return `(${go(q.a, v)} && ${go(q.b, v)})`;
        case 'por': return `(${go(q.a, v)} || ${go(q.b, v)})`;
        case 'pprops': {
          const t = q.type ? `$.is(${v}, ${this.typeCode(q.type)})` : `(${v} !== null)`;
          return '(' + [t].concat(q.props.map(pp => go(pp.pat, `$.get(${v}, ${JSON.stringify(pp.name)})`))).concat(bind(q.name, v)).join(' && ') + ')';
        }
        default: return this.fail('pattern ' + q.k);
      }
    };
    const c = go(p, x);
    return [c, vars];
  }

  // ---- expressions
  init(e, type) {
    if (e.k === 'default' && !e.type) return `$.def(${this.typeCode(type)})`;
    if (e.k === 'newarr' && !e.of && type.k === 'array') return this.newarr(Object.assign({}, e, { of: type.of }));
    return this.expr(e);
  }
  constExpr(e, type) { return this.init(e, type); }
  cond(e) { return `$.bool(${this.expr(e)})`; }
  stmtExpr(e) {
    if (e.k === 'paren') return this.stmtExpr(e.e);
    if (e.k === 'assign' || e.k === 'call' || e.k === 'post' || e.k === 'pre' || e.k === 'new' || e.k === 'condacc' || e.k === 'throwx') {
      if (e.k === 'post') return this.expr(Object.assign({}, e, { k: 'pre' }));
      return this.expr(e);
    }
    return this.fail('only assignment, call, increment, decrement and new expressions can be statements', e);
  }
  args(args) {
    // code of an array of arguments; refs and names ride along
    const list = args.map(a => {
      if (a.decl) {
        const name = a.decl.name;
        if (name === '_') return '{ v: null }';
        const js = this.declareHere(name);
        return this.box(js, null);
      }
      if (a.mod) {
        if (a.e.k === 'name' && a.e.name === '_' && !this.local('_')) return '{ v: null }';
        return this.boxOf(a.e);
      }
      if (a.e.k === 'default' && !a.e.type) return '$.dflt';
      return this.expr(a.e);
    });
    const names = args.map(a => a.name || null);
    return `[${list.join(', ')}]` + (names.some(n => n) ? `, ${JSON.stringify(names)}` : '');
  }
  declareHere(name) {
    // an out variable: hoisted to the function by `var`
    const js = this.declare(name);
    this.hoisted = true;
    this.local(name).out = true;
    return js;
  }
  box(js) { return `{ get v() { return ${js}; }, set v(x) { $.outs; ${js} = x; } }`; }
  boxOf(e) {
    if (e.k === 'paren') return this.boxOf(e.e);
    if (e.k === 'name') {
      const l = this.local(e.name);
      if (l) return l.byref ? l.js : this.box(l.js);
    }
    return `{ get v() { return ${this.expr(e)}; }, set v(x) { ${this.assign(e, 'x')}; } }`;
  }
  // A simple name: {kind: 'local'|'member'|'type'|'ns'|...}
  name(e) {
    const l = this.local(e.name);
    if (l && !e.targs.length) return { kind: 'local', l };
    for (let d = this.def; d; d = d.outer) {
      const m = this.findMember(d, e.name);
      if (m) return { kind: 'member', d, m };
    }
    const t = this.tryType(e);
    if (t) return t.ns !== undefined ? { kind: 'ns', ns: t.ns } : { kind: 'type', t };
    for (const s of this.scope) for (const u of s.usings) {
      if (!u.st) continue;
      const r = new Ctx(this.p, null, [{ ns: '', usings: [] }], true).typeRef(u.type);
      if (r.def ? this.findMember(r.def, e.name) : r.bcl && this.p.rt.bclStatic(r.bcl, e.name)) return { kind: 'static', t: r };
    }
    return null;
  }
  tryType(e) {
    try { return this.lookupType({ id: e.name, args: e.targs || [] }, e); } catch (x) { if (x instanceof CompileError) return null; throw x; }
  }
  findMember(d, name) {
    for (let x = d; x; x = this.p.baseDef(x)) {
      if (x.members.has(name)) { const e = x.members.get(name); return { stat: e.stat, e, owner: x }; }
      if (x.methods.has(name)) { const ms = x.methods.get(name); return { stat: ms.every(m => m.stat), some: ms.some(m => m.stat), method: true, owner: x }; }
      if (x.kind === 'enum' && x.items.some(i => i.id === name)) return { stat: true, owner: x };
      const b = this.p.bclBase(x);
      if (b) return this.p.rt.bclHas(b, name) ? { stat: false, owner: x, bcl: true } : null;
    }
    if (d.kind === 'interface') for (const i of this.p.closure(d).slice(1)) {
      if (i.members.has(name) || i.methods.has(name)) return { stat: false, owner: i, method: i.methods.has(name) };
    }
    if (['ToString', 'Equals', 'GetHashCode', 'GetType', 'ReferenceEquals', 'MemberwiseClone'].includes(name)) return { stat: name === 'ReferenceEquals', owner: d, method: true, obj: true };
    return null;
  }
  selfOf(d, m, e) {
    // the object or class on which a member found in class d is to be used
    if (m.stat) {
      if (d === this.def) return { cls: m.owner === d ? 'C' : this.superCode(d, m.owner) };
      return { cls: this.outerCode(d, m.owner) };
    }
    if (d !== this.def) this.fail(`an object is needed to use ${e.name} of an enclosing class`, e);
    if (this.stat) {
      if (m.some) return { cls: 'C' };
      this.fail(`an object is needed to use ${e.name}`, e);
    }
    return { obj: 'self' };
  }
  superCode(d, owner) { return owner.tparams.length ? `$.superOf(C, ${owner.id})` : `$.cls(${owner.id}, [])`; }
  outerCode(d, owner) {
    if (owner !== d) return owner.tparams.length ? this.fail('statics of an inherited generic class') : `$.cls(${owner.id}, [])`;
    return this.defType(d, [], d.tparams.map((_, i) => `C.args[${i}]`)).code;
  }
  // An expression that may turn out to be a type: a type reference or null
  asType(e) {
    if (e.k === 'paren') return null;
    if (e.k === 'primname') return { code: `$.p.${e.name}`, prim: e.name };
    if (e.k === 'name') {
      const r = this.name(e);
      return r && r.kind === 'type' ? r.t : null;
    }
    if (e.k === 'member') {
      const a = this.head(e.a);
      if (a.ns !== undefined) {
        const r = this.inNamespace(a.ns, { id: e.name, args: e.targs });
        return r && r.ns === undefined ? r : null;
      }
      if (a.t && a.t.def) return this.nestedIn(a.t, { id: e.name, args: e.targs });
    }
    return null;
  }
  // What a member is accessed on: {v: code} | {t: type} | {ns}
  head(e, name) {
    if (e.k === 'primname') return { t: { code: `$.p.${e.name}`, prim: e.name } };
    if (e.k === 'name') {
      const r = this.name(e);
      if (!r) this.unknown(e.name, `the name ${e.name} does not exist here`, e);
      if (r.kind === 'ns') return { ns: r.ns };
      if (r.kind === 'type') return { t: r.t };
      // a value whose type has the same name: the type, if the member is a static one of it
      const t = this.tryType(e);
      if (t && t.ns === undefined) {
        const unusable = r.kind === 'member' && !r.m.stat && (this.stat || r.d !== this.def);
        const sameName = this.declaredAs(r, e.name);
        if (unusable && sameName !== false) return { t };
        if (sameName && name) {
          if (t.def) {
            const m = this.findMember(t.def, name);
            if ((m && m.stat) || this.nestedOf(t.def, name + '`0')) return { t };
          } else if (t.bcl && this.p.rt.bclStatic(t.bcl, name)) return { t };
          else if (t.prim && this.p.rt.primStatic(t.prim, name)) return { t };
        }
      }
      return { v: this.expr(e) };
    }
    if (e.k === 'member') {
      const a = this.head(e.a, e.name);
      if (a.ns !== undefined) {
        const r = this.inNamespace(a.ns, { id: e.name, args: e.targs });
        if (!r) this.unknown(e.name, `${a.ns}.${e.name} does not exist`, e);
        return r.ns !== undefined ? { ns: r.ns } : { t: r };
      }
      if (a.t && a.t.def) {
        const m = this.findMember(a.t.def, e.name);
        if (!(m && m.stat)) {
          const r = this.nestedIn(a.t, { id: e.name, args: e.targs });
          if (r) return { t: r };
        }
      }
    }
    return { v: this.expr(e) };
  }
  declaredAs(r, name) {
    // whether a variable or member is declared with a type of its own name
    if (r.kind === 'member' && r.m.e) {
      const t = r.m.e.type;
      return t.k === 'name' && t.parts[t.parts.length - 1].id === name || (t.k === 'prim' && t.name === name);
    }
    if (r.kind === 'local') return false;
    return true;
  }
  checkStatic(t, name, node) {
    // a static member that must exist
    if (t.def) {
      if (t.def.kind === 'enum') { if (!t.def.items.some(i => i.id === name)) this.fail(`${t.def.full} has no ${name}`, node); return; }
      const m = this.findMember(t.def, name);
      if (!m) this.fail(`${t.def.full} has no ${name}`, node);
      if (!m.stat && !m.some) this.fail(`an object is needed to use ${t.def.full}.${name}`, node);
    }
  }

  expr(e) {
    switch (e.k) {
      case 'int': return this.int(e);
      case 'real': return `$.dbl(${e.v})`;
      case 'str': return JSON.stringify(e.v);
      case 'char': return `$.chr(${e.v})`;
      case 'bool': return String(e.v);
      case 'null': return 'null';
      case 'paren': return this.expr(e.e);
      case 'interp': return '(' + e.parts.map(p => typeof p === 'string' ? JSON.stringify(p) : `$.fmt1(${this.expr(p.e)}, ${JSON.stringify(p.fmt)})`).join(' + ') + ')';
      case 'this':
        if (this.stat) this.fail('this in a static member', e);
        return 'self';
      case 'name': {
        const r = this.name(e);
        if (!r) this.unknown(e.name, `the name ${e.name} does not exist here`, e);
        if (r.kind === 'local') return r.l.byref ? r.l.js + '.v' : r.l.js;
        if (r.kind === 'member') {
          const s = this.selfOf(r.d, r.m, e);
          return s.cls ? `$.sget(${s.cls}, ${JSON.stringify(e.name)})` : `$.get(${s.obj}, ${JSON.stringify(e.name)})`;
        }
        if (r.kind === 'static') return `$.sget(${r.t.code}, ${JSON.stringify(e.name)})`;
        return this.fail(`${e.name} is a ${r.kind}, but is used like a value`, e);
      }
      case 'primname': return this.fail(`${e.name} is a type, but is used like a value`, e);
      case 'member': {
        if (e.a.k === 'base') return `$.baseget(C, self, ${JSON.stringify(e.name)})`;
        const h = this.head(e.a, e.name);
        if (h.ns !== undefined) this.fail(`${h.ns}.${e.name} is not a value`, e);
        if (h.t) {
          this.checkStatic(h.t, e.name, e);
          return `$.sget(${h.t.code}, ${JSON.stringify(e.name)})`;
        }
        return `$.get(${h.v}, ${JSON.stringify(e.name)})`;
      }
      case 'index': return `$.idx(${e.a.k === 'base' ? '$.base(C, self)' : this.expr(e.a)}, ${this.args(e.idx)})`;
      case 'call': return this.call(e);
      case 'new': return this.new_(e);
      case 'newarr': return this.newarr(e);
      case 'cast': {
        const r = this.typeRef(e.type);
        const t = r.code;
        if (r.param) return `$.unbox(${t}, ${this.expr(e.a)})`;
        return this.checked ? `$.castck(${t}, ${this.expr(e.a)})` : `$.cast(${t}, ${this.expr(e.a)})`;
      }
      case 'as': return `$.as(${this.expr(e.a)}, ${this.typeCode(e.type)})`;
      case 'is': {
        const x = this.fresh('i');
        const [c, vars] = this.isPattern(e.pat, x);
        void vars;
        return `((${x}) => ${c})(${this.expr(e.a)})`;
      }
      case 'typeof': return `$.typeOf(${this.typeCode(e.type)})`;
      case 'default': return e.type ? `$.def(${this.typeCode(e.type)})` : '$.dflt';
      case 'checkedx': {
        const saved = this.checked;
        this.checked = e.on;
        const code = this.expr(e.e);
        this.checked = saved;
        return code;
      }
      case 'cond': return `($.bool(${this.expr(e.c)}) ? ${this.expr(e.a)} : ${this.expr(e.b)})`;
      case 'bin': return this.bin(e);
      case 'un':
        if (e.op === '-' && e.a.k === 'int') return this.int(e.a, true);
        return `$.un(${JSON.stringify(e.op)}, ${this.expr(e.a)})`;
      case 'pre':
      case 'post': return this.step(e);
      case 'assign': return this.assignExpr(e);
      case 'lambda': return this.lambda(e);
      case 'tuplex': return `$.tuple([${e.items.map(i => this.expr(i.e)).join(', ')}], ${JSON.stringify(e.items.map(i => i.name || (i.e.k === 'member' || i.e.k === 'name' ? i.e.name : null)))})`;
      case 'throwx': return `$.throw_(${this.expr(e.e)})`;
      case 'hole': return this.hole;
      case 'condacc': {
        const h = this.fresh('h');
        const saved = this.hole;
        const a = this.expr(e.a);
        this.hole = h;
        const rest = this.expr(e.rest);
        this.hole = saved;
        return `((${h}) => ${h} === null || ${h} === undefined ? null : ${rest})(${a})`;
      }
      case 'switchx': {
        const x = this.fresh('w');
        this.push();
        const a = this.expr(e.a);
        let code = '';
        for (const arm of e.arms) {
          this.push();
          const [c, vars] = this.pattern(arm.pat, x);
          const body = this.expr(arm.e);
          const test = arm.when ? `${c} && ${this.cond(arm.when)}` : c;
          code += `{ ${vars.map(v => `let ${v};`).join('')} if (${test}) return ${body}; }`;
          this.pop();
        }
        this.pop();
        return `((${x}) => { ${code} throw $.fail('InvalidOperationException', 'no arm of a switch expression matches'); })(${a})`;
      }
      default: return this.fail('expression ' + e.k, e);
    }
  }
  isPattern(p, x) {
    // variables of an `is` pattern are visible after it: declared in the enclosing scope as function-level variables
    const before = new Set(this.locals[this.locals.length - 1].keys());
    const r = this.pattern(p, x);
    for (const [n, l] of this.locals[this.locals.length - 1]) if (!before.has(n)) l.out = true;
    r[1].forEach(v => this.outs(v));
    return r;
  }
  outs() {}
  int(e, neg) {
    let v = neg ? -e.v : e.v;
    const s = e.suffix || '';
    let t;
    if (s.includes('u') && s.includes('l')) t = 'UInt64';
    else if (s === 'u') t = v <= 0xffffffffn ? 'UInt32' : 'UInt64';
    else if (s === 'l') t = v <= 0x7fffffffffffffffn ? 'Int64' : 'UInt64';
    else t = v <= 0x7fffffffn && v >= -0x80000000n ? 'Int32' : !neg && v <= 0xffffffffn ? 'UInt32' : v <= 0x7fffffffffffffffn && v >= -0x8000000000000000n ? 'Int64' : 'UInt64';
    return this.hoistNum(t, v);
  }
  hoistNum(t, v) { return `$.lit(${JSON.stringify(t)}, ${JSON.stringify(String(v))})`; }
  bin(e) {
    const { op } = e;
    if (op === '&&') return `($.bool(${this.expr(e.a)}) && $.bool(${this.expr(e.b)}))`;
    if (op === '||') return `($.bool(${this.expr(e.a)}) || $.bool(${this.expr(e.b)}))`;
    if (op === '??') {
      const h = this.fresh('c');
      return `((${h}) => ${h} === null || ${h} === undefined ? ${this.expr(e.b)} : ${h})(${this.expr(e.a)})`;
    }
    if (op === '==' || op === '!=') {
      const d = x => x.k === 'default' && !x.type;
      if (d(e.a) || d(e.b)) return `${op === '!=' ? '!' : ''}$.eqDefault(${this.expr(d(e.a) ? e.b : e.a)})`;
      return `${op === '!=' ? '!' : ''}$.eq(${this.expr(e.a)}, ${this.expr(e.b)})`;
    }
    if (['<', '>', '<=', '>='].includes(op)) return `$.cmp(${JSON.stringify(op)}, ${this.expr(e.a)}, ${this.expr(e.b)})`;
    return `$.bin(${JSON.stringify(op)}, ${this.expr(e.a)}, ${this.expr(e.b)}, ${this.checked})`;
  }
  lambda(e) {
    this.push();
    const saved = [this.ret, this.retCode, this.labels, this.inLambda, this.caught, this.iterator];
    this.labels = [];
    this.inLambda = true;
    this.retCode = null;
    this.caught = null;
    const ps = e.params.map((p, i) => p.name === '_' && e.params.filter(q => q.name === '_').length > 1 ? `_${i}` : this.declare(p.name, p.mod === 'ref' || p.mod === 'out'));
    const co = e.params.map((p, i) => p.type && !p.mod ? `${ps[i]} = $.co(${this.typeCode(p.type)}, ${ps[i]});` : '').join('');
    let body;
    if (e.body.k === 'arrow') body = `return ${this.expr(e.body.e)};`;
    else body = this.block(e.body);
    [this.ret, this.retCode, this.labels, this.inLambda, this.caught, this.iterator] = saved;
    this.pop();
    return `$.del((${ps.join(', ')}) => {$.tick();${co}${body}})`;
  }
  call(e) {
    const f = e.f;
    const targs = f.targs && f.targs.length ? `[${f.targs.map(t => this.typeCode(t))}]` : 'null';
    const args = this.args(e.args);
    if (f.k === 'name') {
      const r = this.name({ name: f.name, targs: [], k: 'name', line: f.line });
      if (!r) this.unknown(f.name, `the name ${f.name} does not exist here`, e);
      if (r.kind === 'local') return `$.invoke(${this.expr(f)}, ${args})`;
      if (r.kind === 'member') {
        this.arity(r.m, f.name, e);
        if (r.m.obj && !this.stat) return `$.call(self, ${JSON.stringify(f.name)}, ${targs}, ${args})`;
        const mixed = r.m.method && r.m.some && !r.m.stat;
        if (mixed) return `$.callm(${r.d === this.def ? 'C' : this.outerCode(r.d, r.d)}, ${this.stat || r.d !== this.def ? 'null' : 'self'}, ${JSON.stringify(f.name)}, ${targs}, ${args})`;
        const s = this.selfOf(r.d, r.m, f);
        return s.cls ? `$.scall(${s.cls}, ${JSON.stringify(f.name)}, ${targs}, ${args})` : `$.call(${s.obj}, ${JSON.stringify(f.name)}, ${targs}, ${args})`;
      }
      if (r.kind === 'static') return `$.scall(${r.t.code}, ${JSON.stringify(f.name)}, ${targs}, ${args})`;
      return this.fail(`${f.name} is a ${r.kind}, but is used like a function`, e);
    }
    if (f.k === 'member') {
      if (f.a.k === 'base') return `$.basecall(C, self, ${JSON.stringify(f.name)}, ${targs}, ${args})`;
      const h = this.head(f.a, f.name);
      if (h.ns !== undefined) this.fail(`${h.ns}.${f.name} is not a function`, e);
      if (h.t) {
        this.checkStatic(h.t, f.name, e);
        if (h.t.def) this.arity(this.findMember(h.t.def, f.name), f.name, e);
        return `$.scall(${h.t.code}, ${JSON.stringify(f.name)}, ${targs}, ${args})`;
      }
      if (f.a.k === 'this') {
        const m = this.findMember(this.def, f.name);
        if (!m && !this.p.ext.has(f.name)) this.fail(`${this.def.full} has no ${f.name}`, e);
        if (m && m.method && !this.p.ext.has(f.name)) this.arity(m, f.name, e);
      }
      return `$.call(${h.v}, ${JSON.stringify(f.name)}, ${targs}, ${args})`;
    }
    return `$.invoke(${this.expr(f)}, ${args})`;
  }
  arity(m, name, e) {
    if (!m || !m.method || m.obj || m.bcl) return;
    const ms = this.p.all(m.owner, name);
    if (!ms.length) return;
    const n = e.args.length;
    if (!ms.some(x => n >= x.need && (x.variadic || n <= x.params.length))) this.fail(`no overload of ${name} takes ${n} arguments`, e);
  }
  new_(e) {
    const r = this.typeRef(e.type);
    if (r.def) {
      if (r.def.kind === 'interface' || r.def.statik) this.fail(`${r.def.full} cannot be instantiated`, e);
      if (r.def.kind === 'class' || r.def.kind === 'struct') {
        const n = e.args.length, cs = r.def.ctors;
        const ok = cs.length ? cs.some(c => n >= c.need && (c.variadic || n <= c.params.length)) : n === 0;
        if (!ok && !(r.def.kind === 'struct' && n === 0)) this.fail(`no constructor of ${r.def.full} takes ${n} arguments`, e);
      }
    }
    if (r.def && r.def.kind === 'delegate' || r.bcl && r.bcl.delegate) return this.expr(e.args[0].e);
    const code = `$.new(${r.code}, ${this.args(e.args)})`;
    if (!e.init) return code;
    const x = this.fresh('n');
    return `((${x}) => { ${this.objInit(x, e.init)} return ${x}; })(${code})`;
  }
  objInit(x, init) {
    let code = '';
    for (const i of init) {
      if (i.k === 'prop') code += `$.set(${x}, ${JSON.stringify(i.name)}, ${this.expr(i.e)});`;
      else if (i.k === 'index') code += `$.setidx(${x}, [${i.idx.map(y => this.expr(y))}], ${this.expr(i.e)});`;
      else if (i.k === 'add') code += `$.call(${x}, 'Add', null, [${i.es.map(y => this.expr(y))}]);`;
      else {
        const y = this.fresh('n');
        code += `{ const ${y} = $.get(${x}, ${JSON.stringify(i.name)}); ${this.objInit(y, i.init)} }`;
      }
    }
    return code;
  }
  newarr(e) {
    const of = e.of ? this.typeCode(e.of) : 'null';
    if (e.items) return `$.array(${of}, [${e.items.map(x => this.expr(x)).join(', ')}])`;
    return `$.newarr(${of}, ${this.expr(e.size)})`;
  }
  // assignment of a JS expression to a place
  assign(place, v) {
    switch (place.k) {
      case 'paren': return this.assign(place.e, v);
      case 'name': {
        const r = this.name(place);
        if (!r) this.unknown(place.name, `the name ${place.name} does not exist here`, place);
        if (r.kind === 'local') {
          const js = r.l.byref ? r.l.js + '.v' : r.l.js;
          return `(${js} = ${r.l.type ? `$.co(${r.l.type}, ${v})` : `$.like(${js}, ${v})`})`;
        }
        if (r.kind === 'member') {
          const s = this.selfOf(r.d, r.m, place);
          return s.cls ? `$.sset(${s.cls}, ${JSON.stringify(place.name)}, ${v})` : `$.set(${s.obj}, ${JSON.stringify(place.name)}, ${v})`;
        }
        if (r.kind === 'static') return `$.sset(${r.t.code}, ${JSON.stringify(place.name)}, ${v})`;
        return this.fail(`${place.name} cannot be assigned`, place);
      }
      case 'member': {
        if (place.a.k === 'base') return `$.set(self, ${JSON.stringify(place.name)}, ${v})`;
        const h = this.head(place.a, place.name);
        if (h.t) { this.checkStatic(h.t, place.name, place); return `$.sset(${h.t.code}, ${JSON.stringify(place.name)}, ${v})`; }
        return `$.set(${h.v}, ${JSON.stringify(place.name)}, ${v})`;
      }
      case 'index': return `$.setidx(${this.expr(place.a)}, [${place.idx.map(x => this.expr(x.e)).join(', ')}], ${v})`;
      default: return this.fail('this cannot be assigned', place);
    }
  }
  // evaluates the parts of a place once: [prelude, place]
  once(place) {
    if (place.k === 'paren') return this.once(place.e);
    if (place.k === 'member' && place.a.k !== 'this' && place.a.k !== 'base') {
      const h = this.head(place.a, place.name);
      if (h.t || place.a.k === 'name') return ['', place];
      const x = this.fresh('o');
      return [`const ${x} = ${h.v};`, Object.assign({}, place, { a: { k: 'js', code: x } })];
    }
    if (place.k === 'index') {
      const x = this.fresh('o');
      let pre = `const ${x} = ${this.expr(place.a)};`;
      const idx = place.idx.map(i => {
        const y = this.fresh('o');
        pre += `const ${y} = ${this.expr(i.e)};`;
        return { name: null, mod: null, e: { k: 'js', code: y } };
      });
      return [pre, { k: 'index', a: { k: 'js', code: x }, idx, line: place.line }];
    }
    return ['', place];
  }
  step(e) {
    const [pre, place] = this.once(e.a);
    const x = this.fresh('q');
    const one = `$.bin(${JSON.stringify(e.op[0])}, ${x}, $.lit("Int32", "1"), ${this.checked})`;
    const up = this.assign(place, `$.like(${x}, ${one})`);
    return `(() => { ${pre} const ${x} = ${this.expr(place)}; ${e.k === 'pre' ? `return ${up};` : `${up}; return ${x};`} })()`;
  }
  assignExpr(e) {
    const { op, a, b } = e;
    if (op === '=') {
      if (a.k === 'name' && a.name === '_' && !this.name(a)) return this.expr(b);
      if (a.k === 'tuplex') {
        const x = this.fresh('d');
        return `((${x}) => { ${this.deconstruct(a.items.map(i => ({ decl: false, e: i.e })), x)} return ${x}; })(${this.expr(b)})`;
      }
      return this.assign(a, b.k === 'default' && !b.type ? '$.dflt' : this.expr(b));
    }
    const [pre, place] = this.once(a);
    const x = this.fresh('q');
    if (op === '??=') return `(() => { ${pre} const ${x} = ${this.expr(place)}; return ${x} === null || ${x} === undefined ? ${this.assign(place, this.expr(b))} : ${x}; })()`;
    const o = op.slice(0, -1);
    if ((o === '+' || o === '-') && (place.k === 'name' || place.k === 'member')) {
      // perhaps an event with accessors
      const ev = this.customEvent(place);
      if (ev) return `$.event(${ev}, ${JSON.stringify(place.name)}, ${JSON.stringify(o)}, ${this.expr(b)})`;
    }
    return `(() => { ${pre} const ${x} = ${this.expr(place)}; return ${this.assign(place, `$.like(${x}, $.bin(${JSON.stringify(o)}, ${x}, ${this.expr(b)}, ${this.checked}))`)}; })()`;
  }
  customEvent(place) {
    if (![...this.p.defs].some(d => d.members.has(place.name) && d.members.get(place.name).kind === 'cevent')) return null;
    if (place.k === 'name') return this.stat ? 'C' : 'self';
    const h = this.head(place.a, place.name);
    return h.t ? h.t.code : h.v;
  }
}

// `js` nodes stand for code already made
const expr0 = Ctx.prototype.expr;
Ctx.prototype.expr = function (e) { return e.k === 'js' ? e.code : expr0.call(this, e); };
const head0 = Ctx.prototype.head;
Ctx.prototype.head = function (e, n) { return e.k === 'js' || e.k === 'hole' ? { v: this.expr(e) } : head0.call(this, e, n); };

// variables of `is` patterns and `out` arguments are declared where a statement begins
const stmt0 = Ctx.prototype.stmt;
Ctx.prototype.stmt = function (s) {
  const depth = this.locals.length - 1;
  const before = new Set(this.locals[depth].keys());
  const outer = this.pending;
  this.pending = [];
  const code = stmt0.call(this, s);
  let pre = this.pending.map(v => `let ${v};`).join('');
  this.pending = outer;
  for (const [n, l] of this.locals[depth]) if (!before.has(n) && l.out && !l.emitted) { l.emitted = true; if (!pre.includes(`let ${l.js};`)) pre += `let ${l.js};`; }
  return pre + code;
};
Ctx.prototype.outs = function (v) { if (this.pending) this.pending.push(v); };
const arrowBody = Ctx.prototype.fnBody;
Ctx.prototype.fnBody = function (body, ret) {
  const outer = this.pending;
  this.pending = [];
  const code = arrowBody.call(this, body, ret);
  const pre = this.pending.map(v => `let ${v};`).join('');
  this.pending = outer;
  return pre + code;
};
const declareHere = Ctx.prototype.declareHere;
Ctx.prototype.declareHere = function (name) {
  const js = declareHere.call(this, name);
  const l = this.local(name);
  l.emitted = true;
  this.outs(js);
  return js;
};
const isPattern = Ctx.prototype.isPattern;
Ctx.prototype.isPattern = function (p, x) {
  const r = isPattern.call(this, p, x);
  for (const m of this.locals) for (const l of m.values()) if (r[1].includes(l.js)) l.emitted = true;
  return r;
};

function hasYield(b) {
  let found = false;
  const walk = s => {
    if (!s || typeof s !== 'object' || found) return;
    if (Array.isArray(s)) { s.forEach(walk); return; }
    if (s.k === 'yield' || s.k === 'yieldbreak') { found = true; return; }
    if (s.k === 'lambda' || s.k === 'localfn') return;
    for (const key of Object.keys(s)) if (key !== 'def' && key !== 'scope') walk(s[key]);
  };
  walk(b);
  return found;
}

// whether control cannot pass the end of a statement
function ends(s) {
  switch (s.k) {
    case 'break': case 'continue': case 'return': case 'throw': case 'yieldbreak': return true;
    case 'block': return s.stmts.length > 0 && ends(s.stmts[s.stmts.length - 1]);
    case 'if': return !!s.els && ends(s.then) && ends(s.els);
    case 'switch': return s.sections.some(x => x.labels.some(l => l.k === 'default')) && s.sections.every(x => x.stmts.length && ends(x.stmts[x.stmts.length - 1]) && x.stmts[x.stmts.length - 1].k !== 'break');
    case 'try': return (ends(s.body) && s.catches.every(c => ends(c.body))) || (!!s.fin && ends(s.fin));
    case 'while': return s.c.k === 'bool' && s.c.v;
    case 'for': return !s.c;
    case 'using': case 'checked': return ends(s.body);
    default: return false;
  }
}

Object.assign(module.exports, { Program, Def, Method, Ctx });
