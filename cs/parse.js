'use strict';
// A parser of C# (7.3 and the commoner parts of later versions) producing plain objects.

const { lex, SyntaxError_, Unsupported } = require('./lex');

const PREDEF = { bool: 'Boolean', byte: 'Byte', sbyte: 'SByte', short: 'Int16', ushort: 'UInt16', int: 'Int32', uint: 'UInt32', long: 'Int64',
  ulong: 'UInt64', char: 'Char', float: 'Single', double: 'Double', decimal: 'Decimal', string: 'String', object: 'Object', void: 'Void' };
const MODS = new Set(['public', 'private', 'protected', 'internal', 'static', 'readonly', 'sealed', 'abstract', 'virtual', 'override', 'new', 'extern',
  'unsafe', 'volatile', 'const', 'partial', 'async', 'ref']);
const ASSIGN = new Set(['=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=', '??=']);
const BIN = [['??'], ['||'], ['&&'], ['|'], ['^'], ['&'], ['==', '!='], ['<', '>', '<=', '>=', 'is', 'as'], ['<<', '>>'], ['+', '-'], ['*', '/', '%']];

class Parser {
  constructor(src, file, line0) {
    this.toks = lex(src, file);
    if (line0) this.toks.forEach(t => { t.line += line0 - 1; });
    this.i = 0;
    this.file = file;
  }
  get t() { return this.toks[this.i]; }
  peek(n = 1) { return this.toks[Math.min(this.i + n, this.toks.length - 1)]; }
  fail(m) { throw new SyntaxError_(`${this.file}:${this.t.line}: ${m || 'unexpected ' + JSON.stringify(String(this.t.v))}`); }
  is(v, t = this.t) { return (t.k === 'p' || t.k === 'kw') && t.v === v; }
  isCtx(v, t = this.t) { return t.k === 'id' && t.v === v; }
  eat(v) { if (this.is(v)) { this.i++; return true; } return false; }
  eatCtx(v) { if (this.isCtx(v)) { this.i++; return true; } return false; }
  want(v) { if (!this.eat(v)) this.fail(`expected ${v}, found ${JSON.stringify(String(this.t.v))}`); }
  id() { if (this.t.k !== 'id') this.fail(`expected a name, found ${JSON.stringify(String(this.t.v))}`); return this.toks[this.i++].v; }
  attempt(f) {
    const i = this.i;
    try { const r = f(); if (r) return r; } catch (e) { if (!(e instanceof SyntaxError_)) throw e; }
    this.i = i;
    return null;
  }

  // ------------------------------------------------------------ types
  typeArgs() {
    // at '<'
    const args = [];
    this.want('<');
    if (this.is('>') || this.is(',')) {
      // open type
      while (this.eat(',')) args.push(null);
      args.push(null);
      this.want('>');
      return args;
    }
    do { this.attributes(); this.eat('in') || this.eat('out'); args.push(this.type()); } while (this.eat(','));
    this.want('>');
    return args;
  }
  type(opt = {}) {
    let ty;
    if (this.eat('ref')) this.eat('readonly');
    if (this.is('(')) {
      this.want('(');
      const elems = [];
      do {
        const type = this.type();
        elems.push({ type, name: this.t.k === 'id' ? this.id() : null });
      } while (this.eat(','));
      this.want(')');
      if (elems.length < 2) this.fail('a tuple type of one element');
      ty = { k: 'tuple', elems };
    } else if (this.t.k === 'kw' && PREDEF[this.t.v]) {
      ty = { k: 'prim', name: PREDEF[this.t.v], line: this.t.line };
      this.i++;
    } else {
      const parts = [];
      const line = this.t.line;
      let id = this.id();
      if (this.is('::')) { this.i++; id = this.id(); }
      for (;;) {
        const part = { id, args: [] };
        if (this.is('<')) part.args = this.typeArgs();
        parts.push(part);
        if (this.is('.') && this.peek().k === 'id') { this.i++; id = this.id(); } else break;
      }
      ty = { k: 'name', parts, line };
    }
    return this.typeSuffix(ty, opt);
  }
  typeSuffix(ty, opt) {
    if (!opt.noNull && this.is('?')) { this.i++; ty = { k: 'nullable', of: ty }; }
    const ranks = [];
    while (this.is('[') && (this.is(']', this.peek()) || this.is(',', this.peek()))) {
      this.i++;
      let r = 1;
      while (this.eat(',')) r++;
      this.want(']');
      if (r > 1) throw new Unsupported('multi-dimensional arrays');
      ranks.push(1);
      if (!opt.noNull) this.eat('?');
    }
    for (const _ of ranks) ty = { k: 'array', of: ty };
    return ty;
  }

  // ------------------------------------------------------------ declarations
  attributes() {
    while (this.is('[')) {
      // an attribute section in a declaration position
      let depth = 0;
      do {
        if (this.is('[')) depth++;
        if (this.is(']')) depth--;
        if (this.t.k === 'eof') this.fail();
        this.i++;
      } while (depth);
    }
  }
  file_() {
    const usings = [], decls = [];
    while (this.t.k !== 'eof') this.nsMember(usings, decls);
    return { usings, decls };
  }
  nsMember(usings, decls) {
    this.attributes();
    if (this.is('using')) {
      this.i++;
      const st = this.eat('static');
      let alias = null;
      if (this.t.k === 'id' && this.is('=', this.peek())) { alias = this.id(); this.want('='); }
      const type = this.type();
      this.want(';');
      usings.push({ st, alias, type });
      return;
    }
    if (this.is('namespace')) {
      this.i++;
      const name = [this.id()];
      while (this.eat('.')) name.push(this.id());
      const ns = { k: 'ns', name, usings: [], decls: [] };
      if (this.eat(';')) {
        while (this.t.k !== 'eof') this.nsMember(ns.usings, ns.decls);
      } else {
        this.want('{');
        while (!this.eat('}')) this.nsMember(ns.usings, ns.decls);
        this.eat(';');
      }
      decls.push(ns);
      return;
    }
    if (this.eat(';')) return;
    decls.push(this.typeDecl(this.mods()));
  }
  mods() {
    const m = new Set();
    for (;;) {
      this.attributes();
      const v = this.t.v;
      if ((this.t.k === 'kw' || (this.t.k === 'id' && (v === 'partial' || v === 'async'))) && MODS.has(v)) {
        if (v === 'new' && this.is('(', this.peek())) break;
        if (this.t.k === 'id') {
          // contextual: only when a declaration follows
          const nx = this.peek();
          if (!(nx.k === 'kw' || nx.k === 'id')) break;
        }
        m.add(v);
        this.i++;
      } else break;
    }
    return m;
  }
  typeParams() {
    const out = [];
    if (this.eat('<')) {
      do { this.attributes(); this.eat('in') || this.eat('out'); out.push(this.id()); } while (this.eat(','));
      this.want('>');
    }
    return out;
  }
  constraints() {
    while (this.isCtx('where')) {
      this.i++;
      this.id();
      this.want(':');
      do {
        if (this.eat('class') || this.eat('struct')) { this.eat('?'); continue; }
        if (this.eat('new')) { this.want('('); this.want(')'); continue; }
        this.type();
      } while (this.eat(','));
    }
  }
  typeDecl(mods) {
    const line = this.t.line;
    if (this.eat('enum')) {
      const name = this.id();
      let under = null;
      if (this.eat(':')) under = this.type();
      this.want('{');
      const items = [];
      while (!this.eat('}')) {
        this.attributes();
        const id = this.id();
        items.push({ id, value: this.eat('=') ? this.expr() : null });
        if (!this.is('}')) this.want(',');
      }
      this.eat(';');
      return { k: 'enum', name, under, items, mods, line };
    }
    if (this.eat('delegate')) {
      const ret = this.type();
      const name = this.id();
      const tparams = this.typeParams();
      const params = this.params('(', ')');
      this.constraints();
      this.want(';');
      return { k: 'delegate', name, tparams, params, ret, mods, line };
    }
    let kind;
    if (this.eat('class')) kind = 'class';
    else if (this.eat('struct')) kind = 'struct';
    else if (this.eat('interface')) kind = 'interface';
    else if (this.isCtx('record')) throw new Unsupported('records');
    else this.fail();
    const name = this.id();
    const tparams = this.typeParams();
    const bases = [];
    if (this.eat(':')) do bases.push(this.type()); while (this.eat(','));
    this.constraints();
    this.want('{');
    const members = [];
    while (!this.eat('}')) this.member(members, kind, name);
    this.eat(';');
    return { k: kind, name, tparams, bases, members, mods, line };
  }
  params(open, close) {
    this.want(open);
    const out = [];
    if (!this.is(close)) {
      do {
        this.attributes();
        const p = { mod: null, ext: false };
        for (;;) {
          if (this.eat('this')) p.ext = true;
          else if (this.eat('ref')) p.mod = 'ref';
          else if (this.eat('out')) p.mod = 'out';
          else if (this.eat('in')) p.mod = null;
          else if (this.eat('params')) p.mod = 'params';
          else break;
        }
        p.type = this.type();
        p.name = this.id();
        p.def = this.eat('=') ? this.expr() : null;
        out.push(p);
      } while (this.eat(','));
    }
    this.want(close);
    return out;
  }
  body() {
    if (this.eat(';')) return null;
    if (this.eat('=>')) {
      const line = this.t.line;
      const e = this.expr();
      this.want(';');
      return { k: 'arrow', e, line };
    }
    return this.block();
  }
  member(out, kind, cname) {
    const mods = this.mods();
    const line = this.t.line;
    if (this.eat(';')) return;
    if (this.is('class') || this.is('struct') || this.is('interface') || this.is('enum') || this.is('delegate')) {
      out.push(Object.assign(this.typeDecl(mods), { nested: true }));
      return;
    }
    if (this.eat('~')) {
      this.id(); this.params('(', ')'); this.body();
      return;
    }
    if (this.t.k === 'id' && this.t.v === cname && this.is('(', this.peek())) {
      this.i++;
      const params = this.params('(', ')');
      let init = null;
      if (this.eat(':')) {
        const which = this.eat('base') ? 'base' : (this.want('this'), 'this');
        init = { which, args: this.args() };
      }
      out.push({ k: 'ctor', params, init, body: this.body(), mods, line });
      return;
    }
    if (this.eat('event')) {
      const type = this.type();
      let name = this.id();
      while (this.eat('.')) name = this.id();
      if (this.is('{')) {
        this.want('{');
        const ev = { k: 'event', type, name, mods, line, add: null, remove: null };
        while (!this.eat('}')) {
          this.attributes();
          const w = this.id();
          ev[w] = this.body();
        }
        out.push(ev);
        return;
      }
      do {
        out.push({ k: 'event', type, name, mods, line, init: this.eat('=') ? this.expr() : null });
      } while (this.eat(',') && (name = this.id()));
      this.want(';');
      return;
    }
    if (this.is('implicit') || this.is('explicit')) {
      const which = this.toks[this.i++].v;
      this.want('operator');
      const type = this.type();
      const params = this.params('(', ')');
      out.push({ k: 'method', name: 'op_' + which, ret: type, tparams: [], params, body: this.body(), mods, line });
      return;
    }
    const type = this.type();
    if (this.eat('operator')) {
      let op = this.toks[this.i++].v;
      if (op === '>' && this.is('>')) { this.i++; op = '>>'; } else if (op === '>' && this.is('=')) { this.i++; op = '>='; }
      const params = this.params('(', ')');
      out.push({ k: 'method', name: 'op' + params.length + op, ret: type, tparams: [], params, body: this.body(), mods, line });
      return;
    }
    // a name, possibly of an explicit interface implementation
    let name, iface = null;
    const indexer = () => {
      const params = this.params('[', ']');
      out.push(Object.assign({ k: 'indexer', type, params, mods, line, iface }, this.accessors()));
    };
    if (this.is('this')) { this.i++; indexer(); return; }
    name = this.id();
    for (;;) {
      const save = this.i;
      if (this.is('<')) {
        const ok = this.attempt(() => { this.typeArgs(); return this.is('.') || null; });
        if (!ok) { this.i = save; break; }
      }
      if (!this.is('.')) { this.i = save; break; }
      this.i++;
      iface = name;
      if (this.is('this')) { this.i++; indexer(); return; }
      name = this.id();
    }
    if (this.is('(') || this.is('<')) {
      const tparams = this.typeParams();
      const params = this.params('(', ')');
      this.constraints();
      out.push({ k: 'method', name, ret: type, tparams, params, body: this.body(), mods, line, iface });
      return;
    }
    if (this.is('{') || this.is('=>')) {
      const acc = this.accessors();
      let init = null;
      if (acc.auto && this.eat('=')) { init = this.expr(); this.want(';'); }
      out.push(Object.assign({ k: 'prop', name, type, mods, line, init, iface }, acc));
      return;
    }
    for (;;) {
      out.push({ k: 'field', name, type, mods, line, init: this.eat('=') ? this.initExpr(type) : null });
      if (!this.eat(',')) break;
      name = this.id();
    }
    this.want(';');
  }
  initExpr(type) {
    if (this.is('{') && type && type.k === 'array') return { k: 'newarr', of: type.of, size: null, items: this.arrayItems(), line: this.t.line };
    return this.expr();
  }
  arrayItems() {
    this.want('{');
    const items = [];
    while (!this.eat('}')) {
      items.push(this.is('{') ? this.fail('nested array initializers') : this.expr());
      if (!this.is('}')) this.want(',');
    }
    return items;
  }
  accessors() {
    if (this.eat('=>')) {
      const line = this.t.line;
      const e = this.expr();
      this.want(';');
      return { get: { k: 'arrow', e, line }, set: null, auto: false };
    }
    this.want('{');
    const r = { get: null, set: null, auto: false, hasSet: false };
    while (!this.eat('}')) {
      this.mods();
      const w = this.id();
      const b = this.body();
      if (!b) r.auto = true;
      if (w === 'get') r.get = b;
      else if (w === 'set' || w === 'init') { r.set = b; r.hasSet = true; } else this.fail();
    }
    return r;
  }

  // ------------------------------------------------------------ statements
  block() {
    const line = this.t.line;
    this.want('{');
    const stmts = [];
    while (!this.eat('}')) stmts.push(this.stmt());
    return { k: 'block', stmts, line };
  }
  stmt() {
    const line = this.t.line;
    const s = this.stmt_();
    s.line = s.line || line;
    return s;
  }
  localDecl(type) {
    const vars = [];
    do {
      const name = this.id();
      vars.push({ name, init: this.eat('=') ? (this.eat('ref'), this.initExpr(type)) : null });
    } while (this.eat(','));
    return { k: 'local', type, vars };
  }
  tryLocalDecl() {
    return this.attempt(() => {
      this.eat('ref');
      const type = this.isCtx('var') && this.peek().k === 'id' ? (this.i++, { k: 'var' }) : this.type();
      if (this.t.k !== 'id') return null;
      const nx = this.peek();
      if (!(this.is('=', nx) || this.is(';', nx) || this.is(',', nx))) return null;
      if (this.is(',', nx) && !(this.peek(2).k === 'id' && (this.is('=', this.peek(3)) || this.is(';', this.peek(3)) || this.is(',', this.peek(3))))) return null;
      return { type };
    });
  }
  tryLocalFunction() {
    return this.attempt(() => {
      this.mods();
      const ret = this.type();
      const name = this.id();
      if (!this.is('(') && !this.is('<')) return null;
      const tparams = this.typeParams();
      const params = this.params('(', ')');
      this.constraints();
      if (!this.is('{') && !this.is('=>')) return null;
      return { k: 'localfn', ret, name, tparams, params, body: this.body() };
    });
  }
  tryDeconstruct() {
    // var (a, b) = e;   (T a, U b) = e;
    return this.attempt(() => {
      const targets = [];
      if (this.isCtx('var') && this.is('(', this.peek())) {
        this.i += 2;
        do targets.push({ decl: true, name: this.id() }); while (this.eat(','));
      } else if (this.is('(')) {
        this.i++;
        do {
          const d = this.attempt(() => {
            const type = this.isCtx('var') && this.peek().k === 'id' ? (this.i++, { k: 'var' }) : this.type();
            if (this.t.k !== 'id') return null;
            return { decl: true, type, name: this.id() };
          });
          targets.push(d || { decl: false, e: this.expr() });
        } while (this.eat(','));
      } else return null;
      this.want(')');
      if (targets.length < 2) return null;
      return targets;
    });
  }
  stmt_() {
    const t = this.t;
    if (this.is('{')) return this.block();
    if (this.eat(';')) return { k: 'empty' };
    if (t.k === 'kw') {
      switch (t.v) {
        case 'if': {
          this.i++;
          this.want('(');
          const c = this.expr();
          this.want(')');
          const then = this.stmt();
          return { k: 'if', c, then, els: this.eat('else') ? this.stmt() : null };
        }
        case 'while': {
          this.i++;
          this.want('(');
          const c = this.expr();
          this.want(')');
          return { k: 'while', c, body: this.stmt() };
        }
        case 'do': {
          this.i++;
          const body = this.stmt();
          this.want('while');
          this.want('(');
          const c = this.expr();
          this.want(')');
          this.want(';');
          return { k: 'do', c, body };
        }
        case 'for': {
          this.i++;
          this.want('(');
          let init = [];
          if (!this.is(';')) {
            const d = this.tryLocalDecl();
            if (d) init = [this.localDecl(d.type)];
            else do init.push({ k: 'expr', e: this.expr() }); while (this.eat(','));
          }
          this.want(';');
          const c = this.is(';') ? null : this.expr();
          this.want(';');
          const step = [];
          if (!this.is(')')) do step.push(this.expr()); while (this.eat(','));
          this.want(')');
          return { k: 'for', init, c, step, body: this.stmt() };
        }
        case 'foreach': {
          this.i++;
          this.want('(');
          const targets = this.attempt(() => { const d = this.tryDeconstruct(); return d && this.is('in') ? d : null; });
          let type = null, name = null;
          if (!targets) {
            type = this.isCtx('var') ? (this.i++, { k: 'var' }) : this.type();
            name = this.id();
          }
          this.want('in');
          const e = this.expr();
          this.want(')');
          return { k: 'foreach', type, name, targets, e, body: this.stmt() };
        }
        case 'switch': {
          this.i++;
          this.want('(');
          const e = this.expr();
          this.want(')');
          this.want('{');
          const sections = [];
          while (!this.eat('}')) {
            const labels = [];
            for (;;) {
              if (this.eat('default')) { this.want(':'); labels.push({ k: 'default' }); continue; }
              if (this.eat('case')) {
                const pat = this.pattern();
                const when = this.eatCtx('when') ? this.expr() : null;
                this.want(':');
                labels.push({ k: 'case', pat, when });
                continue;
              }
              break;
            }
            if (!labels.length) this.fail();
            const stmts = [];
            while (!this.is('case') && !this.is('default') && !this.is('}')) stmts.push(this.stmt());
            sections.push({ labels, stmts });
          }
          return { k: 'switch', e, sections };
        }
        case 'break': this.i++; this.want(';'); return { k: 'break' };
        case 'continue': this.i++; this.want(';'); return { k: 'continue' };
        case 'goto': throw new Unsupported('goto');
        case 'return': {
          this.i++;
          this.eat('ref');
          const e = this.is(';') ? null : this.expr();
          this.want(';');
          return { k: 'return', e };
        }
        case 'throw': {
          this.i++;
          const e = this.is(';') ? null : this.expr();
          this.want(';');
          return { k: 'throw', e };
        }
        case 'try': {
          this.i++;
          const body = this.block();
          const catches = [];
          let fin = null;
          while (this.eat('catch')) {
            const c = { type: null, name: null, when: null };
            if (this.eat('(')) {
              c.type = this.type();
              if (this.t.k === 'id') c.name = this.id();
              this.want(')');
            }
            if (this.isCtx('when')) { this.i++; this.want('('); c.when = this.expr(); this.want(')'); }
            c.body = this.block();
            catches.push(c);
          }
          if (this.eat('finally')) fin = this.block();
          return { k: 'try', body, catches, fin };
        }
        case 'lock': {
          this.i++;
          this.want('(');
          const e = this.expr();
          this.want(')');
          return { k: 'block', stmts: [{ k: 'expr', e, line: t.line }, this.stmt()] };
        }
        case 'using': {
          this.i++;
          if (this.eat('(')) {
            const d = this.tryLocalDecl();
            const init = d ? this.localDecl(d.type) : { k: 'expr', e: this.expr() };
            this.want(')');
            return { k: 'using', init, body: this.stmt() };
          }
          throw new Unsupported('using declarations');
        }
        case 'checked':
        case 'unchecked':
          if (this.is('{', this.peek())) {
            this.i++;
            return { k: 'checked', on: t.v === 'checked', body: this.block() };
          }
          break;
        case 'const': {
          this.i++;
          const type = this.type();
          const d = this.localDecl(type);
          this.want(';');
          return d;
        }
        case 'fixed':
        case 'unsafe':
          throw new Unsupported(t.v);
        default:
      }
    }
    if (this.isCtx('yield')) {
      if (this.is('return', this.peek())) {
        this.i += 2;
        const e = this.expr();
        this.want(';');
        return { k: 'yield', e };
      }
      if (this.is('break', this.peek())) {
        this.i += 2;
        this.want(';');
        return { k: 'yieldbreak' };
      }
    }
    if (t.k === 'id' && this.is(':', this.peek()) && !this.is('::', this.peek())) throw new Unsupported('labels');
    const fn = (t.k === 'id' || t.k === 'kw') && this.tryLocalFunction();
    if (fn) return fn;
    const d = this.tryLocalDecl();
    if (d) {
      const s = this.localDecl(d.type);
      this.want(';');
      return s;
    }
    const dec = this.attempt(() => {
      const targets = this.tryDeconstruct();
      if (!targets || !this.eat('=')) return null;
      const e = this.expr();
      this.want(';');
      return { k: 'deconstruct', targets, e };
    });
    if (dec) return dec;
    const e = this.expr();
    this.want(';');
    return { k: 'expr', e };
  }

  // ------------------------------------------------------------ patterns
  pattern() {
    return this.patOr();
  }
  patOr() {
    let p = this.patAnd();
    while (this.eatCtx('or')) p = { k: 'por', a: p, b: this.patAnd() };
    return p;
  }
  patAnd() {
    let p = this.patNot();
    while (this.eatCtx('and')) p = { k: 'pand', a: p, b: this.patNot() };
    return p;
  }
  patNot() {
    if (this.isCtx('not') && !this.is(':', this.peek())) { this.i++; return { k: 'pnot', a: this.patNot() }; }
    for (const op of ['<=', '<', '>']) {
      if (this.is(op)) {
        this.i++;
        let o = op;
        if (op === '>' && this.is('=')) { this.i++; o = '>='; }
        return { k: 'prel', op: o, e: this.binary(8) };
      }
    }
    if (this.is('{')) return this.patProps(null);
    if (this.isCtx('_') && !this.is('.', this.peek())) { this.i++; return { k: 'pany' }; }
    if (this.isCtx('var') && this.peek().k === 'id') { this.i++; return { k: 'pvar', name: this.id() }; }
    // a type with a designator or properties, or a constant (which may turn out to be a type)
    const typed = this.attempt(() => {
      const type = this.type({ noNull: true });
      if (this.t.k === 'id' && !['when', 'and', 'or'].includes(this.t.v)) return { k: 'ptype', type, name: this.id() };
      if (this.is('{')) return this.patProps(type);
      return null;
    });
    if (typed) return typed;
    if (this.t.k === 'kw' && PREDEF[this.t.v] && !this.is('.', this.peek())) return { k: 'ptype', type: this.type({ noNull: true }), name: null };
    const generic = this.attempt(() => {
      const type = this.type({ noNull: true });
      if (type.k === 'array' || (type.k === 'name' && type.parts.some(x => x.args.length))) return { k: 'ptype', type, name: null };
      return null;
    });
    if (generic) return generic;
    return { k: 'pconst', e: this.binary(8) };
  }
  patProps(type) {
    this.want('{');
    const props = [];
    while (!this.eat('}')) {
      const name = this.id();
      this.want(':');
      props.push({ name, pat: this.pattern() });
      if (!this.is('}')) this.want(',');
    }
    const name = this.t.k === 'id' && !['when', 'and', 'or'].includes(this.t.v) ? this.id() : null;
    return { k: 'pprops', type, props, name };
  }

  // ------------------------------------------------------------ expressions
  args() {
    this.want('(');
    const out = [];
    if (!this.is(')')) do out.push(this.arg()); while (this.eat(','));
    this.want(')');
    return out;
  }
  arg() {
    let name = null;
    if (this.t.k === 'id' && this.is(':', this.peek())) { name = this.id(); this.want(':'); }
    if (this.eat('ref')) return { name, mod: 'ref', e: this.expr() };
    if (this.eat('out')) {
      const d = this.attempt(() => {
        const type = this.isCtx('var') && this.peek().k === 'id' ? (this.i++, { k: 'var' }) : this.type();
        if (this.t.k !== 'id') return null;
        return { name, mod: 'out', decl: { type, name: this.id() } };
      });
      if (d) return d;
      return { name, mod: 'out', e: this.expr() };
    }
    this.eat('in');
    return { name, mod: null, e: this.expr() };
  }
  expr() {
    const line = this.t.line;
    const lam = this.lambda();
    if (lam) return lam;
    const a = this.cond();
    let op = this.t.k === 'p' ? this.t.v : null;
    if (op === '>' && this.is('>', this.peek()) && this.adj(0) && this.is('>=', this.peek(2))) op = null;
    if (op === '>' && this.shiftAssign()) { this.i += 3; return { k: 'assign', op: '>>=', a, b: this.expr(), line }; }
    if (op && ASSIGN.has(op)) {
      this.i++;
      this.eat('ref');
      return { k: 'assign', op, a, b: this.expr(), line };
    }
    return a;
  }
  adj(n) { return this.toks[this.i + n + 1].at === this.toks[this.i + n].at + 1; }
  shiftAssign() {
    // '>' '>' '='
    return this.is('>', this.peek(1)) && this.adj(0) && this.is('=', this.peek(2)) && this.adj(1);
  }
  lambda() {
    const line = this.t.line;
    if (this.isCtx('async')) throw new Unsupported('async');
    if (this.t.k === 'id' && this.is('=>', this.peek())) {
      const name = this.id();
      this.want('=>');
      return { k: 'lambda', params: [{ name, type: null }], body: this.lambdaBody(), line };
    }
    if (this.is('(')) {
      const params = this.attempt(() => {
        this.want('(');
        const ps = [];
        if (!this.is(')')) {
          do {
            let mod = null;
            if (this.is('ref') || this.is('out') || this.is('in')) mod = this.toks[this.i++].v;
            if (this.t.k === 'id' && (this.is(',', this.peek()) || this.is(')', this.peek()))) ps.push({ name: this.id(), type: null, mod });
            else { const type = this.type(); ps.push({ name: this.id(), type, mod }); }
          } while (this.eat(','));
        }
        this.want(')');
        if (!this.is('=>')) return null;
        return { ps };
      });
      if (params) {
        this.want('=>');
        return { k: 'lambda', params: params.ps, body: this.lambdaBody(), line };
      }
    }
    if (this.is('delegate')) {
      this.i++;
      const params = this.is('(') ? this.params('(', ')') : [];
      return { k: 'lambda', params, body: this.block(), line };
    }
    return null;
  }
  lambdaBody() { return this.is('{') ? this.block() : { k: 'arrow', e: this.expr(), line: this.t.line }; }
  cond() {
    const c = this.binary(0);
    if (this.is('?')) {
      const line = this.t.line;
      this.i++;
      const a = this.condArm();
      this.want(':');
      const b = this.condArm();
      return { k: 'cond', c, a, b, line };
    }
    return c;
  }
  condArm() { this.eat('ref'); return this.expr(); }
  op(level) {
    const t = this.t;
    if (t.k !== 'p' && t.k !== 'kw') return null;
    const ops = BIN[level];
    if (t.v === '>') {
      if (this.shiftAssign()) return null;
      if (this.is('>', this.peek()) && this.adj(0)) return ops.includes('>>') ? ['>>', 2] : null;
      if (this.is('=', this.peek()) && this.adj(0)) return ops.includes('>=') ? ['>=', 2] : null;
      if (this.is('==', this.peek()) && this.adj(0)) return null;
    }
    return ops.includes(t.v) ? [t.v, 1] : null;
  }
  binary(level) {
    if (level >= BIN.length) return this.switchExpr(this.unary());
    let a = this.binary(level + 1);
    for (;;) {
      const o = this.op(level);
      if (!o) return a;
      const line = this.t.line;
      this.i += o[1];
      if (o[0] === 'is') { a = { k: 'is', a, pat: this.isPattern(), line }; continue; }
      if (o[0] === 'as') { a = { k: 'as', a, type: this.type({ noNull: !this.nullableAs() }), line }; continue; }
      if (o[0] === '??') {
        if (this.is('throw')) { this.i++; a = { k: 'bin', op: '??', a, b: { k: 'throwx', e: this.expr(), line }, line }; continue; }
        const lam = this.lambda();
        a = { k: 'bin', op: '??', a, b: lam || this.binary(0), line }; // right-associative
        continue;
      }
      a = { k: 'bin', op: o[0], a, b: this.binary(level + 1), line };
    }
  }
  nullableAs() {
    // `x as int? ...`: nullable only if what follows cannot start a ternary arm
    const i = this.i;
    try {
      this.type({ noNull: true });
      if (!this.is('?')) return false;
      const nx = this.peek();
      return this.is(')', nx) || this.is(';', nx) || this.is(',', nx) || this.is('??', nx) || this.is('==', nx) || this.is('!=', nx);
    } finally { this.i = i; }
  }
  isPattern() { return this.pattern(); }
  switchExpr(a) {
    while (this.is('switch') && this.is('{', this.peek())) {
      const line = this.t.line;
      this.i += 2;
      const arms = [];
      while (!this.eat('}')) {
        const pat = this.pattern();
        const when = this.eatCtx('when') ? this.expr() : null;
        this.want('=>');
        const e = this.is('throw') ? (this.i++, { k: 'throwx', e: this.expr(), line }) : this.expr();
        arms.push({ pat, when, e });
        if (!this.is('}')) this.want(',');
      }
      a = { k: 'switchx', a, arms, line };
    }
    return a;
  }
  unary() {
    const t = this.t, line = t.line;
    if (t.k === 'p') {
      if (['+', '-', '!', '~'].includes(t.v)) { this.i++; return { k: 'un', op: t.v, a: this.unary(), line }; }
      if (t.v === '++' || t.v === '--') { this.i++; return { k: 'pre', op: t.v, a: this.unary(), line }; }
      if (t.v === '&' || t.v === '*') throw new Unsupported('pointers');
      if (t.v === '(') {
        const c = this.attempt(() => {
          this.want('(');
          const type = this.type();
          this.want(')');
          const n = this.t;
          const prim = type.k === 'prim';
          const starts = n.k === 'id' || n.k === 'int' || n.k === 'real' || n.k === 'str' || n.k === 'char' || n.k === 'interp' ||
            (n.k === 'p' && ['(', '!', '~'].includes(n.v)) || (n.k === 'kw' && !['as', 'is', 'in', 'switch'].includes(n.v)) ||
            (prim && n.k === 'p' && ['-', '+', '++', '--'].includes(n.v));
          if (!starts) return null;
          if (type.k === 'tuple' && n.k === 'p') return null;
          return { type };
        });
        if (c) return { k: 'cast', type: c.type, a: this.unary(), line };
      }
    }
    if (this.isCtx('await')) throw new Unsupported('await');
    if (this.is('throw')) { this.i++; return { k: 'throwx', e: this.expr(), line }; }
    return this.postfix(this.primary());
  }
  genericArgs() {
    // after a name: type arguments if what follows them says so
    if (!this.is('<')) return null;
    return this.attempt(() => {
      const args = this.typeArgs();
      const n = this.t;
      if (n.k === 'eof' || (n.k === 'p' && ['(', ')', ']', '}', ':', ';', ',', '.', '?', '==', '!=', '|', '^', '&&', '||', '&', '[', '?.', '=>', '>'].includes(n.v))) return { args };
      return null;
    });
  }
  primary() {
    const t = this.t, line = t.line;
    switch (t.k) {
      case 'int': this.i++; return { k: 'int', v: t.v, suffix: t.suffix, line };
      case 'real': this.i++; return { k: 'real', v: t.v, line };
      case 'str': this.i++; return { k: 'str', v: t.v, line };
      case 'char': this.i++; return { k: 'char', v: t.v, line };
      case 'interp': {
        this.i++;
        const parts = t.v.map(p => {
          if (typeof p === 'string') return p;
          const q = new Parser(p.src, this.file, p.line);
          const e = q.expr();
          let fmt = null;
          if (q.eat(',')) q.expr();
          if (q.eat(':')) fmt = p.src.slice(q.toks[q.i - 1].at).trim();
          return { e, fmt };
        });
        return { k: 'interp', parts, line };
      }
      case 'id': {
        if (this.isCtx('nameof') && this.is('(', this.peek())) {
          this.i += 2;
          const e = this.expr();
          this.want(')');
          const last = e.k === 'member' ? e.name : e.k === 'name' ? e.name : this.fail();
          return { k: 'str', v: last, line };
        }
        let name = this.id();
        if (this.is('::')) { this.i++; name = this.id(); }
        const g = this.genericArgs();
        return { k: 'name', name, targs: g ? g.args : [], line };
      }
      case 'p':
        if (t.v === '(') {
          this.i++;
          const items = [];
          do {
            let name = null;
            if (this.t.k === 'id' && this.is(':', this.peek())) { name = this.id(); this.want(':'); }
            items.push({ name, e: this.expr() });
          } while (this.eat(','));
          this.want(')');
          if (items.length === 1) return { k: 'paren', e: items[0].e, line };
          return { k: 'tuplex', items, line };
        }
        break;
      case 'kw':
        switch (t.v) {
          case 'true': this.i++; return { k: 'bool', v: true, line };
          case 'false': this.i++; return { k: 'bool', v: false, line };
          case 'null': this.i++; return { k: 'null', line };
          case 'this': this.i++; return { k: 'this', line };
          case 'base': this.i++; return { k: 'base', line };
          case 'typeof': {
            this.i++;
            this.want('(');
            const type = this.type();
            this.want(')');
            return { k: 'typeof', type, line };
          }
          case 'sizeof': throw new Unsupported('sizeof');
          case 'default': {
            this.i++;
            if (this.eat('(')) { const type = this.type(); this.want(')'); return { k: 'default', type, line }; }
            return { k: 'default', type: null, line };
          }
          case 'checked':
          case 'unchecked': {
            this.i++;
            this.want('(');
            const e = this.expr();
            this.want(')');
            return { k: 'checkedx', on: t.v === 'checked', e, line };
          }
          case 'new': return this.newExpr();
          case 'delegate': return this.lambda();
          case 'stackalloc': throw new Unsupported('stackalloc');
          default:
            if (PREDEF[t.v]) { this.i++; return { k: 'primname', name: PREDEF[t.v], line }; }
        }
        break;
      default:
    }
    return this.fail();
  }
  newExpr() {
    const line = this.t.line;
    this.want('new');
    if (this.is('{')) throw new Unsupported('anonymous types');
    if (this.is('(')) throw new Unsupported('target-typed new');
    if (this.is('[') && this.is(']', this.peek())) {
      this.i += 2;
      return { k: 'newarr', of: null, size: null, items: this.arrayItems(), line };
    }
    // element type of an array creation must not swallow the rank
    let type = this.type({ noNull: true });
    if (this.is('?') && this.is('[', this.peek())) { this.i++; type = { k: 'nullable', of: type }; }
    if (type.k === 'array') return { k: 'newarr', of: type.of, size: null, items: this.arrayItems(), line };
    if (this.is('[')) {
      this.i++;
      const size = this.expr();
      this.want(']');
      let of = type;
      while (this.is('[') && this.is(']', this.peek())) { this.i += 2; of = { k: 'array', of }; }
      return { k: 'newarr', of, size, items: this.is('{') ? this.arrayItems() : null, line };
    }
    const args = this.is('(') ? this.args() : [];
    let init = null;
    if (this.is('{')) init = this.objectInit();
    return { k: 'new', type, args, init, line };
  }
  objectInit() {
    this.want('{');
    const items = [];
    while (!this.eat('}')) {
      if (this.t.k === 'id' && this.is('=', this.peek())) {
        const name = this.id();
        this.want('=');
        items.push(this.is('{') ? { k: 'nested', name, init: this.objectInit() } : { k: 'prop', name, e: this.expr() });
      } else if (this.is('[')) {
        this.i++;
        const idx = [this.expr()];
        while (this.eat(',')) idx.push(this.expr());
        this.want(']');
        this.want('=');
        items.push({ k: 'index', idx, e: this.expr() });
      } else if (this.is('{')) {
        this.i++;
        const es = [this.expr()];
        while (this.eat(',')) es.push(this.expr());
        this.want('}');
        items.push({ k: 'add', es });
      } else items.push({ k: 'add', es: [this.expr()] });
      if (!this.is('}')) this.want(',');
    }
    return items;
  }
  postfix(a) {
    for (;;) {
      const t = this.t, line = t.line;
      if (t.k !== 'p') return a;
      if (t.v === '.') {
        this.i++;
        const name = this.id();
        const g = this.genericArgs();
        a = { k: 'member', a, name, targs: g ? g.args : [], line };
      } else if (t.v === '(') {
        a = { k: 'call', f: a, args: this.args(), line };
      } else if (t.v === '[') {
        this.i++;
        const idx = [this.arg()];
        while (this.eat(',')) idx.push(this.arg());
        this.want(']');
        a = { k: 'index', a, idx, line };
      } else if (t.v === '++' || t.v === '--') {
        this.i++;
        a = { k: 'post', op: t.v, a, line };
      } else if (t.v === '!' ) {
        // the null-forgiving operator
        const n = this.peek();
        if (n.k === 'p' && ['.', ')', ';', ',', '[', '(', ']'].includes(n.v)) { this.i++; continue; }
        return a;
      } else if (t.v === '?.' || (t.v === '?' && this.is('[', this.peek()) && this.condIndex())) {
        this.i++;
        const hole = { k: 'hole', line };
        let rest = hole;
        if (t.v === '?.') {
          const name = this.id();
          const g = this.genericArgs();
          rest = { k: 'member', a: hole, name, targs: g ? g.args : [], line };
        }
        rest = this.postfix(rest);
        a = { k: 'condacc', a, rest, line };
      } else return a;
    }
  }
  condIndex() {
    // `a?[i]` as opposed to `a ? [..]`, which no version supported here has
    return true;
  }
}

function parse(src, file) {
  return new Parser(src, file).file_();
}

module.exports = { parse, SyntaxError_, Unsupported };
