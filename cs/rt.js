'use strict';
// The runtime of the C# interpreter: types, values, conversions, overload resolution and the part of the
// base class library that the client runtime (or a reasonable rewrite of it) uses.

const { Unsupported } = require('./parse');
const { CompileError } = require('./gen');

// ---------------------------------------------------------------- values

class Num { constructor(t, v, lit) { this.t = t; this.v = v; this.lit = !!lit; } }
class EnumVal { constructor(cls, num) { this.cls = cls; this.num = num; } }
class Obj { constructor(cls) { this.cls = cls; this.f = Object.create(null); this.$b = null; } }
class Bcl { constructor(t) { this.t = t; } }
class CsArray { constructor(of, a) { this.of = of; this.a = a; } }
class Delegate { constructor(list) { this.list = list; } }
class TypeObj { constructor(t) { this.t = t; } }
class Tuple { constructor(items, names) { this.items = items; this.names = names; } }
class Seq { constructor(t, gen) { this.t = t; this.gen = gen; } }
class Thrown { constructor(value) { this.value = value; } }
class Fuel extends Error {}
class IllTyped extends Error {}   // the text would not compile

const INTS = { SByte: [8, true], Byte: [8, false], Int16: [16, true], UInt16: [16, false], Int32: [32, true], UInt32: [32, false], Int64: [64, true], UInt64: [64, false], Char: [16, false] };
const WIDEN = {
  SByte: ['Int16', 'Int32', 'Int64'], Byte: ['Int16', 'UInt16', 'Int32', 'UInt32', 'Int64', 'UInt64'],
  Int16: ['Int32', 'Int64'], UInt16: ['Int32', 'UInt32', 'Int64', 'UInt64'], Int32: ['Int64'], UInt32: ['Int64', 'UInt64'],
  Int64: [], UInt64: [], Char: ['UInt16', 'Int32', 'UInt32', 'Int64', 'UInt64'], Single: ['Double'], Double: [],
};
for (const k of Object.keys(INTS)) WIDEN[k] = new Set(WIDEN[k].concat(['Single', 'Double']));
WIDEN.Single = new Set(WIDEN.Single);
WIDEN.Double = new Set();
const REALS = new Set(['Single', 'Double']);
const NUMERIC = new Set([...Object.keys(INTS), 'Single', 'Double']);
const wide = t => t === 'Int64' || t === 'UInt64';
const MIN = {}, MAX = {};
for (const k of Object.keys(INTS)) {
  const [b, s] = INTS[k];
  MIN[k] = s ? -(1n << BigInt(b - 1)) : 0n;
  MAX[k] = s ? (1n << BigInt(b - 1)) - 1n : (1n << BigInt(b)) - 1n;
}
function wrapInt(t, v) { // v: number or BigInt; the value modulo the width of t
  switch (t) {
    case 'Int32': return typeof v === 'number' && Number.isSafeInteger(v) ? v | 0 : Number(BigInt.asIntN(32, BigInt(v)));
    case 'UInt32': return typeof v === 'number' && Number.isSafeInteger(v) ? v >>> 0 : Number(BigInt.asUintN(32, BigInt(v)));
    case 'Byte': return Number(typeof v === 'number' ? v & 0xff : BigInt.asUintN(8, v));
    case 'Int64': return BigInt.asIntN(64, BigInt(v));
    case 'UInt64': return BigInt.asUintN(64, BigInt(v));
    default: { const [b, s] = INTS[t]; return Number(s ? BigInt.asIntN(b, BigInt(v)) : BigInt.asUintN(b, BigInt(v))); }
  }
}
const num = (t, v) => new Num(t, v);
const i32 = v => new Num('Int32', v);
const isBox = x => x !== null && typeof x === 'object' && Object.getPrototypeOf(x) === Object.prototype;

// ---------------------------------------------------------------- types

const types = new Map();
let typeId = 0;
function intern(key, make) {
  let t = types.get(key);
  if (!t) { t = make(); t.id = typeId++; types.set(key, t); }
  return t;
}
const prim = name => intern('p' + name, () => ({ kind: 'prim', name }));
const P = {};
for (const n of ['Object', 'String', 'Boolean', 'Void', 'Decimal', ...NUMERIC]) P[n] = prim(n);
const DYN = intern('dyn', () => ({ kind: 'dyn' }));
const NULLT = intern('null', () => ({ kind: 'null' }));
const ids = ts => ts.map(t => t.id).join(',');

class Runtime {
  constructor() {
    this.T = [];
    this.tcache = [];
    this.p = P;
    this.prog = null;
    this.dflt = { dflt: true };
    this.lits = new Map();
    this.out = [];
    this.err = [];
    this.fuel = Infinity;
    this.depth = 0;
  }
  t(i) { return this.tcache[i] || (this.tcache[i] = this.T[i](this, this.T)); }
  tick() { if (--this.fuel < 0) throw new Fuel('the program does not end'); }

  // ---- type constructors
  cls(id, args) {
    return intern(`c${id}[${ids(args)}]`, () => {
      const def = this.prog.defs.find(d => d.id === id);
      return { kind: 'cls', def, args, statics: null, look: new Map(), sup: null };
    });
  }
  bcl(key, args) { return intern(`b${key}[${ids(args)}]`, () => ({ kind: 'bcl', b: BCL.get(key), key, args })); }
  arr(of) { return intern(`a${of.id}`, () => ({ kind: 'arr', of })); }
  tup(elems, names) { return intern(`t${ids(elems)}`, () => ({ kind: 'tup', elems, names })); }
  nullable(of) { return this.isValueType(of) ? intern(`n${of.id}`, () => ({ kind: 'nullable', of })) : of; }
  isValueType(t) {
    return t.kind === 'prim' ? t.name !== 'String' && t.name !== 'Object' : t.kind === 'cls' ? t.def.kind === 'enum' || t.def.kind === 'struct' : t.kind === 'tup' || (t.kind === 'bcl' && !!t.b.struct);
  }
  bclType(full, arity) {
    if (full.startsWith('System.')) {
      const n = full.slice(7);
      if (!arity && P[n] && n !== 'Void') return { prim: n };
    }
    return BCL.get(full + '`' + arity) || null;
  }
  isNamespace(full) { return NAMESPACES.has(full); }
  isInterface(b) { return !!b.iface; }
  bclHas(b, n) {
    for (let x = b; x; x = x.base ? BCL.get(x.base) : null) if (x.m[n] || x.g[n] || x.s[n]) return true;
    return !!OBJECT[n];
  }
  bclStatic(b, n) { for (let x = b; x; x = x.base ? BCL.get(x.base) : null) if (x.s[n] || x.sg[n]) return true; return false; }
  primStatic(p, n) { return !!primStatic(p, n); }

  // the class types above a class type: its base class and its interfaces
  sup(T) {
    if (T.sup) return T.sup;
    T.sup = [];
    const { Ctx } = require('./gen');
    for (const b of T.def.bases) {
      const code = new Ctx(this.prog, T.def, b.scope, true).typeCode(b.ast);
      T.sup.push(new Function('$', 'C', 'M', 'return ' + code)(this, T, null));
    }
    return T.sup;
  }
  baseOf(T) { // the base class type
    for (const s of this.sup(T)) if (s.kind === 'cls' ? s.def.kind !== 'interface' : s.kind === 'bcl' && !s.b.iface) return s;
    return null;
  }
  superOf(C, id) {
    for (let T = C; T && T.kind === 'cls'; T = this.baseOf(T)) if (T.def.id === id) return T;
    throw new Unsupported('a class above that is not there');
  }
  // every type that a type converts to by reference or boxing
  supers(t) {
    if (t.supers) return t.supers;
    const all = new Set([t]);
    const add = x => { for (const y of this.supers(x)) all.add(y); };
    if (t.kind === 'cls') { if (t.def.kind !== 'enum') for (const s of this.sup(t)) add(s); }
    else if (t.kind === 'bcl') {
      if (t.b.base) add(this.bcl(t.b.base, t.b.baseArgs ? t.b.baseArgs(t.args) : []));
      for (const i of t.b.ifaces ? t.b.ifaces(t.args, this) : []) add(i);
    } else if (t.kind === 'arr') for (const n of ['IList', 'IReadOnlyList']) add(this.bcl(`System.Collections.Generic.${n}\`1`, [t.of]));
    else if (t === P.String) add(this.bcl('System.Collections.Generic.IEnumerable`1', [P.Char]));
    all.add(P.Object);
    t.supers = all;
    return all;
  }
  assignable(from, to) {
    if (from === to || to === DYN || from === DYN || to === P.Object) return true;
    if (to.kind === 'nullable') return from === to.of;
    if (from === NULLT) return !this.isValueType(to);
    if (this.supers(from).has(to)) return true;
    if (to.kind === 'bcl' && to.b.covariant && !this.isValueType(to.args[0])) {
      for (const s of this.supers(from)) if (s.key === to.key && !this.isValueType(s.args[0]) && this.assignable(s.args[0], to.args[0])) return true;
    }
    if (from.kind === 'tup' && to.kind === 'tup') return from.elems.length === to.elems.length && from.elems.every((e, i) => this.implicit(e, to.elems[i]));
    return false;
  }
  isDelegateType(t) { return (t.kind === 'bcl' && t.b.delegate) || (t.kind === 'cls' && t.def.kind === 'delegate'); }
  // implicit conversion between types
  implicit(from, to) {
    if (this.assignable(from, to)) return true;
    if (to.kind === 'nullable') return this.implicit(from.kind === 'nullable' ? from.of : from, to.of);
    if (from.kind === 'prim' && to.kind === 'prim' && NUMERIC.has(from.name)) return WIDEN[from.name].has(to.name);
    return false;
  }
  typeOfVal(v) {
    if (v === null || v === undefined) return NULLT;
    if (typeof v === 'string') return P.String;
    if (typeof v === 'boolean') return P.Boolean;
    if (v instanceof Num) return P[v.t];
    if (v instanceof Obj || v instanceof EnumVal) return v.cls;
    if (v instanceof Bcl || v instanceof Seq) return v.t;
    if (v instanceof CsArray) return this.arr(v.of);
    if (v instanceof TypeObj) return this.bcl('System.Type`0', []);
    if (v instanceof Tuple) return this.tup(v.items.map(x => this.typeOfVal(x)), v.names);
    if (v instanceof Delegate) return this.bcl('System.Delegate`0', []);
    throw new Unsupported('the type of a value');
  }
  typeName(t) {
    switch (t.kind) {
      case 'prim': return 'System.' + t.name;
      case 'cls': return t.def.full + (t.args.length ? `[${t.args.map(a => `[${this.typeName(a)}, mscorlib]`).join(',')}]` : '');
      case 'bcl': return t.b.full + (t.args.length ? '`' + t.args.length + `[${t.args.map(a => `[${this.typeName(a)}, mscorlib]`).join(',')}]` : '');
      case 'arr': return this.typeName(t.of) + '[]';
      case 'nullable': return `System.Nullable\`1[[${this.typeName(t.of)}, mscorlib]]`;
      case 'tup': return `System.ValueTuple\`${t.elems.length}[${t.elems.map(a => `[${this.typeName(a)}, mscorlib]`).join(',')}]`;
      default: return t.kind;
    }
  }
  show(t) {
    return t.kind === 'prim' ? t.name : t.kind === 'cls' ? t.def.name + (t.args.length ? `<${t.args.map(a => this.show(a))}>` : '') :
      t.kind === 'bcl' ? t.b.name + (t.args.length ? `<${t.args.map(a => this.show(a))}>` : '') : t.kind === 'arr' ? this.show(t.of) + '[]' : t.kind === 'nullable' ? this.show(t.of) + '?' : t.kind;
  }

  // ---- errors
  fail(name, msg) {
    const key = ['System.', 'System.IO.', 'System.Collections.Generic.', 'System.Reflection.'].map(n => n + name + '`0').find(k => BCL.has(k));
    const e = new Bcl(this.bcl(key, []));
    e.msg = msg === undefined ? null : msg;
    e.inner = null;
    return new Thrown(e);
  }
  thrown(v) {
    if (v === null) return this.fail('NullReferenceException');
    return new Thrown(v);
  }
  throw_(v) { throw this.thrown(v); }
  catchable(e) {
    if (e instanceof Thrown) return e;
    throw e;
  }
  describe(e) { // of a Thrown
    const v = e.value, b = v instanceof Obj ? v.$b : v;
    return `${this.show(this.typeOfVal(v))}: ${b && b.msg !== null && b.msg !== undefined ? b.msg : ''}${b && b.inner ? ` (${this.describe(new Thrown(b.inner))})` : ''}`;
  }
  nre() { return this.fail('NullReferenceException', 'Object reference not set to an instance of an object'); }

  // ---- literals and simple values
  lit(t, s) {
    const k = t + s;
    let n = this.lits.get(k);
    if (!n) { n = new Num(t, wide(t) ? BigInt(s) : Number(s), true); this.lits.set(k, n); }
    return n;
  }
  dbl(v) { return new Num('Double', v, true); }
  chr(c) { return new Num('Char', typeof c === 'string' ? c.charCodeAt(0) : c, true); }
  val(v) {
    if (v === undefined) throw new Unsupported('no value');
    if (v === this.dflt) throw new IllTyped('there is no target type for the default literal');
    return v instanceof Num && v.lit ? new Num(v.t, v.v) : v;
  }
  bool(v) {
    if (v === true || v === false) return v;
    throw new IllTyped(`a condition is of type ${this.show(this.typeOfVal(v))}`);
  }
  def(t) {
    if (t.kind === 'prim') {
      if (wide(t.name)) return new Num(t.name, 0n);
      if (NUMERIC.has(t.name)) return new Num(t.name, 0);
      if (t.name === 'Boolean') return false;
      return null;
    }
    if (t.kind === 'cls' && t.def.kind === 'enum') return new EnumVal(t, this.def(this.under(t)));
    if (t.kind === 'cls' && t.def.kind === 'struct') return this.blank(t);
    if (t.kind === 'tup') return new Tuple(t.elems.map(e => this.def(e)), t.names);
    if (t.kind === 'bcl' && t.b.struct) throw new Unsupported('default of ' + t.key);
    if (t.kind === 'dyn') throw new Unsupported('default of an unknown type');
    return null;
  }
  eqDefault(v) {
    if (v === null) return true;
    if (v instanceof Num) return Number(v.v) === 0;
    if (typeof v === 'boolean') return !v;
    if (v instanceof EnumVal) return Number(v.num.v) === 0;
    return false;
  }

  // ---- conversions
  convNum(n, t) { // explicit conversion of a number
    if (n.t === t && !n.lit) return n;
    if (REALS.has(t)) return new Num(t, t === 'Single' ? Math.fround(Number(n.v)) : Number(n.v));
    if (REALS.has(n.t)) {
      const x = Math.trunc(n.v);
      return new Num(t, wrapInt(t, Number.isFinite(x) ? BigInt(x) : 0n));
    }
    return new Num(t, wrapInt(t, n.v));
  }
  fits(n, t) { // an implicit conversion of a number
    if (n.t === t || WIDEN[n.t].has(t)) return true;
    if (!n.lit || !INTS[n.t] || !INTS[t] || n.t === 'Char' || t === 'Char') return false;
    if (n.t === 'Int32') return BigInt(n.v) >= MIN[t] && BigInt(n.v) <= MAX[t];
    return n.t === 'Int64' && t === 'UInt64' && n.v >= 0n;
  }
  convertible(v, t) {
    if (v === undefined) return true;
    if (v === this.dflt || t === DYN) return true;
    if (v === null) return t.kind === 'nullable' || !this.isValueType(t);
    const u = t.kind === 'nullable' ? t.of : t;
    if (v instanceof Num) {
      if (u.kind === 'prim' && NUMERIC.has(u.name)) return this.fits(v, u.name);
      if (u.kind === 'cls' && u.def.kind === 'enum') return v.lit && Number(v.v) === 0;
      return this.assignable(P[v.t], u);
    }
    if (v instanceof Delegate) return this.isDelegateType(u) || u === P.Object || u.key === 'System.Delegate`0' || u.key === 'System.MulticastDelegate`0';
    if (v instanceof Tuple && u.kind === 'tup') return u.elems.length === v.items.length && v.items.every((x, i) => this.convertible(x, u.elems[i]));
    return this.assignable(this.typeOfVal(v), u);
  }
  // implicit conversion of a value
  co(t, v) {
    if (v instanceof Num) {
      if (t.kind === 'prim') {
        if (v.t === t.name) return v.lit ? new Num(v.t, v.v) : v;
        if (t.name === 'Object') return v.lit ? new Num(v.t, v.v) : v;
        if (NUMERIC.has(t.name)) {
          if (!this.fits(v, t.name)) throw new IllTyped(`cannot implicitly convert ${v.t} to ${t.name}`);
          return this.convNum(v, t.name);
        }
      }
    } else if (v === null) {
      if (t.kind === 'nullable' || !this.isValueType(t)) return v;
      throw new IllTyped(`cannot convert null to ${this.show(t)}`);
    }
    if (v === this.dflt) return this.def(t);
    if (v === undefined) return v;
    if (t === DYN) return this.val(v);
    if (t.kind === 'nullable') return this.co(t.of, v);
    if (t.kind === 'cls' && t.def.kind === 'enum' && v instanceof Num && v.lit && Number(v.v) === 0) return this.def(t);
    if (t.kind === 'prim' && t.name === 'Void') throw new IllTyped('a value where there is none');
    if (!this.convertible(v, t)) throw new IllTyped(`cannot implicitly convert ${this.show(this.typeOfVal(v))} to ${this.show(t)}`);
    if (v instanceof Tuple && t.kind === 'tup') return new Tuple(v.items.map((x, i) => this.co(t.elems[i], x)), t.names.some(x => x) ? t.names : v.names);
    if (v instanceof Num && v.lit) return new Num(v.t, v.v);
    if (v instanceof Obj && v.cls.def.kind === 'struct') return this.copyStruct(v);
    return v;
  }
  copyStruct(v) {
    const o = new Obj(v.cls);
    Object.assign(o.f, v.f);
    return o;
  }
  under(t) {
    if (!t.def.under) return P.Int32;
    if (!t.underT) { const { Ctx } = require('./gen'); t.underT = new Function('$', 'return ' + new Ctx(this.prog, t.def, t.def.scope, true).typeCode(t.def.under))(this); }
    return t.underT;
  }
  cast(t, v, checked) {
    if (v === this.dflt) return this.def(t);
    const u = t.kind === 'nullable' ? t.of : t;
    if (v === null || v === undefined) {
      if (t.kind !== 'nullable' && this.isValueType(t)) throw this.nre();
      return null;
    }
    if (v instanceof EnumVal) {
      if (u.kind === 'prim' && NUMERIC.has(u.name)) { const n = this.convNum(v.num, u.name); return new Num(n.t, n.v, v.lit); }
      if (u.kind === 'cls' && u.def.kind === 'enum') return new EnumVal(u, this.convNum(v.num, this.under(u).name));
    }
    if (v instanceof Num) {
      if (u.kind === 'prim' && NUMERIC.has(u.name)) {
        if (checked && INTS[u.name] && INTS[v.t] && (BigInt(v.v) < MIN[u.name] || BigInt(v.v) > MAX[u.name])) throw this.fail('OverflowException', 'Arithmetic operation resulted in an overflow.');
        const n = this.convNum(v, u.name);
        return v.lit ? new Num(n.t, n.v, true) : n;
      }
      if (u.kind === 'cls' && u.def.kind === 'enum') return new EnumVal(u, this.convNum(v, this.under(u).name));
    }
    if (!this.convertible(v, t)) throw this.fail('InvalidCastException', `Unable to cast object of type '${this.show(this.typeOfVal(v))}' to type '${this.show(t)}'.`);
    return this.co(t, v);
  }
  castck(t, v) { return this.cast(t, v, true); }
  // a cast to a type parameter: unboxing, which changes no representation
  unbox(t, v) {
    if (v === null || v === undefined) return this.cast(t, v);
    const u = t.kind === 'nullable' ? t.of : t;
    if (v === this.dflt) return this.def(t);
    if (u !== DYN && this.isValueType(u) ? this.typeOfVal(v) !== u : !this.convertible(v, u)) throw this.fail('InvalidCastException', `Unable to cast object of type '${this.show(this.typeOfVal(v))}' to type '${this.show(t)}'.`);
    return this.val(v);
  }
  is(v, t) {
    if (v === null || v === undefined) return false;
    const u = t.kind === 'nullable' ? t.of : t;
    if (v instanceof Delegate) return this.isDelegateType(u) || u === P.Object;
    return this.assignable(this.typeOfVal(v), u);
  }
  as(v, t) { return this.is(v, t) ? v : null; }
  like(old, v) {
    if (v instanceof Num) {
      if (old instanceof Num && !old.lit) return this.convNum(v, old.t);
      return v.lit ? new Num(v.t, v.v) : v;
    }
    return v;
  }

  // ---- operators
  promote(a, b, op) {
    const [x, y] = [a.t, b.t];
    if (x === 'Double' || y === 'Double') return 'Double';
    if (x === 'Single' || y === 'Single') return 'Single';
    if (x === 'UInt64' || y === 'UInt64') {
      const o = x === 'UInt64' ? b : a;
      if (['SByte', 'Int16', 'Int32', 'Int64'].includes(o.t) && !(o.lit && BigInt(o.v) >= 0n && (o.t === 'Int32' || o.t === 'Int64'))) {
        throw new IllTyped(`operator ${op} is ambiguous on ${x} and ${y}`);
      }
      return 'UInt64';
    }
    if (x === 'Int64' || y === 'Int64') return 'Int64';
    if (x === 'UInt32' || y === 'UInt32') {
      const o = x === 'UInt32' ? b : a;
      if (o.t === 'UInt32' || o.t === 'Byte' || o.t === 'UInt16' || o.t === 'Char') return 'UInt32';
      if (o.lit && o.t === 'Int32' && o.v >= 0) return 'UInt32';
      return 'Int64';
    }
    return 'Int32';
  }
  bin(op, a, b, checked) {
    if (a === undefined || b === undefined) throw new Unsupported('no value');
    if (op === '+' && (typeof a === 'string' || typeof b === 'string')) return this.str(a) + this.str(b);
    if (a instanceof Delegate || b instanceof Delegate) {
      if (op === '+') return new Delegate((a ? a.list : []).concat(b ? b.list : []));
      if (op === '-') {
        if (!a) return null;
        if (!b) return a;
        for (let i = a.list.length - b.list.length; i >= 0; i--) {
          if (b.list.every((d, j) => sameTarget(a.list[i + j], d))) {
            const l = a.list.slice(0, i).concat(a.list.slice(i + b.list.length));
            return l.length ? new Delegate(l) : null;
          }
        }
        return a;
      }
    }
    if (typeof a === 'boolean' && typeof b === 'boolean') {
      if (op === '&') return a && b;
      if (op === '|') return a || b;
      if (op === '^') return a !== b;
    }
    if (a instanceof EnumVal && b instanceof EnumVal && ['&', '|', '^', '-'].includes(op)) {
      const r = this.bin(op, a.num, b.num, checked);
      return op === '-' ? r : new EnumVal(a.cls, this.convNum(r, a.num.t));
    }
    if (a === null || b === null) {
      if ((a === null || a instanceof Num) && (b === null || b instanceof Num)) return null; // lifted
      throw new IllTyped(`operator ${op} on null`);
    }
    if (!(a instanceof Num && b instanceof Num)) throw new IllTyped(`operator ${op} on ${this.show(this.typeOfVal(a))} and ${this.show(this.typeOfVal(b))}`);
    const lit = a.lit && b.lit;
    if (op === '<<' || op === '>>') {
      if (!this.fits(b, 'Int32')) throw new IllTyped(`a shift by ${b.t}`);
      if (!INTS[a.t]) throw new IllTyped(`a shift of ${a.t}`);
      const t = ['UInt32', 'Int64', 'UInt64'].includes(a.t) ? a.t : 'Int32';
      const n = Number(b.v) & (wide(t) ? 63 : 31);
      const x = BigInt(a.v);
      return new Num(t, wrapInt(t, op === '<<' ? x << BigInt(n) : x >> BigInt(n)), lit);
    }
    const t = this.promote(a, b, op);
    if (REALS.has(t)) {
      const x = Number(a.v), y = Number(b.v);
      const r = op === '+' ? x + y : op === '-' ? x - y : op === '*' ? x * y : op === '/' ? x / y : op === '%' ? x % y : null;
      if (r === null) throw new IllTyped(`operator ${op} on ${t}`);
      return new Num(t, t === 'Single' ? Math.fround(r) : r, lit);
    }
    if (!wide(t) && op !== '*') {
      const x = a.v, y = b.v;
      let r;
      switch (op) {
        case '+': r = x + y; break;
        case '-': r = x - y; break;
        case '&': r = x & y; break;
        case '|': r = x | y; break;
        case '^': r = x ^ y; break;
        case '/': if (y === 0) throw this.fail('DivideByZeroException'); r = Math.trunc(x / y); break;
        case '%': if (y === 0) throw this.fail('DivideByZeroException'); r = x % y; break;
        default: throw new Unsupported('operator ' + op);
      }
      if (checked && (op === '+' || op === '-') && (r < Number(MIN[t]) || r > Number(MAX[t]))) throw this.fail('OverflowException', 'Arithmetic operation resulted in an overflow.');
      return new Num(t, t === 'Int32' ? r | 0 : r >>> 0, lit);
    }
    const x = BigInt(a.v), y = BigInt(b.v);
    let r;
    switch (op) {
      case '+': r = x + y; break;
      case '-': r = x - y; break;
      case '*': r = x * y; break;
      case '&': r = x & y; break;
      case '|': r = x | y; break;
      case '^': r = x ^ y; break;
      case '/': if (y === 0n) throw this.fail('DivideByZeroException'); r = x / y; break;
      case '%': if (y === 0n) throw this.fail('DivideByZeroException'); r = x % y; break;
      default: throw new Unsupported('operator ' + op);
    }
    if (checked && '+-*'.includes(op) && (r < MIN[t] || r > MAX[t])) throw this.fail('OverflowException', 'Arithmetic operation resulted in an overflow.');
    return new Num(t, wrapInt(t, r), lit);
  }
  un(op, a) {
    if (op === '!') return !this.bool(a);
    if (a === null) return null;
    if (!(a instanceof Num)) {
      if (op === '~' && a instanceof EnumVal) return new EnumVal(a.cls, this.convNum(this.un('~', a.num), a.num.t));
      throw new IllTyped(`operator ${op} on ${this.show(this.typeOfVal(a))}`);
    }
    if (REALS.has(a.t)) return op === '-' ? new Num(a.t, -a.v, a.lit) : a;
    if (op === '-') {
      if (a.t === 'UInt64') throw new IllTyped('operator - on UInt64');
      const t = a.t === 'UInt32' || a.t === 'Int64' ? 'Int64' : 'Int32';
      return new Num(t, wrapInt(t, -BigInt(a.v)), a.lit);
    }
    const t = ['UInt32', 'Int64', 'UInt64'].includes(a.t) ? a.t : 'Int32';
    if (op === '~') return new Num(t, wrapInt(t, ~BigInt(a.v)), a.lit);
    if (op === '+') return new Num(t, wrapInt(t, a.v), a.lit);
    throw new Unsupported('operator ' + op);
  }
  cmp(op, a, b) {
    if (a === null || b === null) return false;
    if (a instanceof EnumVal && b instanceof EnumVal) return this.cmp(op, a.num, b.num);
    if (!(a instanceof Num && b instanceof Num)) throw new IllTyped(`operator ${op} on ${this.show(this.typeOfVal(a))} and ${this.show(this.typeOfVal(b))}`);
    const t = this.promote(a, b, op);
    const x = wide(t) ? BigInt(a.v) : a.v, y = wide(t) ? BigInt(b.v) : b.v;
    return op === '<' ? x < y : op === '>' ? x > y : op === '<=' ? x <= y : x >= y;
  }
  eq(a, b) {
    if (a === undefined || b === undefined) throw new Unsupported('no value');
    if (a === null || b === null) return a === b;
    if (a instanceof Num && b instanceof Num) {
      const t = this.promote(a, b, '==');
      return wide(t) ? BigInt(a.v) === BigInt(b.v) : Number(a.v) === Number(b.v);
    }
    if (a instanceof EnumVal || b instanceof EnumVal) {
      if (a instanceof EnumVal && b instanceof EnumVal && a.cls === b.cls) return a.num.v === b.num.v;
      const [e, n] = a instanceof EnumVal ? [a, b] : [b, a];
      if (n instanceof Num && n.lit && Number(n.v) === 0) return Number(e.num.v) === 0;
      throw new IllTyped('an enum is compared with something else');
    }
    if (a instanceof TypeObj && b instanceof TypeObj) return a.t === b.t;
    if (a instanceof Delegate && b instanceof Delegate) return a.list.length === b.list.length && a.list.every((x, i) => sameTarget(x, b.list[i]));
    if (a instanceof Tuple && b instanceof Tuple) return a.items.length === b.items.length && a.items.every((x, i) => this.eq(x, b.items[i]));
    if (typeof a !== 'object' || typeof b !== 'object') {
      if (typeof a !== typeof b) throw new IllTyped(`${this.show(this.typeOfVal(a))} is compared with ${this.show(this.typeOfVal(b))}`);
      return a === b;
    }
    return a === b;
  }
  eqc(v, c) { // a constant pattern
    if (v === null || v === undefined) return c === null;
    if (v instanceof Num && c instanceof Num) return INTS[v.t] && INTS[c.t] ? BigInt(v.v) === BigInt(c.v) : v.v === c.v;
    return this.eq(v, c);
  }
  equals(a, b) { // Object.Equals
    if (a === null || b === null) return a === b;
    if (a instanceof Num) return b instanceof Num && a.t === b.t && a.v === b.v;
    if (a instanceof EnumVal) return b instanceof EnumVal && a.cls === b.cls && a.num.v === b.num.v;
    if (a instanceof Obj) {
      const m = this.methods(a.cls, 'Equals', x => !x.stat && x.params.length === 1);
      if (m.length) return this.bool(this.call(a, 'Equals', null, [b]));
      return a === b;
    }
    if (a instanceof TypeObj || a instanceof Delegate || a instanceof Tuple) return a.constructor === b.constructor && this.eq(a, b);
    if (a instanceof Bcl && a.t.b.struct) throw new Unsupported('equality of ' + a.t.key);
    return a === b;
  }
  key(v) { // a hashable image of a key
    if (v instanceof Num) return v.t + ':' + v.v;
    if (typeof v === 'string') return 's' + v;
    if (typeof v === 'boolean') return 'b' + v;
    if (v instanceof EnumVal) return `e${v.cls.id}:${v.num.v}`;
    if (v instanceof TypeObj) return 't' + v.t.id;
    if (v instanceof Tuple) return '(' + v.items.map(x => this.key(x)).join(',') + ')';
    if (v === null) throw this.fail('ArgumentNullException', 'key');
    if (v instanceof Obj && this.methods(v.cls, 'Equals', x => !x.stat && x.params.length === 1).length) throw new Unsupported('keys with their own equality');
    if (v.hash === undefined) Object.defineProperty(v, 'hash', { value: ++this.hashes || (this.hashes = 1), enumerable: false });
    return 'o' + v.hash;
  }

  // ---- text
  str(v) {
    if (v === null || v === undefined) return '';
    if (typeof v === 'string') return v;
    if (typeof v === 'boolean') return v ? 'True' : 'False';
    if (v instanceof Num) {
      if (v.t === 'Char') return String.fromCharCode(v.v);
      return String(v.v);
    }
    if (v instanceof EnumVal) {
      const s = this.enumItems(v.cls).find(([, n]) => BigInt(n.v) === BigInt(v.num.v));
      return s ? s[0] : String(v.num.v);
    }
    if (v instanceof Obj) {
      const ms = this.methods(v.cls, 'ToString', m => !m.stat && m.params.length === 0);
      if (ms.length) return this.call(v, 'ToString', null, []);
      if (v.$b && (v.$b.msg !== undefined)) return this.describe(new Thrown(v));
      return this.typeName(v.cls);
    }
    if (v instanceof TypeObj) return this.typeName(v.t);
    if (v instanceof Tuple) return '(' + v.items.map(x => this.str(x)).join(', ') + ')';
    if (v instanceof Bcl) {
      if (v.t.b.m.ToString) return v.t.b.m.ToString(this, v, []);
      if (v.msg !== undefined) return this.describe(new Thrown(v));
      return this.typeName(v.t);
    }
    return this.typeName(this.typeOfVal(v));
  }
  fmt1(v, fmt) {
    if (fmt) {
      let [, align, f] = /^(?:,(-?\d+))?(?::?(.*))?$/.exec(fmt) || [];
      let s;
      if (f && v instanceof Num && INTS[v.t]) {
        const m = /^([XxDd])(\d*)$/.exec(f);
        if (!m) throw new Unsupported('format ' + f);
        const n = Number(m[2] || 0);
        if (m[1] === 'D' || m[1] === 'd') s = (v.v < 0 ? '-' : '') + String(v.v < 0 ? -v.v : v.v).padStart(n, '0');
        else { s = BigInt.asUintN(INTS[v.t][0], BigInt(v.v)).toString(16).padStart(n, '0'); if (m[1] === 'X') s = s.toUpperCase(); }
      } else if (f) throw new Unsupported('format ' + f);
      else s = this.str(v);
      if (align) s = Number(align) < 0 ? s.padEnd(-Number(align)) : s.padStart(Number(align));
      return s;
    }
    return this.str(v);
  }
  format(args) {
    const f = args[0];
    if (f === null) throw this.fail('ArgumentNullException', 'format');
    const rest = args.length === 2 && args[1] instanceof CsArray && args[1].of === P.Object ? args[1].a : args.slice(1);
    return f.replace(/\{\{|\}\}|\{(\d+)((?:,-?\d+)?(?::[^}]*)?)\}|[{}]/g, (m, i, x) => {
      if (m === '{{') return '{';
      if (m === '}}') return '}';
      if (i === undefined || +i >= rest.length) throw this.fail('FormatException', 'Input string was not in a correct format.');
      return this.fmt1(rest[+i], x);
    });
  }

  // ---- members of classes
  // {kind, e, C} of a field, property or event; C: the class type that declares it
  look(T, name) {
    let r = T.look.get(name);
    if (r !== undefined) return r;
    r = null;
    for (let X = T; X && X.kind === 'cls'; X = this.baseOf(X)) {
      const e = X.def.members.get(name);
      if (e) { this.prog.member(X.def, e); r = { e, C: X }; break; }
    }
    if (!r && T.def.kind === 'interface') for (const s of this.sup(T)) if (s.kind === 'cls' && (r = this.look(s, name))) break;
    T.look.set(name, r);
    return r;
  }
  methods(T, name, pred) {
    const out = [];
    for (let X = T; X && X.kind === 'cls'; X = this.baseOf(X)) {
      const ms = X.def.methods.get(name);
      if (ms) for (const m of ms) if (!pred || pred(m)) out.push({ m, C: X });
    }
    return out;
  }
  cellOf(T, name) { // what a field is called in the storage of an object
    return name;
  }
  group(T, self, name) {
    const rt = this;
    const fn = (...args) => self ? rt.call(self, name, null, args) : rt.scall(T, name, null, args);
    return new Delegate([{ fn, self: self || null, T, name }]);
  }
  get(o, name) {
    if (o === null || o === undefined) throw this.nre();
    if (o instanceof Obj) {
      const r = this.look(o.cls, name);
      if (r) {
        const { e, C } = r;
        if (e.stat) throw new IllTyped(`${name} is static`);
        if (e.kind === 'prop') {
          if (!e.get) throw new IllTyped(`${name} cannot be read`);
          return e.get(C, o);
        }
        return o.f[name];
      }
      if (this.methods(o.cls, name, m => !m.stat).length) return this.group(o.cls, o, name);
      if (o.$b && bclProp(o.$b, name)) return this.bclGet(o.$b, name, o);
      if (this.prog.ext.has(name)) return this.extGroup(o, name);
      throw new IllTyped(`${this.show(o.cls)} has no ${name}`);
    }
    return this.bclGet(o, name, o);
  }
  extGroup(o, name) {
    const rt = this;
    return new Delegate([{ fn: (...args) => rt.call(o, name, null, args), self: o, T: null, name }]);
  }
  bclGet(o, name) {
    if (name === 'Value' && (o instanceof Num || o instanceof EnumVal || typeof o === 'boolean' || o instanceof Tuple)) return o; // of a nullable
    if (name === 'HasValue' && (o instanceof Num || o instanceof EnumVal || typeof o === 'boolean' || o instanceof Tuple)) return true;
    const g = bclProp(o, name);
    if (g) return g(this, o);
    if (o instanceof Tuple) {
      const i = o.names.indexOf(name);
      if (i >= 0) return o.items[i];
      const m = /^Item(\d+)$/.exec(name);
      if (m && o.items[m[1] - 1] !== undefined) return o.items[m[1] - 1];
    }
    const me = bclMethod(o, name) || OBJECT[name];
    if (me) return new Delegate([{ fn: (...args) => this.call(o, name, null, args), self: o, T: null, name }]);
    if (this.prog.ext.has(name)) return this.extGroup(o, name);
    throw new IllTyped(`${this.show(this.typeOfVal(o))} has no ${name}, or it is not supported`);
  }
  set(o, name, v) {
    if (o === null || o === undefined) throw this.nre();
    if (o instanceof Obj) {
      const r = this.look(o.cls, name);
      if (r) {
        const { e, C } = r;
        if (e.stat) throw new IllTyped(`${name} is static`);
        const x = this.co(e.tfn(C), v);
        if (e.kind === 'prop') {
          if (!e.set) throw new IllTyped(`${name} cannot be assigned`);
          e.set(C, o, x);
        } else o.f[name] = x;
        return x;
      }
      if (o.$b && o.$b.t.b.st && o.$b.t.b.st[name]) return o.$b.t.b.st[name](this, o.$b, v);
      throw new IllTyped(`${this.show(o.cls)} has no ${name} to assign`);
    }
    if (o instanceof Bcl && o.t.b.st && o.t.b.st[name]) return o.t.b.st[name](this, o, v);
    throw new IllTyped(`${this.show(this.typeOfVal(o))} has no ${name} to assign`);
  }
  event(o, name, op, v) {
    const stat = !(o instanceof Obj);
    const r = o === null ? (() => { throw this.nre(); })() : this.look(stat ? o : o.cls, name);
    if (r && r.e.kind === 'cevent') {
      const x = this.co(r.e.tfn(r.C), v);
      (op === '+' ? r.e.add : r.e.remove)(r.C, stat ? null : o, x);
      return null;
    }
    if (stat) return this.sset(o, name, this.bin(op, this.sget(o, name), v));
    return this.set(o, name, this.bin(op, this.get(o, name), v));
  }

  // ---- statics
  statics(T) {
    if (T.statics) {
      if (T.statics.broken) throw new Thrown(T.statics.broken);
      return T.statics.f;
    }
    T.statics = { f: Object.create(null), broken: null };
    const f = T.statics.f;
    try {
      for (const e of T.def.fields) if (e.stat) { this.prog.member(T.def, e); f[e.name] = this.def(e.tfn(T)); }
      for (const e of T.def.fields) if (e.stat && e.ifn) { const v = e.ifn(T, null); f[e.name] = e.konst && v instanceof Num ? new Num(v.t, v.v, true) : v; }
      for (const c of T.def.sctors) this.prog.sctor(T.def, c)(T);
    } catch (e) {
      if (e instanceof Thrown) {
        const x = this.fail('TypeInitializationException', `The type initializer for '${this.show(T)}' threw an exception.`).value;
        x.inner = e.value;
        T.statics.broken = x;
        throw new Thrown(x);
      }
      throw e;
    }
    return f;
  }
  enumItems(T) {
    if (T.itemsV) return T.itemsV;
    T.itemsV = [];
    const { Ctx } = require('./gen');
    const u = this.under(T).name;
    let next = new Num(u, wide(u) ? 0n : 0);
    for (const it of T.def.items) {
      let n = next;
      if (it.value) {
        let x = new Function('$', '$t', 'C', 'self', 'M', 'return ' + new Ctx(this.prog, T.def, T.def.scope, true).expr(it.value))(this, this.T, T, null, null);
        if (x instanceof EnumVal) x = x.num;
        n = this.convNum(x, u);
      }
      T.itemsV.push([it.id, n]);
      next = new Num(u, wrapInt(u, BigInt(n.v) + 1n));
    }
    return T.itemsV;
  }
  sget(T, name) {
    if (T.kind === 'cls') {
      if (T.def.kind === 'enum') {
        const it = this.enumItems(T).find(([n]) => n === name);
        if (!it) throw new IllTyped(`${this.show(T)} has no ${name}`);
        const v = new EnumVal(T, it[1]);
        v.lit = true;
        return v;
      }
      const r = this.look(T, name);
      if (r) {
        if (!r.e.stat) throw new IllTyped(`${name} is not static`);
        if (r.e.kind === 'prop') {
          this.statics(r.C);
          if (!r.e.get) throw new IllTyped(`${name} cannot be read`);
          return r.e.get(r.C, null);
        }
        return this.statics(r.C)[name];
      }
      if (this.methods(T, name, m => m.stat).length) return this.group(T, null, name);
      throw new IllTyped(`${this.show(T)} has no ${name}`);
    }
    if (T.kind === 'prim') {
      const s = primStatic(T.name, name);
      if (s) return typeof s === 'function' && !s.value ? new Delegate([{ fn: (...a) => s(this, T, null, a), self: null, T, name }]) : s.value(this);
    }
    if (T.kind === 'bcl') {
      for (let b = T.b; b; b = b.base ? BCL.get(b.base) : null) {
        if (b.sg[name]) return b.sg[name](this, T);
        if (b.s[name]) { const f = b.s[name]; return new Delegate([{ fn: (...a) => f(this, T, null, a), self: null, T, name }]); }
      }
    }
    throw new Unsupported(`${this.show(T)}.${name}`);
  }
  sset(T, name, v) {
    if (T.kind !== 'cls') throw new IllTyped(`${this.show(T)}.${name} cannot be assigned`);
    const r = this.look(T, name);
    if (!r || !r.e.stat) throw new IllTyped(`${this.show(T)}.${name} cannot be assigned`);
    const x = this.co(r.e.tfn(r.C), v);
    if (r.e.kind === 'prop') {
      this.statics(r.C);
      if (!r.e.set) throw new IllTyped(`${name} cannot be assigned`);
      r.e.set(r.C, null, x);
    } else this.statics(r.C)[name] = x;
    return x;
  }

  // ---- elements
  index(v, n) {
    if (!(v instanceof Num) || !INTS[v.t]) throw new IllTyped('an index is not an integer');
    const i = Number(v.v);
    if (i < 0 || i >= n) throw null;
    return i;
  }
  idx(o, args, names) {
    if (o === null || o === undefined) throw this.nre();
    if (o instanceof CsArray) {
      const i = args[0];
      if (!(i instanceof Num) || !INTS[i.t]) throw new IllTyped('an index is not an integer');
      const x = o.a[Number(i.v)];
      if (x === undefined) throw this.fail('IndexOutOfRangeException', 'Index was outside the bounds of the array.');
      return x;
    }
    if (o instanceof Obj) {
      const ix = this.indexer(o.cls, args, names, 'get');
      if (ix) return ix.ix.gfn(ix.C, o, ...ix.args);
      if (o.$b) return this.idx(o.$b, args);
      throw new IllTyped(`${this.show(o.cls)} cannot be indexed`);
    }
    if (typeof o === 'string') {
      const i = this.co(P.Int32, args[0]).v;
      if (i < 0 || i >= o.length) throw this.fail('IndexOutOfRangeException', 'Index was outside the bounds of the array.');
      return new Num('Char', o.charCodeAt(i));
    }
    if (o instanceof Bcl && o.t.b.idx) return o.t.b.idx(this, o, args);
    throw new IllTyped(`${this.show(this.typeOfVal(o))} cannot be indexed`);
  }
  setidx(o, args, v) {
    if (o === null || o === undefined) throw this.nre();
    if (o instanceof CsArray) {
      const i = args[0];
      if (!(i instanceof Num) || !INTS[i.t]) throw new IllTyped('an index is not an integer');
      if (Number(i.v) < 0 || Number(i.v) >= o.a.length) throw this.fail('IndexOutOfRangeException', 'Index was outside the bounds of the array.');
      return (o.a[Number(i.v)] = this.co(o.of, v));
    }
    if (o instanceof Obj) {
      const ix = this.indexer(o.cls, args, null, 'set');
      if (ix) { const x = this.co(ix.ix.tfn(ix.C), v); ix.ix.sfn(ix.C, o, ...ix.args, x); return x; }
      if (o.$b) return this.setidx(o.$b, args, v);
      throw new IllTyped(`${this.show(o.cls)} cannot be indexed`);
    }
    if (o instanceof Bcl && o.t.b.setidx) return o.t.b.setidx(this, o, args, v);
    throw new IllTyped(`${this.show(this.typeOfVal(o))} cannot be assigned by index`);
  }
  indexer(T, args, names, what) {
    for (let X = T; X && X.kind === 'cls'; X = this.baseOf(X)) {
      for (const ix of X.def.indexers) {
        if (!(what === 'get' ? ix.get : ix.set) || ix.params.length !== args.length) continue;
        this.prog.indexer(X.def, ix);
        const ts = ix.ptype.map(f => f(X));
        if (args.every((a, i) => this.convertible(a, ts[i]))) return { ix, C: X, args: args.map((a, i) => this.co(ts[i], a)) };
      }
    }
    return null;
  }

  // ---- calls
  // Chooses among candidates [{m, C}] and binds the arguments: {m, C, M, args}
  resolve(cands, targs, args, names, what) {
    const fit = [];
    for (const { m, C } of cands) {
      if (targs && m.tparams.length !== targs.length) continue;
      this.prog.fn(m);
      for (const expanded of m.variadic ? [false, true] : [false]) {
        const b = this.bind(m, C, targs, args, names, expanded);
        if (b) { fit.push(b); break; }
      }
    }
    if (!fit.length) return null;
    if (fit.length === 1) return fit[0];
    let best = fit[0];
    for (const f of fit.slice(1)) if (this.better(f, best)) best = f;
    void what;
    return best;
  }
  bind(m, C, targs, args, names, expanded) {
    const n = m.params.length;
    const slots = new Array(n).fill(undefined);
    const extra = [];
    const at = new Array(args.length).fill(-1); // the parameter of each argument
    for (let i = 0; i < args.length; i++) {
      const nm = names && names[i];
      let j = i;
      if (nm) {
        j = m.params.findIndex(p => p.name === nm);
        if (j < 0 || slots[j] !== undefined) return null;
      }
      if (expanded && j >= n - 1) { extra.push(args[i]); at[i] = n - 1; continue; }
      if (j >= n) return null;
      slots[j] = args[i];
      at[i] = j;
    }
    let M = targs || null;
    if (!M && m.tparams.length) {
      M = this.infer(m, C, slots, extra, expanded);
    }
    const types = m.ptype.map(f => f(C, M));
    const out = [];
    for (let j = 0; j < n; j++) {
      const p = m.params[j];
      if (expanded && j === n - 1) {
        const T = types[j];
        const of = T.kind === 'arr' ? T.of : null;
        if (!of || !extra.every(a => this.convertible(a, of))) return null;
        out.push(new CsArray(of, extra.map(a => this.co(of, a))));
        continue;
      }
      const a = slots[j];
      if (a === undefined) {
        if (!p.def) return null;
        out.push(m.pdef[j](C, M));
        continue;
      }
      const byref = p.mod === 'ref' || p.mod === 'out' || p.mod === 'in';
      if (p.mod === 'ref' || p.mod === 'out') {
        if (!isBox(a)) return null;
        out.push(a);
      } else {
        if (isBox(a) && a !== this.dflt) { if (byref) { out.push(a.v); continue; } return null; }
        if (!this.convertible(a, types[j])) return null;
        out.push(this.co(types[j], a));
      }
    }
    return { m, C, M, args: out, types, at, raw: args, expanded, full: slots.filter(s => s !== undefined).length === n };
  }
  infer(m, C, slots, extra, expanded) {
    const marks = m.tparams.map((_, i) => intern('tp' + i, () => ({ kind: 'tp', i })));
    const pts = m.ptype.map(f => f(C, marks));
    const got = new Array(marks.length).fill(null);
    const unify = (p, t) => {
      if (p.kind === 'tp') {
        if (t === NULLT) return;
        if (!got[p.i] || this.implicit(got[p.i], t)) got[p.i] = t;
        return;
      }
      if (p.kind === 'arr') { if (t.kind === 'arr') unify(p.of, t.of); return; }
      if (p.kind === 'nullable') { unify(p.of, t.kind === 'nullable' ? t.of : t); return; }
      if (p.kind === 'tup') { if (t.kind === 'tup') p.elems.forEach((e, i) => unify(e, t.elems[i])); return; }
      if ((p.kind === 'cls' || p.kind === 'bcl') && p.args.length && t !== NULLT) {
        for (const s of this.supers(t)) {
          if (s.kind === p.kind && (p.kind === 'cls' ? s.def === p.def : s.key === p.key)) { p.args.forEach((a, i) => unify(a, s.args[i])); return; }
        }
      }
    };
    slots.forEach((a, j) => {
      if (a === undefined || a === this.dflt || a instanceof Delegate) return;
      unify(pts[j], this.typeOfVal(isBox(a) ? a.v : a));
    });
    if (expanded) for (const a of extra) unify(pts[pts.length - 1].of, this.typeOfVal(a));
    return got.map(t => t || DYN);
  }
  better(f, g) {
    // whether f is better than g
    let some = false, worse = false;
    for (let i = 0; i < f.raw.length; i++) {
      const P1 = f.expanded && f.at[i] === f.types.length - 1 ? f.types[f.at[i]].of : f.types[f.at[i]];
      const P2 = g.expanded && g.at[i] === g.types.length - 1 ? g.types[g.at[i]].of : g.types[g.at[i]];
      if (P1 === P2) continue;
      const t = isBox(f.raw[i]) || f.raw[i] === this.dflt || f.raw[i] instanceof Delegate ? null : this.typeOfVal(f.raw[i]);
      const exact1 = t === P1, exact2 = t === P2;
      if (exact1 && !exact2) { some = true; continue; }
      if (exact2 && !exact1) { worse = true; continue; }
      const a = this.implicit(P1, P2), b = this.implicit(P2, P1);
      if (a && !b) some = true;
      else if (b && !a) worse = true;
    }
    if (some !== worse) return some;
    if (some && worse) return false;
    if (f.C !== g.C) return this.assignable(f.C, g.C) && !this.assignable(g.C, f.C);
    if (!f.m.tparams.length !== !g.m.tparams.length) return !f.m.tparams.length;
    if (f.expanded !== g.expanded) return !f.expanded;
    return f.full && !g.full;
  }
  run(b, self) {
    if (++this.depth > 1500) { this.depth = 0; throw new Unsupported('the recursion is too deep'); }
    const r = b.m._fn(b.C, b.M, self, ...b.args);
    this.depth--;
    return r;
  }
  illcall(T, name, args) { return new IllTyped(`no ${name} of ${this.show(T)} takes (${args.map(a => isBox(a) ? 'ref' : a === this.dflt ? 'default' : this.show(this.typeOfVal(a))).join(', ')})`); }
  call(o, name, targs, args, names) {
    if (o === null || o === undefined) {
      const e = this.extension(o, name, targs, args, names);
      if (e) return this.run(e, null);
      throw this.nre();
    }
    if (o instanceof Obj) {
      const cands = this.methods(o.cls, name, m => !m.stat);
      if (cands.length) {
        const b = this.resolve(cands, targs, args, names);
        if (b) return this.run(b, o);
      } else {
        const r = this.look(o.cls, name);
        if (r) return this.invoke(this.get(o, name), args);
      }
      if (o.$b && bclMethod(o.$b, name)) return bclMethod(o.$b, name)(this, o.$b, args, targs, o);
      const e = this.extension(o, name, targs, args, names);
      if (e) return this.run(e, null);
      if (OBJECT[name]) return OBJECT[name](this, o, args, targs);
      if (LINQ[name] && this.enumerable(o)) return LINQ[name](this, o, args, targs);
      if (cands.length) throw this.illcall(o.cls, name, args);
      throw new IllTyped(`${this.show(o.cls)} has no ${name}, or it is not supported`);
    }
    if (o instanceof Delegate && (name === 'Invoke' || name === 'DynamicInvoke')) return this.invoke(o, args);
    const f = bclMethod(o, name);
    if (f) return f(this, o, args, targs, o);
    const e = this.extension(o, name, targs, args, names);
    if (e) return this.run(e, null);
    if (OBJECT[name]) return OBJECT[name](this, o, args, targs);
    if (name === 'GetValueOrDefault') return o;
    if (LINQ[name] && this.enumerable(o)) return LINQ[name](this, o, args, targs);
    const g = bclProp(o, name);
    if (g) return this.invoke(g(this, o), args);
    throw new IllTyped(`${this.show(this.typeOfVal(o))} has no ${name}, or it is not supported`);
  }
  extension(o, name, targs, args, names) {
    const ms = this.prog.ext.get(name);
    if (!ms) return null;
    const r = this.resolve(ms.map(m => ({ m, C: this.cls(m.def.id, []) })), targs, [o].concat(args), names ? [null].concat(names) : undefined);
    if (r) this.statics(r.C);
    return r;
  }
  callm(T, self, name, targs, args, names) {
    const cands = this.methods(self ? self.cls : T, name, m => m.stat || self);
    const b = this.resolve(cands, targs, args, names);
    if (!b) throw this.illcall(T, name, args);
    if (b.m.stat) this.statics(b.C);
    return this.run(b, b.m.stat ? null : self);
  }
  scall(T, name, targs, args, names) {
    if (T.kind === 'cls') {
      const cands = this.methods(T, name, m => m.stat);
      if (cands.length) {
        const b = this.resolve(cands, targs, args, names);
        if (!b) throw this.illcall(T, name, args);
        this.statics(b.C);
        return this.run(b, null);
      }
      if (this.look(T, name)) return this.invoke(this.sget(T, name), args);
      if (name === 'ReferenceEquals' || name === 'Equals') return OBJSTATIC[name](this, T, null, args);
      throw new IllTyped(`${this.show(T)} has no ${name}`);
    }
    if (T.kind === 'prim') {
      const s = primStatic(T.name, name);
      if (s && !s.value) return s(this, T, targs, args);
    }
    if (T.kind === 'bcl') {
      for (let b = T.b; b; b = b.base ? BCL.get(b.base) : null) if (b.s[name]) return b.s[name](this, T, targs, args);
      if (T.key === 'System.Linq.Enumerable`0' && LINQ[name]) return LINQ[name](this, args[0], args.slice(1), targs);
      if (OBJSTATIC[name]) return OBJSTATIC[name](this, T, null, args);
    }
    throw new Unsupported(`${this.show(T)}.${name}`);
  }
  basecall(C, self, name, targs, args, names) {
    const B = this.baseOf(C);
    if (B && B.kind === 'cls') {
      const b = this.resolve(this.methods(B, name, m => !m.stat), targs, args, names);
      if (b) return this.run(b, self);
    }
    if (self.$b && bclMethod(self.$b, name)) return bclMethod(self.$b, name)(this, self.$b, args, targs, self);
    if (name === 'ToString') return this.typeName(self.cls);
    if (name === 'Equals') return self === args[0];
    if (OBJECT[name]) return OBJECT[name](this, self, args, targs);
    throw new Unsupported('base.' + name);
  }
  baseget(C, self, name) {
    const B = this.baseOf(C);
    if (B && B.kind === 'cls') {
      const r = this.look(B, name);
      if (r) return r.e.kind === 'prop' ? r.e.get(r.C, self) : self.f[name];
    }
    if (self.$b && bclProp(self.$b, name)) return this.bclGet(self.$b, name);
    throw new Unsupported('base.' + name);
  }
  base(C, self) {
    if (self.$b) return self.$b;
    throw new Unsupported('base');
  }
  del(fn) { return new Delegate([{ fn, self: null, T: null, name: null }]); }
  invoke(d, args) {
    if (d === null || d === undefined) throw this.nre();
    if (!(d instanceof Delegate)) throw new IllTyped(`${this.show(this.typeOfVal(d))} is called`);
    let r;
    if (++this.depth > 1500) { this.depth = 0; throw new Unsupported('the recursion is too deep'); }
    for (const x of d.list) r = x.fn(...args.map(a => a instanceof Num && a.lit ? new Num(a.t, a.v) : a));
    this.depth--;
    return r;
  }

  // ---- construction
  blank(T) {
    const o = new Obj(T);
    for (let X = T; X && X.kind === 'cls'; X = this.baseOf(X)) {
      for (const e of X.def.fields) {
        if (e.stat) continue;
        this.prog.member(X.def, e);
        if (e.name in o.f && X !== T) throw new Unsupported('a member hidden by a derived class');
        o.f[e.name] = this.def(e.tfn(X));
      }
    }
    return o;
  }
  new(T, args, names) {
    if (T.kind === 'cls') {
      this.statics(T);
      const o = this.blank(T);
      this.construct(T, o, args, names);
      return o;
    }
    if (T.kind === 'bcl') {
      if (!T.b.ctor) throw new IllTyped(`${this.show(T)} cannot be constructed, or it is not supported`);
      return T.b.ctor(this, T, args, names);
    }
    if (T.kind === 'prim') {
      if (T.name === 'Object') return new Bcl(T);
      if (T.name === 'String') return STRINGNEW(this, args);
      if (!args.length) return this.def(T);
    }
    if (T.kind === 'nullable') return args.length ? this.co(T, args[0]) : null;
    throw new Unsupported('new ' + this.show(T));
  }
  construct(T, o, args, names) {
    if (!T.def.ctors.length || (T.def.kind === 'struct' && !args.length)) {
      if (args.length) throw new IllTyped(`no constructor of ${this.show(T)} takes ${args.length} arguments`);
      this.finit(T, o);
      if (T.def.kind !== 'struct') this.basector(T, o, []);
      return;
    }
    const b = this.resolve(T.def.ctors.map(m => ({ m, C: T })), null, args, names);
    if (!b) throw this.illcall(T, 'constructor', args);
    this.run(b, o);
  }
  ctor(C, self, args, names) { this.construct(C, self, args, names); }
  finit(C, self) {
    for (const e of C.def.fields) {
      if (e.stat) continue;
      this.prog.member(C.def, e);
      if (e.ifn) self.f[e.name] = e.ifn(C, null);
    }
  }
  basector(C, self, args, names) {
    const B = this.baseOf(C);
    if (B && B.kind === 'cls') { this.statics(B); this.construct(B, self, args, names); }
    else if (B) self.$b = this.new(B, args, names);
  }
  array(of, items) {
    if (!of) {
      if (!items.length) throw new IllTyped('an array without a type');
      const ts = items.map(x => this.typeOfVal(x));
      of = ts.find(t => ts.every(u => this.implicit(u, t)));
      if (!of) throw new IllTyped('no best type of an array');
    }
    return new CsArray(of, items.map(x => this.co(of, x)));
  }
  newarr(of, size) {
    const n = Number(size.v);
    if (n < 0) throw this.fail('OverflowException', 'Arithmetic operation resulted in an overflow.');
    if (n > 50000000) throw this.fail('OutOfMemoryException', 'Array dimensions exceeded supported range.');
    const z = this.def(of);
    const a = new Array(n);
    for (let i = 0; i < n; i++) a[i] = z instanceof Obj ? this.def(of) : z;
    return new CsArray(of, a);
  }
  tuple(items, names) { return new Tuple(items.map(x => this.val(x)), names); }
  parts(v, n) {
    if (v === null) throw this.nre();
    if (v instanceof Tuple) {
      if (v.items.length !== n) throw new IllTyped(`a tuple of ${v.items.length} is taken apart into ${n}`);
      return v.items;
    }
    if (v instanceof Bcl && v.t.key.includes('KeyValuePair') && n === 2) return [v.k, v.v];
    if (v instanceof Obj) {
      const boxes = [];
      for (let i = 0; i < n; i++) boxes.push({ v: null });
      this.call(v, 'Deconstruct', null, boxes);
      return boxes.map(b => b.v);
    }
    throw new IllTyped(`${this.show(this.typeOfVal(v))} is taken apart`);
  }
  typeOf(t) { return t.obj || (t.obj = new TypeObj(t)); }
  seq(t, gen) {
    const s = new Seq(t, gen);
    return s;
  }
  enumerable(v) {
    return v instanceof CsArray || v instanceof Seq || typeof v === 'string' || (v instanceof Bcl && !!v.t.b.iter) || (v instanceof Obj && (!!(v.$b && v.$b.t.b && v.$b.t.b.iter) || this.methods(v.cls, 'GetEnumerator').length > 0));
  }
  *iter(v) {
    if (v === null || v === undefined) throw this.nre();
    if (v instanceof CsArray) { for (let i = 0; i < v.a.length; i++) yield v.a[i]; return; }
    if (typeof v === 'string') { for (let i = 0; i < v.length; i++) yield new Num('Char', v.charCodeAt(i)); return; }
    if (v instanceof Seq) {
      const of = v.t.args && v.t.args.length ? v.t.args[0] : DYN;
      for (const x of v.gen()) yield this.co(of, x);
      return;
    }
    if (v instanceof Bcl && v.t.b.iter) { yield* v.t.b.iter(this, v); return; }
    if (v instanceof Obj) {
      if (this.methods(v.cls, 'GetEnumerator').length) {
        const e = this.call(v, 'GetEnumerator', null, []);
        if (!(e instanceof Obj)) { yield* this.iter(e); return; }
        while (this.bool(this.call(e, 'MoveNext', null, []))) yield this.get(e, 'Current');
        return;
      }
      if (v.$b) { yield* this.iter(v.$b); return; }
    }
    throw new IllTyped(`${this.show(this.typeOfVal(v))} cannot be enumerated`);
  }
}

function sameTarget(a, b) { return a === b || (a.name !== null && a.name === b.name && a.self === b.self && a.T === b.T) || a.fn === b.fn; }

// ---------------------------------------------------------------- base class library

const BCL = new Map();
const NAMESPACES = new Set(['System', 'System.Collections', 'System.Collections.Generic', 'System.Collections.ObjectModel', 'System.IO', 'System.Text', 'System.Reflection',
  'System.Linq', 'System.Linq.Expressions', 'System.Diagnostics', 'System.Threading', 'System.Runtime', 'System.Runtime.CompilerServices', 'System.Globalization', 'System.Collections.Concurrent', 'System.Text.RegularExpressions', 'System.Threading.Tasks', 'System.ComponentModel', 'System.Collections.Specialized', 'System.Runtime.InteropServices']);
const GEN = 'System.Collections.Generic.', OM = 'System.Collections.ObjectModel.';

function bclDef(full, arity, d) {
  const key = full + '`' + arity;
  BCL.set(key, Object.assign({ key, full, name: full.slice(full.lastIndexOf('.') + 1), arity, m: {}, g: {}, s: {}, sg: {} }, d));
}
function bclMethod(o, name) {
  if (typeof o === 'string') return STRING[name];
  if (o instanceof CsArray) return ARRAY[name];
  if (o instanceof Num || typeof o === 'boolean' || o instanceof EnumVal) return PRIM[name];
  if (o instanceof TypeObj) return TYPE[name];
  if (o instanceof Bcl) for (let b = o.t.b; b; b = b.base ? BCL.get(b.base) : null) if (b.m[name]) return b.m[name];
  if (o instanceof Seq && name === 'GetEnumerator') return (rt, s) => s;
  return null;
}
function bclProp(o, name) {
  if (typeof o === 'string') return name === 'Length' ? (rt, s) => i32(s.length) : null;
  if (o instanceof CsArray) return name === 'Length' || name === 'Count' ? (rt, s) => i32(s.a.length) : name === 'LongLength' ? (rt, s) => num('Int64', BigInt(s.a.length)) : null;
  if (o instanceof TypeObj) return TYPEG[name] || null;
  if (o instanceof Bcl && o.t.b) for (let b = o.t.b; b; b = b.base ? BCL.get(b.base) : null) if (b.g[name]) return b.g[name];
  return null;
}

const iEnum = t => rt => rt.bcl(GEN + 'IEnumerable`1', [t]);
void iEnum;
const B = (rt, key, args) => rt.bcl(key, args);
bclDef('System.Collections.IEnumerable', 0, { iface: true });
bclDef('System.Collections.IEnumerator', 0, { iface: true });
bclDef('System.Collections.ICollection', 0, { iface: true });
bclDef('System.Collections.IList', 0, { iface: true });
bclDef(GEN + 'IEnumerable', 1, { iface: true, covariant: true, ifaces: (a, rt) => [B(rt, 'System.Collections.IEnumerable`0', [])] });
bclDef(GEN + 'IEnumerator', 1, { iface: true, covariant: true });
bclDef(GEN + 'ICollection', 1, { iface: true, ifaces: (a, rt) => [B(rt, GEN + 'IEnumerable`1', a)] });
bclDef(GEN + 'IReadOnlyCollection', 1, { iface: true, covariant: true, ifaces: (a, rt) => [B(rt, GEN + 'IEnumerable`1', a)] });
bclDef(GEN + 'IList', 1, { iface: true, ifaces: (a, rt) => [B(rt, GEN + 'ICollection`1', a)] });
bclDef(GEN + 'IReadOnlyList', 1, { iface: true, covariant: true, ifaces: (a, rt) => [B(rt, GEN + 'IReadOnlyCollection`1', a)] });
const pairT = (a, rt) => B(rt, GEN + 'KeyValuePair`2', a);
bclDef(GEN + 'IDictionary', 2, { iface: true, ifaces: (a, rt) => [B(rt, GEN + 'ICollection`1', [pairT(a, rt)])] });
bclDef(GEN + 'IReadOnlyDictionary', 2, { iface: true, ifaces: (a, rt) => [B(rt, GEN + 'IReadOnlyCollection`1', [pairT(a, rt)])] });
bclDef(GEN + 'ISet', 1, { iface: true, ifaces: (a, rt) => [B(rt, GEN + 'ICollection`1', a)] });
bclDef(GEN + 'IEqualityComparer', 1, { iface: true });
bclDef(GEN + 'IComparer', 1, { iface: true });
for (const n of ['IDisposable', 'ICloneable', 'IComparable', 'IFormattable']) bclDef('System.' + n, 0, { iface: true });
for (const n of ['IEquatable', 'IComparable']) bclDef('System.' + n, 1, { iface: true });
bclDef('System.Object', 0, {});
bclDef('System.Delegate', 0, {});
bclDef('System.MulticastDelegate', 0, {});
bclDef('System.EventHandler', 0, { delegate: true });
bclDef('System.EventHandler', 1, { delegate: true });
for (let i = 0; i <= 8; i++) { bclDef('System.Action', i, { delegate: true }); if (i) bclDef('System.Func', i, { delegate: true }); }
bclDef('System.Predicate', 1, { delegate: true });
bclDef('System.Comparison', 1, { delegate: true });
bclDef('System.Converter', 2, { delegate: true });
bclDef('System.Nullable', 1, {});
for (const a of ['SerializableAttribute', 'ObsoleteAttribute', 'FlagsAttribute']) bclDef('System.' + a, 0, {});

// attributes of collections
const range = (rt, what) => rt.fail('ArgumentOutOfRangeException', `Specified argument was out of the range of valid values. (Parameter '${what}')`);
const int = (rt, v) => rt.co(P.Int32, v).v;
function* listIter(rt, l) {
  const v = l.version;
  for (let i = 0; i < l.a.length; i++) {
    if (l.version !== v) throw rt.fail('InvalidOperationException', 'Collection was modified; enumeration operation may not execute.');
    yield l.a[i];
  }
  if (l.version !== v) throw rt.fail('InvalidOperationException', 'Collection was modified; enumeration operation may not execute.');
}
const mkList = (rt, T, a) => { const l = new Bcl(B(rt, GEN + 'List`1', [T])); l.a = a; l.version = 0; return l; };
const elemType = (rt, v) => {
  for (const s of rt.supers(rt.typeOfVal(v))) if (s.key === GEN + 'IEnumerable`1') return s.args[0];
  return DYN;
};
const pred = (rt, d) => x => rt.bool(rt.invoke(d, [x]));
const listMethods = {
  Add: (rt, l, [x]) => { l.a.push(rt.co(l.t.args[0], x)); l.version++; },
  AddRange: (rt, l, [e]) => { const xs = [...rt.iter(e)]; for (const x of xs) l.a.push(rt.co(l.t.args[0], x)); l.version++; },
  Insert: (rt, l, [i, x]) => { const k = int(rt, i); if (k < 0 || k > l.a.length) throw range(rt, 'index'); l.a.splice(k, 0, rt.co(l.t.args[0], x)); l.version++; },
  InsertRange: (rt, l, [i, e]) => { const k = int(rt, i); if (k < 0 || k > l.a.length) throw range(rt, 'index'); l.a.splice(k, 0, ...[...rt.iter(e)].map(x => rt.co(l.t.args[0], x))); l.version++; },
  RemoveAt: (rt, l, [i]) => { const k = int(rt, i); if (k < 0 || k >= l.a.length) throw range(rt, 'index'); l.a.splice(k, 1); l.version++; },
  RemoveRange: (rt, l, [i, n]) => { const k = int(rt, i), c = int(rt, n); if (k < 0 || c < 0) throw range(rt, 'index'); if (k + c > l.a.length) throw rt.fail('ArgumentException'); l.a.splice(k, c); l.version++; },
  Remove: (rt, l, [x]) => { const k = l.a.findIndex(y => rt.equals(y, x)); if (k < 0) return false; l.a.splice(k, 1); l.version++; return true; },
  RemoveAll: (rt, l, [d]) => { const n = l.a.length; const p = pred(rt, d); l.a = l.a.filter(x => !p(x)); l.version++; return i32(n - l.a.length); },
  Clear: (rt, l) => { l.a = []; l.version++; },
  Contains: (rt, l, [x]) => { const y = rt.co(l.t.args[0], x); return l.a.some(z => rt.equals(z, y)); },
  IndexOf: (rt, l, [x]) => { const y = rt.co(l.t.args[0], x); return i32(l.a.findIndex(z => rt.equals(z, y))); },
  ToArray: (rt, l) => new CsArray(l.t.args[0], l.a.slice()),
  CopyTo: (rt, l, [arr, i]) => { const k = i === undefined ? 0 : int(rt, i); if (k + l.a.length > arr.a.length) throw rt.fail('ArgumentException'); l.a.forEach((x, j) => { arr.a[k + j] = x; }); },
  GetRange: (rt, l, [i, n]) => { const k = int(rt, i), c = int(rt, n); if (k < 0 || c < 0) throw range(rt, 'index'); if (k + c > l.a.length) throw rt.fail('ArgumentException'); return mkList(rt, l.t.args[0], l.a.slice(k, k + c)); },
  AsReadOnly: (rt, l) => mkRoc(rt, l.t.args[0], l),
  GetEnumerator: (rt, l) => mkEnumerator(rt, l),
  ForEach: (rt, l, [d]) => { for (const x of listIter(rt, l)) rt.invoke(d, [x]); },
  Find: (rt, l, [d]) => { const x = l.a.find(pred(rt, d)); return x === undefined ? rt.def(l.t.args[0]) : x; },
  FindIndex: (rt, l, [d]) => i32(l.a.findIndex(pred(rt, d))),
  Exists: (rt, l, [d]) => l.a.some(pred(rt, d)),
  TrueForAll: (rt, l, [d]) => l.a.every(pred(rt, d)),
  Reverse: (rt, l) => { l.a.reverse(); l.version++; },
  ConvertAll: (rt, l, [d], targs) => mkList(rt, targs ? targs[0] : DYN, l.a.map(x => rt.invoke(d, [x]))),
  TrimExcess: () => undefined,
};
bclDef(GEN + 'List', 1, {
  ifaces: (a, rt) => [B(rt, GEN + 'IList`1', a), B(rt, GEN + 'IReadOnlyList`1', a)],
  ctor: (rt, T, args) => {
    const l = new Bcl(T);
    l.version = 0;
    if (args.length > 1) throw rt.illcall(T, 'constructor', args);
    if (!args.length) l.a = [];
    else if (args[0] instanceof Num) { if (int(rt, args[0]) < 0) throw range(rt, 'capacity'); l.a = []; }
    else if (args[0] === null) throw rt.fail('ArgumentNullException', 'collection');
    else l.a = [...rt.iter(args[0])].map(x => rt.co(T.args[0], x));
    return l;
  },
  m: listMethods,
  g: { Count: (rt, l) => i32(l.a.length), Capacity: (rt, l) => i32(l.a.length), IsReadOnly: () => false },
  idx: (rt, l, [i]) => { const k = int(rt, i); if (k < 0 || k >= l.a.length) throw range(rt, 'index'); return l.a[k]; },
  setidx: (rt, l, [i], v) => { const k = int(rt, i); if (k < 0 || k >= l.a.length) throw range(rt, 'index'); l.version++; return (l.a[k] = rt.co(l.t.args[0], v)); },
  iter: listIter,
});
const mkEnumerator = (rt, v) => {
  const e = new Bcl(B(rt, GEN + 'IEnumerator`1', [elemType(rt, v)]));
  e.it = rt.iter(v);
  e.cur = null;
  return e;
};
Object.assign(BCL.get(GEN + 'IEnumerator`1'), {
  m: { MoveNext: (rt, e) => { const r = e.it.next(); e.cur = r.done ? null : r.value; return !r.done; }, Dispose: () => undefined },
  g: { Current: (rt, e) => e.cur },
  iter: (rt, e) => e.it,
});
const mkRoc = (rt, T, list) => { const r = new Bcl(B(rt, OM + 'ReadOnlyCollection`1', [T])); r.list = list; return r; };
const roc = name => (rt, r, args, targs) => rt.call(r.list, name, targs, args);
const readonly = (rt) => { throw rt.fail('NotSupportedException', 'Collection is read-only.'); };
bclDef(OM + 'ReadOnlyCollection', 1, {
  ifaces: (a, rt) => [B(rt, GEN + 'IList`1', a), B(rt, GEN + 'IReadOnlyList`1', a)],
  ctor: (rt, T, args) => {
    if (args.length !== 1 || !rt.convertible(args[0], B(rt, GEN + 'IList`1', T.args))) throw rt.illcall(T, 'constructor', args);
    if (args[0] === null) throw rt.fail('ArgumentNullException', 'list');
    const r = new Bcl(T);
    r.list = args[0];
    return r;
  },
  m: { Contains: roc('Contains'), IndexOf: roc('IndexOf'), CopyTo: roc('CopyTo'), GetEnumerator: (rt, r) => mkEnumerator(rt, r.list), Add: undefined },
  g: { Count: (rt, r) => rt.get(r.list, 'Count'), Items: (rt, r) => r.list },
  idx: (rt, r, args) => rt.idx(r.list, args),
  setidx: readonly,
  iter: (rt, r) => rt.iter(r.list),
});
delete BCL.get(OM + 'ReadOnlyCollection`1').m.Add;

const dictSet = (rt, d, k, v) => { const key = rt.co(d.t.args[0], k); const h = rt.key(key); d.m_.set(h, [d.m_.has(h) ? d.m_.get(h)[0] : key, rt.co(d.t.args[1], v)]); d.version++; };
const mkPair = (rt, d, [k, v]) => { const p = new Bcl(pairT(d.t.args, rt)); p.k = k; p.v = v; return p; };
function* dictIter(rt, d) {
  const v = d.version;
  for (const e of [...d.m_.values()]) {
    if (d.version !== v) throw rt.fail('InvalidOperationException', 'Collection was modified; enumeration operation may not execute.');
    yield mkPair(rt, d, e);
  }
}
const noKey = (rt, k) => rt.fail('KeyNotFoundException', `The given key '${rt.str(k)}' was not present in the dictionary.`);
bclDef(GEN + 'KeyValuePair', 2, {
  struct: true,
  ctor: (rt, T, [k, v]) => { const p = new Bcl(T); p.k = rt.co(T.args[0], k); p.v = rt.co(T.args[1], v); return p; },
  g: { Key: (rt, p) => p.k, Value: (rt, p) => p.v },
  m: { ToString: (rt, p) => `[${rt.str(p.k)}, ${rt.str(p.v)}]` },
});
const DICT = GEN + 'Dictionary';
const dictDef = sorted => ({
  ifaces: (a, rt) => [B(rt, GEN + 'IDictionary`2', a), B(rt, GEN + 'IReadOnlyDictionary`2', a)],
  ctor: (rt, T, args) => {
    const d = new Bcl(T);
    d.m_ = new Map();
    d.version = 0;
    if (args.length > 1) throw new Unsupported('comparers of dictionaries');
    if (args.length && !(args[0] instanceof Num)) {
      if (args[0] === null) throw rt.fail('ArgumentNullException', 'dictionary');
      for (const p of rt.iter(args[0])) DICTM.Add(rt, d, [rt.get(p, 'Key'), rt.get(p, 'Value')]);
    }
    if (sorted) throw new Unsupported('sorted dictionaries');
    return d;
  },
  m: DICTM,
  g: {
    Count: (rt, d) => i32(d.m_.size), IsReadOnly: () => false,
    Keys: (rt, d) => mkList(rt, d.t.args[0], [...d.m_.values()].map(e => e[0])),
    Values: (rt, d) => mkList(rt, d.t.args[1], [...d.m_.values()].map(e => e[1])),
  },
  idx: (rt, d, [k]) => { const key = rt.co(d.t.args[0], k); const e = d.m_.get(rt.key(key)); if (!e) throw noKey(rt, key); return e[1]; },
  setidx: (rt, d, [k], v) => { dictSet(rt, d, k, v); return v; },
  iter: dictIter,
});
const DICTM = {
  Add: (rt, d, args) => {
    const [k, v] = args.length === 1 ? [rt.get(args[0], 'Key'), rt.get(args[0], 'Value')] : args;
    if (d.m_.has(rt.key(rt.co(d.t.args[0], k)))) throw rt.fail('ArgumentException', 'An item with the same key has already been added.');
    dictSet(rt, d, k, v);
  },
  TryAdd: (rt, d, [k, v]) => { if (d.m_.has(rt.key(rt.co(d.t.args[0], k)))) return false; dictSet(rt, d, k, v); return true; },
  ContainsKey: (rt, d, [k]) => d.m_.has(rt.key(rt.co(d.t.args[0], k))),
  ContainsValue: (rt, d, [v]) => [...d.m_.values()].some(e => rt.equals(e[1], v)),
  Remove: (rt, d, [k, out]) => {
    const h = rt.key(rt.co(d.t.args[0], k)), e = d.m_.get(h);
    if (out) out.v = e ? e[1] : rt.def(d.t.args[1]);
    if (!e) return false;
    d.m_.delete(h);
    d.version++;
    return true;
  },
  TryGetValue: (rt, d, [k, out]) => { const e = d.m_.get(rt.key(rt.co(d.t.args[0], k))); out.v = e ? e[1] : rt.def(d.t.args[1]); return !!e; },
  GetValueOrDefault: (rt, d, [k, v]) => { const e = d.m_.get(rt.key(rt.co(d.t.args[0], k))); return e ? e[1] : v === undefined ? rt.def(d.t.args[1]) : v; },
  Clear: (rt, d) => { d.m_.clear(); d.version++; },
  GetEnumerator: (rt, d) => mkEnumerator(rt, d),
};
bclDef(DICT, 2, dictDef(false));
const rod = name => (rt, r, args, targs) => rt.call(r.dict, name, targs, args);
bclDef(OM + 'ReadOnlyDictionary', 2, {
  ifaces: (a, rt) => [B(rt, GEN + 'IDictionary`2', a), B(rt, GEN + 'IReadOnlyDictionary`2', a)],
  ctor: (rt, T, args) => {
    if (args.length !== 1 || !rt.convertible(args[0], B(rt, GEN + 'IDictionary`2', T.args))) throw rt.illcall(T, 'constructor', args);
    if (args[0] === null) throw rt.fail('ArgumentNullException', 'dictionary');
    const r = new Bcl(T);
    r.dict = args[0];
    return r;
  },
  m: { ContainsKey: rod('ContainsKey'), TryGetValue: rod('TryGetValue'), GetValueOrDefault: rod('GetValueOrDefault'), GetEnumerator: (rt, r) => mkEnumerator(rt, r.dict) },
  g: { Count: (rt, r) => rt.get(r.dict, 'Count'), Keys: (rt, r) => rt.get(r.dict, 'Keys'), Values: (rt, r) => rt.get(r.dict, 'Values'), Dictionary: (rt, r) => r.dict },
  idx: (rt, r, args) => rt.idx(r.dict, args),
  setidx: readonly,
  iter: (rt, r) => rt.iter(r.dict),
});
bclDef(GEN + 'HashSet', 1, {
  ifaces: (a, rt) => [B(rt, GEN + 'ISet`1', a), B(rt, GEN + 'IReadOnlyCollection`1', a)],
  ctor: (rt, T, args) => { const s = new Bcl(T); s.m_ = new Map(); if (args.length && !(args[0] instanceof Num)) for (const x of rt.iter(args[0])) s.m_.set(rt.key(x), x); return s; },
  m: {
    Add: (rt, s, [x]) => { const y = rt.co(s.t.args[0], x), h = rt.key(y); if (s.m_.has(h)) return false; s.m_.set(h, y); return true; },
    Contains: (rt, s, [x]) => s.m_.has(rt.key(rt.co(s.t.args[0], x))),
    Remove: (rt, s, [x]) => s.m_.delete(rt.key(rt.co(s.t.args[0], x))),
    Clear: (rt, s) => { s.m_.clear(); },
  },
  g: { Count: (rt, s) => i32(s.m_.size) },
  iter: function* (rt, s) { yield* [...s.m_.values()]; },
});
const seqColl = (push, pop, peek, order) => ({
  ifaces: (a, rt) => [B(rt, GEN + 'IReadOnlyCollection`1', a)],
  ctor: (rt, T, args) => { const s = new Bcl(T); s.a = []; s.version = 0; if (args.length && !(args[0] instanceof Num)) for (const x of rt.iter(args[0])) s.a.push(rt.co(T.args[0], x)); return s; },
  m: {
    [push]: (rt, s, [x]) => { s.a.push(rt.co(s.t.args[0], x)); },
    [pop]: (rt, s) => { if (!s.a.length) throw rt.fail('InvalidOperationException', 'empty'); return order ? s.a.pop() : s.a.shift(); },
    [peek]: (rt, s) => { if (!s.a.length) throw rt.fail('InvalidOperationException', 'empty'); return order ? s.a[s.a.length - 1] : s.a[0]; },
    Clear: (rt, s) => { s.a = []; },
    Contains: (rt, s, [x]) => s.a.some(y => rt.equals(y, x)),
    ToArray: (rt, s) => new CsArray(s.t.args[0], order ? s.a.slice().reverse() : s.a.slice()),
  },
  g: { Count: (rt, s) => i32(s.a.length) },
  iter: function* (rt, s) { yield* (order ? s.a.slice().reverse() : s.a.slice()); },
});
bclDef(GEN + 'Stack', 1, seqColl('Push', 'Pop', 'Peek', true));
bclDef(GEN + 'Queue', 1, seqColl('Enqueue', 'Dequeue', 'Peek', false));

// exceptions
const exDef = (full, base) => bclDef(full, 0, {
  base,
  ctor: (rt, T, args) => {
    const e = new Bcl(T);
    e.msg = args.length ? args[0] : null;
    e.inner = args.length > 1 && args[1] !== null && typeof args[1] !== 'string' ? args[1] : null;
    return e;
  },
});
bclDef('System.Exception', 0, {
  ctor: (rt, T, args) => { const e = new Bcl(T); e.msg = args.length ? args[0] : null; e.inner = args.length > 1 ? args[1] : null; return e; },
  g: { Message: (rt, e) => e.msg === null || e.msg === undefined ? `Exception of type '${rt.typeName(e.t)}' was thrown.` : e.msg, InnerException: (rt, e) => e.inner, StackTrace: () => '' },
});
exDef('System.SystemException', 'System.Exception`0');
exDef('System.ApplicationException', 'System.Exception`0');
for (const [n, b] of [['ArgumentException', 'SystemException'], ['ArgumentNullException', 'ArgumentException'], ['ArgumentOutOfRangeException', 'ArgumentException'], ['InvalidOperationException', 'SystemException'],
  ['NotSupportedException', 'SystemException'], ['NotImplementedException', 'SystemException'], ['IndexOutOfRangeException', 'SystemException'], ['NullReferenceException', 'SystemException'],
  ['MemberAccessException', 'SystemException'], ['MissingMemberException', 'MemberAccessException'], ['MissingMethodException', 'MissingMemberException'], ['InvalidCastException', 'SystemException'],
  ['FormatException', 'SystemException'], ['ArithmeticException', 'SystemException'], ['OverflowException', 'ArithmeticException'], ['DivideByZeroException', 'ArithmeticException'],
  ['TypeInitializationException', 'SystemException'], ['OutOfMemoryException', 'SystemException'], ['ObjectDisposedException', 'InvalidOperationException'], ['TimeoutException', 'SystemException']]) exDef('System.' + n, `System.${b}\`0`);
exDef('System.IO.IOException', 'System.SystemException`0');
exDef('System.IO.EndOfStreamException', 'System.IO.IOException`0');
exDef('System.IO.InvalidDataException', 'System.SystemException`0');
exDef(GEN + 'KeyNotFoundException', 'System.SystemException`0');
exDef('System.Reflection.TargetInvocationException', 'System.ApplicationException`0');

bclDef('System.EventArgs', 0, { ctor: (rt, T) => new Bcl(T), sg: { Empty: (rt, T) => T.empty || (T.empty = new Bcl(T)) } });
bclDef('System.Attribute', 0, { ctor: (rt, T) => new Bcl(T) });

// Console
const sink = name => ({
  WriteLine: (rt, T, targs, args) => { rt[name].push(args.length > 1 ? rt.format(args) : args.length ? rt.str(args[0]) : ''); if (rt[name].length > 1000) rt[name].shift(); },
  Write: (rt, T, targs, args) => { rt[name].push(args.length > 1 ? rt.format(args) : args.length ? rt.str(args[0]) : ''); if (rt[name].length > 1000) rt[name].shift(); },
});
bclDef('System.IO.TextWriter', 0, { m: { WriteLine: (rt, o, args) => sink(o.name).WriteLine(rt, null, null, args), Write: (rt, o, args) => sink(o.name).Write(rt, null, null, args), Flush: () => undefined } });
const writer = name => (rt) => { const w = new Bcl(B(rt, 'System.IO.TextWriter`0', [])); w.name = name; return w; };
bclDef('System.Console', 0, { s: sink('out'), sg: { Error: writer('err'), Out: writer('out') } });
bclDef('System.Diagnostics.Debug', 0, { s: { Assert: (rt, T, targs, [c, m]) => { if (!rt.bool(c)) throw rt.fail('InvalidOperationException', 'assertion: ' + rt.str(m)); }, WriteLine: () => undefined } });
bclDef('System.Diagnostics.Trace', 0, { s: { WriteLine: () => undefined, TraceWarning: () => undefined, TraceError: () => undefined } });
bclDef('System.GC', 0, { s: { SuppressFinalize: () => undefined, KeepAlive: () => undefined } });
bclDef('System.Threading.Interlocked', 0, {
  s: {
    Increment: (rt, T, targs, [b]) => (b.v = rt.like(b.v, rt.bin('+', b.v, i32(1)))),
    Exchange: (rt, T, targs, [b, v]) => { const o = b.v; b.v = v; return o; },
    CompareExchange: (rt, T, targs, [b, v, c]) => { const o = b.v; if (o === c || rt.equals(o, c)) b.v = v; return o; },
  },
});

// text
bclDef('System.Text.StringBuilder', 0, {
  ctor: (rt, T, args) => { const s = new Bcl(T); s.s = args.length && typeof args[0] === 'string' ? args[0] : ''; return s; },
  m: {
    Append: (rt, s, args) => { s.s += args.length === 2 && args[0] instanceof Num && args[0].t === 'Char' ? rt.str(args[0]).repeat(int(rt, args[1])) : rt.str(args[0]); return s; },
    AppendLine: (rt, s, args) => { s.s += (args.length ? rt.str(args[0]) : '') + '\n'; return s; },
    AppendFormat: (rt, s, args) => { s.s += rt.format(args); return s; },
    Insert: (rt, s, [i, x]) => { const k = int(rt, i); s.s = s.s.slice(0, k) + rt.str(x) + s.s.slice(k); return s; },
    Remove: (rt, s, [i, n]) => { const k = int(rt, i); s.s = s.s.slice(0, k) + s.s.slice(k + int(rt, n)); return s; },
    Clear: (rt, s) => { s.s = ''; return s; },
    ToString: (rt, s) => s.s,
  },
  g: { Length: (rt, s) => i32(s.s.length) },
});
const bytesOf = (rt, x) => { const out = []; for (const n of rt.iter(x)) out.push(Number(n.v)); return out; };
const enc = strict => ({
  m: {
    GetString: (rt, e, args) => {
      if (args[0] === null) throw rt.fail('ArgumentNullException', 'bytes');
      let b = bytesOf(rt, args[0]);
      if (args.length === 3) b = b.slice(int(rt, args[1]), int(rt, args[1]) + int(rt, args[2]));
      if (e.ascii) return b.map(c => c < 128 ? String.fromCharCode(c) : '?').join('');
      return new TextDecoder('utf-8', { ignoreBOM: true }).decode(new Uint8Array(b));
    },
    GetBytes: (rt, e, [s]) => new CsArray(P.Byte, [...new TextEncoder().encode(s)].map(b => num('Byte', b))),
    GetByteCount: (rt, e, [s]) => i32(new TextEncoder().encode(s).length),
  },
});
bclDef('System.Text.Encoding', 0, Object.assign(enc(), {
  sg: {
    UTF8: rt => new Bcl(B(rt, 'System.Text.Encoding`0', [])),
    ASCII: rt => { const e = new Bcl(B(rt, 'System.Text.Encoding`0', [])); e.ascii = true; return e; },
    Default: rt => new Bcl(B(rt, 'System.Text.Encoding`0', [])),
    Unicode: () => { throw new Unsupported('Encoding.Unicode'); },
  },
}));
bclDef('System.Text.UTF8Encoding', 0, { base: 'System.Text.Encoding`0', ctor: (rt, T, args) => { if (args.length > 1) throw new Unsupported('throwing encodings'); return new Bcl(T); } });

// reflection
const TYPEG = {
  FullName: (rt, t) => rt.typeName(t.t),
  Name: (rt, t) => { const n = t.t.kind === 'cls' ? t.t.def.name + (t.t.def.own.length ? '`' + t.t.def.own.length : '') : rt.typeName(t.t).replace(/^.*\./, ''); return n; },
  IsGenericType: (rt, t) => (t.t.kind === 'cls' || t.t.kind === 'bcl') && t.t.args.length > 0,
  IsValueType: (rt, t) => rt.isValueType(t.t),
  IsEnum: (rt, t) => t.t.kind === 'cls' && t.t.def.kind === 'enum',
  IsPrimitive: (rt, t) => t.t.kind === 'prim' && t.t.name !== 'String' && t.t.name !== 'Object',
  IsClass: (rt, t) => !rt.isValueType(t.t) && !(t.t.kind === 'cls' && t.t.def.kind === 'interface'),
  IsInterface: (rt, t) => t.t.kind === 'cls' && t.t.def.kind === 'interface',
  IsArray: (rt, t) => t.t.kind === 'arr',
};
const isPublic = m => m.m.mods && m.m.mods.has('public');
const TYPE = {
  IsAssignableFrom: (rt, t, [o]) => o !== null && rt.assignable(o.t, t.t),
  IsSubclassOf: (rt, t, [o]) => t.t !== o.t && rt.assignable(t.t, o.t) && !(o.t.kind === 'cls' && o.t.def.kind === 'interface'),
  IsInstanceOfType: (rt, t, [o]) => rt.is(o, t.t),
  Equals: (rt, t, [o]) => o instanceof TypeObj && o.t === t.t,
  ToString: (rt, t) => rt.typeName(t.t),
  GetGenericArguments: (rt, t) => new CsArray(B(rt, 'System.Type`0', []), (t.t.args || []).map(a => rt.typeOf(a))),
  GetElementType: (rt, t) => t.t.kind === 'arr' ? rt.typeOf(t.t.of) : null,
  GetConstructor: (rt, t, args) => {
    if (args.length !== 1) throw new Unsupported('GetConstructor with flags');
    if (t.t.kind !== 'cls') throw new Unsupported('constructors of library types');
    const ts = [...rt.iter(args[0])].map(x => x.t);
    return reflect(rt, 'System.Reflection.ConstructorInfo`0', t.t, t.t.def.ctors.filter(isPublic).map(m => ({ m, C: t.t })), ts, null);
  },
  GetMethod: (rt, t, args) => {
    if (args.length > 2 || (args.length === 2 && !rt.enumerable(args[1]))) throw new Unsupported('GetMethod with flags');
    if (t.t.kind !== 'cls') throw new Unsupported('methods of library types');
    let cands = rt.methods(t.t, args[0], isPublic).filter(c => !c.m.tparams.length && (c.C === t.t || !c.m.stat));
    if (args.length === 1) {
      if (cands.length > 1) throw new Unsupported('an ambiguous GetMethod');
      return cands.length ? reflect(rt, 'System.Reflection.MethodInfo`0', t.t, cands, null, args[0]) : null;
    }
    const ts = [...rt.iter(args[1])].map(x => x.t);
    return reflect(rt, 'System.Reflection.MethodInfo`0', t.t, cands, ts, args[0]);
  },
};
function reflect(rt, key, T, cands, ts, name) {
  for (const exact of [true, false]) {
    for (const { m, C } of cands) {
      rt.prog.fn(m);
      const ps = m.ptype.map(f => f(C, null));
      if (ts && (ps.length !== ts.length || !ps.every((p, i) => exact ? p === ts[i] : rt.assignable(ts[i], p)))) continue;
      const r = new Bcl(rt.bcl(key, []));
      Object.assign(r, { m_: m, C, T, ps, name });
      return r;
    }
  }
  return null;
}
const wrapInvoke = (rt, f) => {
  try { return f(); } catch (e) {
    if (!(e instanceof Thrown)) throw e;
    const x = rt.fail('TargetInvocationException', 'Exception has been thrown by the target of an invocation.');
    x.value.inner = e.value;
    throw x;
  }
};
const boundArgs = (rt, r, a) => {
  const xs = a === null ? [] : a.a;
  if (xs.length !== r.ps.length) throw rt.fail('ArgumentException', 'Parameter count mismatch.');
  xs.forEach((x, i) => { if (!(x === null ? !rt.isValueType(r.ps[i]) : rt.is(x, r.ps[i]))) throw rt.fail('ArgumentException', 'The object cannot be converted to the type of the parameter.'); });
  return xs;
};
bclDef('System.Reflection.MemberInfo', 0, { g: { Name: (rt, r) => r.name === null ? '.ctor' : r.name } });
bclDef('System.Reflection.MethodBase', 0, { base: 'System.Reflection.MemberInfo`0', g: { IsStatic: (rt, r) => r.m_.stat } });
bclDef('System.Reflection.ConstructorInfo', 0, {
  base: 'System.Reflection.MethodBase`0',
  m: { Invoke: (rt, r, [a]) => { const xs = boundArgs(rt, r, a); return wrapInvoke(rt, () => { rt.statics(r.T); const o = rt.blank(r.T); rt.run({ m: r.m_, C: r.T, M: null, args: xs }, o); return o; }); } },
});
bclDef('System.Reflection.MethodInfo', 0, {
  base: 'System.Reflection.MethodBase`0',
  m: {
    Invoke: (rt, r, [o, a]) => { const xs = boundArgs(rt, r, a); return wrapInvoke(rt, () => { if (r.m_.stat) rt.statics(r.C); else if (o === null) throw rt.fail('NullReferenceException'); const v = rt.run({ m: r.m_, C: r.C, M: null, args: xs }, r.m_.stat ? null : o); return v === undefined ? null : v; }); },
    CreateDelegate: (rt, r, args) => { if (args.length > 1 || !r.m_.stat) throw new Unsupported('CreateDelegate'); return rt.del((...xs) => rt.run({ m: r.m_, C: r.C, M: null, args: xs.map((x, i) => rt.co(r.ps[i], x)) }, null)); },
  },
});
bclDef('System.Type', 0, { base: 'System.Reflection.MemberInfo`0', sg: { EmptyTypes: rt => new CsArray(B(rt, 'System.Type`0', []), []) } });
bclDef('System.Reflection.BindingFlags', 0, { sg: {} });
bclDef('System.Activator', 0, {
  s: {
    CreateInstance: (rt, T, targs, args) => {
      if (targs) return rt.new(targs[0], []);
      return wrapInvoke(rt, () => rt.new(args[0].t, args.length === 2 && args[1] instanceof CsArray ? args[1].a : args.slice(1)));
    },
  },
});
bclDef('System.Delegate', 0, { s: { CreateDelegate: (rt, T, targs, [t, m]) => { void t; return rt.call(m, 'CreateDelegate', null, []); }, Combine: (rt, T, targs, [a, b]) => rt.bin('+', a, b), Remove: (rt, T, targs, [a, b]) => rt.bin('-', a, b) } });

// arrays
const ARRAY = {
  Contains: (rt, l, [x]) => l.a.some(z => rt.equals(z, rt.co(l.of, x))),
  IndexOf: (rt, l, [x]) => i32(l.a.findIndex(z => rt.equals(z, rt.co(l.of, x)))),
  CopyTo: (rt, l, [arr, i]) => { const k = int(rt, i); if (k + l.a.length > arr.a.length) throw rt.fail('ArgumentException'); l.a.forEach((x, j) => { arr.a[k + j] = x; }); },
  Clone: (rt, l) => new CsArray(l.of, l.a.slice()),
  GetEnumerator: (rt, l) => mkEnumerator(rt, l),
  GetLength: (rt, l) => i32(l.a.length),
  GetValue: (rt, l, [i]) => rt.idx(l, [i]),
  SetValue: (rt, l, [v, i]) => { rt.setidx(l, [i], v); },
  Add: rt => { throw rt.fail('NotSupportedException', 'Collection was of a fixed size.'); },
  RemoveAt: rt => { throw rt.fail('NotSupportedException', 'Collection was of a fixed size.'); },
};
bclDef('System.Array', 0, {
  s: {
    AsReadOnly: (rt, T, targs, [a]) => { if (a === null) throw rt.fail('ArgumentNullException', 'array'); return mkRoc(rt, a.of, a); },
    Empty: (rt, T, targs) => new CsArray(targs[0], []),
    Copy: (rt, T, targs, args) => {
      const [s, si, d, di, n] = args.length === 3 ? [args[0], i32(0), args[1], i32(0), args[2]] : args;
      const a = int(rt, si), b = int(rt, di), c = int(rt, n);
      if (c < 0 || a < 0 || b < 0) throw range(rt, 'length');
      if (a + c > s.a.length || b + c > d.a.length) throw rt.fail('ArgumentException', 'Source array was not long enough.');
      const xs = s.a.slice(a, a + c);
      for (let i = 0; i < c; i++) d.a[b + i] = xs[i];
    },
    Resize: (rt, T, targs, [box, n]) => {
      const k = int(rt, n), old = box.v, of = targs ? targs[0] : old.of;
      const a = rt.newarr(of, i32(k));
      for (let i = 0; old && i < k && i < old.a.length; i++) a.a[i] = old.a[i];
      box.v = a;
    },
    IndexOf: (rt, T, targs, [a, x]) => ARRAY.IndexOf(rt, a, [x]),
    Reverse: (rt, T, targs, [a]) => { a.a.reverse(); },
    Clear: (rt, T, targs, [a, i, n]) => { const k = int(rt, i), c = int(rt, n); for (let j = k; j < k + c; j++) a.a[j] = rt.def(a.of); },
    Exists: (rt, T, targs, [a, d]) => a.a.some(pred(rt, d)),
    ConvertAll: (rt, T, targs, [a, d]) => rt.array(targs ? targs[1] : null, a.a.map(x => rt.invoke(d, [x]))),
  },
});
bclDef('System.Buffer', 0, { s: { BlockCopy: (rt, T, targs, [s, si, d, di, n]) => { if (s.of !== P.Byte || d.of !== P.Byte) throw new Unsupported('BlockCopy'); BCL.get('System.Array`0').s.Copy(rt, T, targs, [s, si, d, di, n]); } } });

// primitive values
const PRIM = {
  ToString: (rt, v, args) => args.length && typeof args[0] === 'string' ? rt.fmt1(v, ':' + args[0]) : rt.str(v),
  Equals: (rt, v, [o]) => o instanceof Num && v instanceof Num && o.lit && rt.fits(o, v.t) ? rt.eqc(v, o) : rt.equals(v, o),
  CompareTo: (rt, v, [o]) => i32(rt.cmp('<', v, o) ? -1 : rt.cmp('>', v, o) ? 1 : 0),
  GetHashCode: (rt, v) => i32(Number(BigInt.asIntN(32, BigInt(v instanceof EnumVal ? v.num.v : typeof v === 'boolean' ? Number(v) : v.v)))),
  GetTypeCode: () => { throw new Unsupported('GetTypeCode'); },
  HasFlag: (rt, v, [o]) => (BigInt(v.num.v) & BigInt(o.num.v)) === BigInt(o.num.v),
};
delete PRIM.GetTypeCode;
const STRING = {
  ToString: (rt, s) => s,
  Equals: (rt, s, [o]) => s === o,
  Substring: (rt, s, [i, n]) => { const k = int(rt, i), c = n === undefined ? s.length - k : int(rt, n); if (k < 0 || c < 0 || k + c > s.length) throw range(rt, 'startIndex'); return s.substr(k, c); },
  StartsWith: (rt, s, [x]) => s.startsWith(rt.str(x)),
  EndsWith: (rt, s, [x]) => s.endsWith(rt.str(x)),
  Contains: (rt, s, [x]) => s.includes(rt.str(x)),
  IndexOf: (rt, s, [x]) => i32(s.indexOf(rt.str(x))),
  LastIndexOf: (rt, s, [x]) => i32(s.lastIndexOf(rt.str(x))),
  Replace: (rt, s, [a, b]) => s.split(rt.str(a)).join(rt.str(b)),
  Trim: (rt, s) => s.trim(),
  ToUpper: (rt, s) => s.toUpperCase(), ToLower: (rt, s) => s.toLowerCase(), ToUpperInvariant: (rt, s) => s.toUpperCase(), ToLowerInvariant: (rt, s) => s.toLowerCase(),
  Split: (rt, s, [x]) => new CsArray(P.String, s.split(x instanceof CsArray ? rt.str(x.a[0]) : rt.str(x))),
  ToCharArray: (rt, s) => new CsArray(P.Char, [...Array(s.length).keys()].map(i => num('Char', s.charCodeAt(i)))),
  PadLeft: (rt, s, [n, c]) => s.padStart(int(rt, n), c ? rt.str(c) : ' '),
  PadRight: (rt, s, [n, c]) => s.padEnd(int(rt, n), c ? rt.str(c) : ' '),
  CompareTo: (rt, s, [o]) => i32(s < o ? -1 : s > o ? 1 : 0),
  GetHashCode: (rt, s) => i32([...s].reduce((h, c) => (h * 31 + c.charCodeAt(0)) | 0, 7)),
  GetEnumerator: (rt, s) => mkEnumerator(rt, s),
};
const STRINGNEW = (rt, args) => {
  if (args[0] instanceof CsArray) return args[0].a.map(c => rt.str(c)).join('');
  if (args.length === 2) return rt.str(args[0]).repeat(int(rt, args[1]));
  throw new Unsupported('new String');
};
function joined(rt, args) {
  const sep = rt.str(args[0]);
  if (args.length === 2 && typeof args[1] !== 'string' && rt.enumerable(args[1])) return [...rt.iter(args[1])].map(x => rt.str(x)).join(sep);
  return args.slice(1).map(x => rt.str(x)).join(sep);
}
const STRSTATIC = {
  Empty: { value: () => '' },
  Format: (rt, T, targs, args) => rt.format(args),
  Join: (rt, T, targs, args) => joined(rt, args),
  Concat: (rt, T, targs, args) => args.length === 1 && typeof args[0] !== 'string' ? [...rt.iter(args[0])].map(x => rt.str(x)).join('') : args.map(x => rt.str(x)).join(''),
  IsNullOrEmpty: (rt, T, targs, [s]) => s === null || s === '',
  IsNullOrWhiteSpace: (rt, T, targs, [s]) => s === null || s.trim() === '',
  Equals: (rt, T, targs, [a, b]) => a === b,
  Compare: (rt, T, targs, [a, b]) => i32(a < b ? -1 : a > b ? 1 : 0),
};
function primStatic(p, n) {
  if (p === 'String') return STRSTATIC[n] || null;
  if (p === 'Object') return OBJSTATIC[n] || null;
  if (INTS[p]) {
    if (n === 'MaxValue') return { value: () => new Num(p, wide(p) ? MAX[p] : Number(MAX[p]), true) };
    if (n === 'MinValue') return { value: () => new Num(p, wide(p) ? MIN[p] : Number(MIN[p]), true) };
    if (n === 'Parse') return (rt, T, targs, [s]) => { if (!/^\s*-?\d+\s*$/.test(s)) throw rt.fail('FormatException'); const v = BigInt(s.trim()); if (v < MIN[p] || v > MAX[p]) throw rt.fail('OverflowException'); return new Num(p, wide(p) ? v : Number(v)); };
  }
  if (p === 'Boolean' && (n === 'TrueString' || n === 'FalseString')) return { value: () => n.slice(0, -6) };
  return null;
}
const OBJSTATIC = {
  ReferenceEquals: (rt, T, targs, [a, b]) => a === b,
  Equals: (rt, T, targs, [a, b]) => rt.equals(a, b),
};
const OBJECT = {
  ToString: (rt, o) => rt.str(o),
  Equals: (rt, o, [x]) => rt.equals(o, x),
  GetType: (rt, o) => rt.typeOf(rt.typeOfVal(o)),
  GetHashCode: (rt, o) => { const k = rt.key(o); return i32([...k].reduce((h, c) => (h * 31 + c.charCodeAt(0)) | 0, 7)); },
  MemberwiseClone: (rt, o) => { if (!(o instanceof Obj)) throw new Unsupported('MemberwiseClone'); const c = rt.copyStruct(o); c.$b = o.$b; return c; },
};
bclDef('System.Math', 0, {
  s: {
    Min: (rt, T, targs, [a, b]) => { const t = rt.promote(a, b, 'min'); const x = rt.convNum(a, t), y = rt.convNum(b, t); return rt.cmp('<', y, x) ? y : x; },
    Max: (rt, T, targs, [a, b]) => { const t = rt.promote(a, b, 'max'); const x = rt.convNum(a, t), y = rt.convNum(b, t); return rt.cmp('>', y, x) ? y : x; },
    Abs: (rt, T, targs, [a]) => Number(a.v) < 0 ? new Num(a.t, wrapInt(a.t, -BigInt(a.v))) : a,
  },
});
const convert = t => (rt, T, targs, [v]) => {
  if (typeof v === 'boolean') return num(t, wide(t) ? BigInt(v) : Number(v));
  if (typeof v === 'string') return primStatic(t, 'Parse')(rt, T, null, [v]);
  if (v instanceof EnumVal) v = v.num;
  return rt.cast(P[t], rt.val(v), true);
};
bclDef('System.Convert', 0, { s: Object.assign(Object.fromEntries(Object.keys(INTS).map(t => ['To' + t, convert(t)])), { ToBoolean: (rt, T, targs, [v]) => typeof v === 'boolean' ? v : Number(v.v) !== 0, ToString: (rt, T, targs, [v]) => rt.str(v) }) });
bclDef('System.BitConverter', 0, { sg: { IsLittleEndian: () => true } });
bclDef('System.Enum', 0, {
  s: {
    IsDefined: (rt, T, targs, [t, v]) => rt.enumItems(t.t).some(([n, x]) => typeof v === 'string' ? n === v : BigInt(x.v) === BigInt(v instanceof EnumVal ? v.num.v : v.v)),
    GetValues: (rt, T, targs, [t]) => new CsArray(t.t, rt.enumItems(t.t).map(([, x]) => new EnumVal(t.t, x))),
    ToObject: (rt, T, targs, [t, v]) => rt.cast(t.t, v),
  },
});
bclDef('System.Environment', 0, { sg: { NewLine: () => '\n' } });
bclDef('System.Tuple', 0, { s: { Create: (rt, T, targs, args) => new Tuple(args.map(a => rt.val(a)), args.map(() => null)) } });
bclDef('System.ValueTuple', 0, { s: { Create: (rt, T, targs, args) => new Tuple(args.map(a => rt.val(a)), args.map(() => null)) } });
bclDef(GEN + 'EqualityComparer', 1, { sg: { Default: (rt, T) => new Bcl(T) }, m: { Equals: (rt, c, [a, b]) => rt.equals(a, b), GetHashCode: (rt, c, [a]) => OBJECT.GetHashCode(rt, a, []) } });

// LINQ
bclDef('System.Linq.Enumerable', 0, {
  s: {
    Empty: (rt, T, targs) => new CsArray(targs[0], []),
    Range: (rt, T, targs, [a, n]) => new CsArray(P.Int32, [...Array(int(rt, n)).keys()].map(i => i32(int(rt, a) + i))),
    Repeat: (rt, T, targs, [x, n]) => { const v = rt.val(x); return new CsArray(targs ? targs[0] : rt.typeOfVal(v), Array(int(rt, n)).fill(v)); },
  },
});
const seqOf = (rt, t, gen) => new Seq(B(rt, GEN + 'IEnumerable`1', [t]), gen);
const LINQ = {
  Select: (rt, s, [d], targs) => seqOf(rt, targs ? targs[1] : DYN, function* () { let i = 0; for (const x of rt.iter(s)) yield rt.invoke(d, d.list[0].fn.length === 2 ? [x, i32(i++)] : [x]); }),
  Where: (rt, s, [d]) => seqOf(rt, elemType(rt, s), function* () { for (const x of rt.iter(s)) if (rt.bool(rt.invoke(d, [x]))) yield x; }),
  Take: (rt, s, [n]) => seqOf(rt, elemType(rt, s), function* () { let k = int(rt, n); if (k <= 0) return; for (const x of rt.iter(s)) { yield x; if (--k <= 0) return; } }),
  Skip: (rt, s, [n]) => seqOf(rt, elemType(rt, s), function* () { let k = int(rt, n); for (const x of rt.iter(s)) { if (k-- > 0) continue; yield x; } }),
  TakeWhile: (rt, s, [d]) => seqOf(rt, elemType(rt, s), function* () { for (const x of rt.iter(s)) { if (!rt.bool(rt.invoke(d, [x]))) return; yield x; } }),
  Concat: (rt, s, [o]) => seqOf(rt, elemType(rt, s), function* () { yield* rt.iter(s); yield* rt.iter(o); }),
  Append: (rt, s, [o]) => seqOf(rt, elemType(rt, s), function* () { yield* rt.iter(s); yield o; }),
  Reverse: (rt, s) => seqOf(rt, elemType(rt, s), function* () { yield* [...rt.iter(s)].reverse(); }),
  Cast: (rt, s, a, targs) => seqOf(rt, targs[0], function* () { for (const x of rt.iter(s)) yield rt.unbox(targs[0], x); }),
  OfType: (rt, s, a, targs) => seqOf(rt, targs[0], function* () { for (const x of rt.iter(s)) if (rt.is(x, targs[0])) yield x; }),
  SkipLast: (rt, s, [n]) => seqOf(rt, elemType(rt, s), function* () { const a = [...rt.iter(s)]; yield* a.slice(0, Math.max(0, a.length - int(rt, n))); }),
  ToList: (rt, s) => { const a = [...rt.iter(s)]; return mkList(rt, lubOf(rt, s, a), a); },
  ToArray: (rt, s) => { const a = [...rt.iter(s)]; return new CsArray(lubOf(rt, s, a), a); },
  Any: (rt, s, [d]) => { for (const x of rt.iter(s)) if (!d || rt.bool(rt.invoke(d, [x]))) return true; return false; },
  All: (rt, s, [d]) => { for (const x of rt.iter(s)) if (!rt.bool(rt.invoke(d, [x]))) return false; return true; },
  Count: (rt, s, [d]) => { let n = 0; for (const x of rt.iter(s)) if (!d || rt.bool(rt.invoke(d, [x]))) n++; return i32(n); },
  Contains: (rt, s, [y]) => { for (const x of rt.iter(s)) if (rt.equals(x, rt.like(x, y))) return true; return false; },
  First: (rt, s, [d]) => { for (const x of rt.iter(s)) if (!d || rt.bool(rt.invoke(d, [x]))) return x; throw rt.fail('InvalidOperationException', 'Sequence contains no elements'); },
  FirstOrDefault: (rt, s, [d]) => { for (const x of rt.iter(s)) if (!d || rt.bool(rt.invoke(d, [x]))) return x; return rt.def(elemType(rt, s)); },
  Last: (rt, s, [d]) => { let r; for (const x of rt.iter(s)) if (!d || rt.bool(rt.invoke(d, [x]))) r = x; if (r === undefined) throw rt.fail('InvalidOperationException', 'Sequence contains no elements'); return r; },
  LastOrDefault: (rt, s) => { let r; for (const x of rt.iter(s)) r = x; return r === undefined ? rt.def(elemType(rt, s)) : r; },
  Single: (rt, s) => { const a = [...rt.iter(s)]; if (a.length !== 1) throw rt.fail('InvalidOperationException'); return a[0]; },
  ElementAt: (rt, s, [i]) => { const a = [...rt.iter(s)], k = int(rt, i); if (k < 0 || k >= a.length) throw range(rt, 'index'); return a[k]; },
  SequenceEqual: (rt, s, [o]) => { const a = [...rt.iter(s)], b = [...rt.iter(o)]; return a.length === b.length && a.every((x, i) => rt.equals(x, b[i])); },
  Aggregate: (rt, s, args) => { let [acc, d] = args.length === 1 ? [undefined, args[0]] : args; for (const x of rt.iter(s)) acc = acc === undefined ? x : rt.like(acc, rt.invoke(d, [acc, x])); return acc; },
  Sum: (rt, s, [d]) => { let acc = null; for (const x of rt.iter(s)) { const y = d ? rt.invoke(d, [x]) : x; acc = acc === null ? y : rt.bin('+', acc, y, true); } return acc === null ? i32(0) : acc; },
  ToDictionary: (rt, s, [k, v]) => {
    const a = [...rt.iter(s)].map(x => [rt.invoke(k, [x]), v ? rt.invoke(v, [x]) : x]);
    const T = B(rt, GEN + 'Dictionary`2', a.length ? [rt.typeOfVal(a[0][0]), lubOf(rt, null, a.map(x => x[1]))] : [DYN, DYN]);
    const d = rt.new(T, []);
    for (const [x, y] of a) DICTM.Add(rt, d, [x, y]);
    return d;
  },
  AsEnumerable: (rt, s) => s,
};
function lubOf(rt, s, a) {
  const t = s === null ? DYN : elemType(rt, s);
  if (t !== DYN) return t;
  if (!a.length) throw new Unsupported('the element type of an empty sequence');
  const ts = a.map(x => rt.typeOfVal(x)).filter(x => x !== NULLT);
  return ts.find(u => ts.every(w => rt.implicit(w, u))) || DYN;
}

module.exports = { Runtime, Num, EnumVal, Obj, Bcl, CsArray, Delegate, Tuple, TypeObj, Thrown, Fuel, IllTyped };
