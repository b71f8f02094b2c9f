'use strict';
// What wasm-bindgen's command line tool would have generated for the module, interpreted at run time instead: import
// metadata from its custom section, types from its descriptor functions.
const TYPES = ('I8 U8 I16 U16 I32 U32 I64 U64 I64_AS_F64 U64_AS_F64 I128 U128 F32 F64 BOOLEAN FUNCTION CLOSURE CACHED_STRING ' +
  'STRING REF REFMUT LONGREF SLICE VECTOR EXTERNREF NAMED_EXTERNREF ENUM STRING_ENUM DYNAMIC_UNION RUST_STRUCT CHAR OPTIONAL ' +
  'RESULT UNIT CLAMPED NONNULL RAW_POINTER SEQ_MODE NULLABLE').split(' ');
const OFFSET = 1024, UNDEFINED = 1024, RESERVED = 1028;

class Unsupported extends Error {}
/** Thrown by Rust on purpose, as wasm-bindgen does for instance when an object is used while it is borrowed. */
class Thrown extends Error {}

// ------------------------------------------------------------ custom section

class Reader {
  constructor(bytes) { this.b = bytes; this.at = 0; }
  u32() {
    let v = 0, shift = 0;
    for (;;) {
      const byte = this.b[this.at++];
      if (byte === undefined) throw new Unsupported('truncated metadata');
      v |= (byte & 0x7f) << shift;
      if (!(byte & 0x80)) return v >>> 0;
      shift += 7;
    }
  }
  tag() { return this.b[this.at++]; }
  bool() { return this.tag() !== 0; }
  str() { const n = this.u32(); const s = Buffer.from(this.b.subarray(this.at, this.at + n)).toString('utf8'); this.at += n; return s; }
  opt(f) { return this.bool() ? f() : null; }
  vec(f) { const n = this.u32(); const out = []; for (let i = 0; i < n; i++) out.push(f()); return out; }
}

function readProgram(r) {
  const str = () => r.str(), optStr = () => r.opt(str), strs = () => r.vec(str), optStrs = () => r.opt(strs);
  const operation = () => {
    const isStatic = r.bool();
    const tag = r.tag();
    const kind = ['regular', 'this', 'getter', 'setter', 'iget', 'iset', 'idel'][tag];
    return { isStatic, kind, property: tag === 2 || tag === 3 ? str() : null };
  };
  const methodKind = () => (r.tag() === 0 ? { constructor_: true } : operation());
  const fn = () => {
    const f = {};
    f.args = r.vec(() => { const a = { name: str() }; optStr(); r.bool(); optStr(); return a; });
    f.async = r.bool(); f.jspi = r.bool(); f.name = str(); r.bool(); r.bool(); f.variadic = r.bool(); optStr(); optStr();
    return f;
  };
  const importModule = () => { const t = r.tag(); return t === 2 ? { inline: r.u32() } : { module: str(), t }; };
  const exports = r.vec(() => {
    const e = { class: optStr() };
    strs(); e.consumed = r.bool(); e.fn = fn(); e.ns = optStrs(); e.kind = methodKind(); e.start = r.tag();
    return e;
  });
  r.vec(() => { str(); r.bool(); r.vec(() => { str(); r.u32(); strs(); }); strs(); r.bool(); optStrs(); r.bool(); });
  const imports = r.vec(() => {
    const i = { module: r.opt(importModule), ns: optStrs() };
    optStr(); r.bool();
    const tag = r.tag();
    if (tag === 0) {
      i.kind = 'fn';
      i.shim = str(); i.catch = r.bool(); i.variadic = r.bool(); r.bool(); r.bool();
      i.method = r.opt(() => ({ class: str(), kind: methodKind() }));
      i.structural = r.bool(); i.fn = fn(); r.bool();
    } else if (tag === 1) { i.kind = 'static'; i.name = str(); i.shim = str(); }
    else if (tag === 2) { i.kind = 'string'; i.shim = str(); i.string = str(); }
    else if (tag === 3) { i.kind = 'type'; i.name = str(); i.shim = str(); strs(); }
    else if (tag === 4) { i.kind = 'enum'; str(); strs(); strs(); r.bool(); r.bool(); optStrs(); }
    else if (tag === 5) { i.kind = 'union'; str(); strs(); r.u32(); strs(); r.bool(); r.bool(); r.bool(); }
    else throw new Unsupported('unknown import kind ' + tag);
    return i;
  });
  r.vec(() => {
    str(); r.vec(() => { str(); r.bool(); strs(); r.bool(); r.bool(); }); strs(); r.bool(); r.bool(); optStrs(); r.bool();
    optStr(); optStr(); optStrs();
  });
  return { exports, imports };
}

function metadata(module) {
  const programs = [];
  for (const section of WebAssembly.Module.customSections(module, '__wasm_bindgen_unstable')) {
    const b = new Uint8Array(section);
    const view = new DataView(section);
    let at = 0;
    const block = () => { const n = view.getUint32(at, true); at += 4; const s = b.subarray(at, at + n); at += n; return s; };
    while (at < b.length) {
      const version = JSON.parse(Buffer.from(block()).toString());
      if (version.schema_version !== '0.2.130') throw new Unsupported('wasm-bindgen schema ' + version.schema_version);
      programs.push(block());
    }
  }
  const imports = new Map(), exports = [];
  for (const p of programs) {
    const text = Buffer.from(p).toString('latin1');
    const crate = [...text.matchAll(/([A-Za-z0-9_-]+)-([0-9a-f]{16})(?![0-9a-z])/g)].pop();
    const d = readProgram(new Reader(p));
    for (const i of d.imports) if (i.shim) imports.set(i.shim, i);
    for (const e of d.exports) { e.hash = crate && crate[2]; exports.push(e); }
  }
  return { imports, exports };
}

// ------------------------------------------------------------ descriptors

function parseType(words, at) {
  const next = () => { if (at.i >= words.length) throw new Unsupported('truncated descriptor'); return words[at.i++]; };
  const name = () => { const n = next(); let s = ''; for (let i = 0; i < n; i++) s += String.fromCodePoint(next()); return s; };
  const tag = TYPES[next()];
  switch (tag) {
    case 'REF': case 'REFMUT': case 'LONGREF': case 'SLICE': case 'VECTOR': case 'OPTIONAL': case 'RESULT': case 'CLAMPED': case 'NULLABLE':
      return { tag, of: parseType(words, at) };
    case 'SEQ_MODE': next(); return parseType(words, at);
    case 'NAMED_EXTERNREF': return { tag: 'EXTERNREF', name: name() };
    case 'RUST_STRUCT': { const n = name(); const module = name(); return { tag, name: n, module }; }
    case 'FUNCTION': {
      next();
      const args = [];
      for (let n = next(); n > 0; n--) args.push(parseType(words, at));
      const ret = parseType(words, at);
      parseType(words, at);
      return { tag, args, ret };
    }
    case 'CACHED_STRING': return { tag: 'STRING' };
    case undefined: throw new Unsupported('unknown type');
    default: return { tag };
  }
}

const BYTES = { I8: Int8Array, U8: Uint8Array, I16: Int16Array, U16: Uint16Array, I32: Int32Array, U32: Uint32Array, F32: Float32Array, F64: Float64Array };
const encoder = new TextEncoder();
const decoder = new TextDecoder('utf-8', { fatal: true, ignoreBOM: true });

/** The wasm values a type is passed as: 'i' (32 bits), 'I', 'f', 'd'. */
function shape(t) {
  switch (t.tag) {
    case 'UNIT': return '';
    case 'F32': return 'f';
    case 'F64': return 'd';
    case 'I64': case 'U64': return 'I';
    case 'STRING': case 'SLICE': case 'VECTOR': return 'ii';
    case 'REF': case 'REFMUT': case 'LONGREF':
      return t.of.tag === 'REF' ? shape(t.of) : shape(t.of);
    case 'OPTIONAL':
      switch (t.of.tag) {
        case 'F64': return 'id';
        case 'I32': case 'U32': case 'F32': return 'd';
        case 'I64': case 'U64': return 'iI';
        default: return shape(t.of);
      }
    case 'RESULT': {
      throw new Unsupported('Result return');
    }
    case 'I128': case 'U128': case 'CLOSURE': case 'FUNCTION': case 'DYNAMIC_UNION': case 'STRING_ENUM': case 'NULLABLE':
      throw new Unsupported(t.tag);
    default: return 'i';
  }
}

const SIZE = { i: 4, f: 4, d: 8, I: 8 };
function layout(s) {
  const out = [];
  let at = 0;
  for (const c of s) { at = Math.ceil(at / SIZE[c]) * SIZE[c]; out.push(at); at += SIZE[c]; }
  return out;
}

class Instance {
  /** @param compiled what compile() returned */
  constructor(compiled) {
    const { module, meta } = compiled;
    this.heap = [];
    this.free_ = [];
    this.borrowed = OFFSET;
    this.live = 0;
    this.panics = [];
    this.describing = null;
    this.types = new Map();
    this.casts = 0;
    const imports = {};
    for (const { module: m, name, kind } of WebAssembly.Module.imports(module)) {
      if (kind !== 'function') throw new Unsupported('import of a ' + kind);
      (imports[m] ??= {})[name] = this.importFor(m, name, meta);
    }
    this.exports = new WebAssembly.Instance(module, imports).exports;
    this.memory = this.exports.memory;
    this.scratch = this.exports.__wbindgen_malloc(64, 8);
    this.classes = {};
    this.api = {};
    for (const e of meta.exports) this.define(e);
  }

  // -------------------------------------------------- memory and the object heap
  view() { return new DataView(this.memory.buffer); }
  get(idx) {
    if (idx === UNDEFINED) return undefined;
    if (idx === UNDEFINED + 1) return null;
    if (idx === UNDEFINED + 2) return true;
    if (idx === UNDEFINED + 3) return false;
    if (idx < OFFSET) return this.stack[idx];
    const slot = this.heap[idx - RESERVED];
    if (!slot) throw new Error('use of a dropped JavaScript value');
    return slot.v;
  }
  add(v) {
    this.live += 1;
    const at = this.free_.length ? this.free_.pop() : this.heap.length;
    this.heap[at] = { v };
    return at + RESERVED;
  }
  drop(idx) {
    if (idx < RESERVED) return;
    if (!this.heap[idx - RESERVED]) throw new Error('a JavaScript value was dropped twice');
    this.live -= 1;
    this.heap[idx - RESERVED] = undefined;
    this.free_.push(idx - RESERVED);
  }
  take(idx) { const v = this.get(idx); this.drop(idx); return v; }
  string(ptr, len) { return decoder.decode(new Uint8Array(this.memory.buffer, ptr >>> 0, len >>> 0)); }
  passBytes(bytes) {
    const ptr = this.exports.__wbindgen_malloc(bytes.length, 1) >>> 0;
    new Uint8Array(this.memory.buffer).set(bytes, ptr);
    return [ptr, bytes.length];
  }

  // -------------------------------------------------- conversions
  /** A JavaScript value as wasm values, handed to Rust. */
  toRust(t, v, cleanup) {
    switch (t.tag) {
      case 'UNIT': return [];
      case 'BOOLEAN': return [v ? 1 : 0];
      case 'CHAR': return [v.codePointAt(0)];
      case 'I8': case 'U8': case 'I16': case 'U16': case 'I32': case 'U32': case 'F32': case 'F64': case 'ENUM': case 'RAW_POINTER': case 'NONNULL':
        return [v];
      case 'I64': case 'U64': return [BigInt(v)];
      case 'STRING': return this.passBytes(encoder.encode(v));
      case 'SLICE': case 'VECTOR': return this.passList(t.of, v);
      case 'EXTERNREF': return [this.add(v)];
      case 'RUST_STRUCT': {
        if (!v || v.__class !== t.name || !v.__ptr) throw new TypeError('expected a ' + t.name);
        const p = v.__ptr;
        v.__ptr = 0;
        return [p];
      }
      case 'REF': case 'REFMUT': case 'LONGREF':
        if (t.of.tag === 'EXTERNREF') {
          this.stack ??= [];
          const at = --this.borrowed;
          if (at < 1) throw new Unsupported('out of borrow slots');
          this.stack[at] = v;
          cleanup?.push(() => { this.stack[at] = undefined; this.borrowed = at + 1; });
          return [at];
        }
        if (t.of.tag === 'RUST_STRUCT') {
          if (!v || v.__class !== t.of.name || !v.__ptr) throw new TypeError('expected a live ' + t.of.name);
          return [v.__ptr];
        }
        return this.toRust(t.of, v, cleanup);
      case 'OPTIONAL': {
        const none = v === undefined || v === null;
        switch (t.of.tag) {
          case 'F64': return [none ? 0 : 1, none ? 0 : v];
          case 'I32': case 'U32': return [none ? 0x100000001 : v];
          case 'BOOLEAN': return [none ? 0xffffff : v ? 1 : 0];
          case 'STRING': case 'SLICE': case 'VECTOR': return none ? [0, 0] : this.toRust(t.of, v, cleanup);
          case 'EXTERNREF': case 'RUST_STRUCT': return none ? [0] : this.toRust(t.of, v, cleanup);
        }
      }
    }
    throw new Unsupported('passing ' + JSON.stringify(t));
  }
  passList(of, v) {
    if (of.tag === 'U8' || of.tag === 'I8') return this.passBytes(v);
    const kind = BYTES[of.tag];
    if (kind) {
      const ptr = this.exports.__wbindgen_malloc(v.length * kind.BYTES_PER_ELEMENT, kind.BYTES_PER_ELEMENT) >>> 0;
      new kind(this.memory.buffer, ptr, v.length).set(v);
      return [ptr, v.length];
    }
    const each = (x) => this.toRust(of, x)[0];
    if (of.tag !== 'EXTERNREF' && of.tag !== 'RUST_STRUCT') throw new Unsupported('passing a list of ' + of.tag);
    const idx = [...v].map(each);
    const ptr = this.exports.__wbindgen_malloc(idx.length * 4, 4) >>> 0;
    new Uint32Array(this.memory.buffer, ptr, idx.length).set(idx);
    return [ptr, idx.length];
  }
  /** wasm values from Rust as a JavaScript value; what is owned is released. */
  fromRust(t, w, owned = true) {
    switch (t.tag) {
      case 'UNIT': return undefined;
      case 'BOOLEAN': return w[0] !== 0;
      case 'CHAR': return String.fromCodePoint(w[0]);
      case 'U8': case 'U16': case 'U32': case 'RAW_POINTER': case 'NONNULL': return w[0] >>> 0;
      case 'I8': case 'I16': case 'I32': case 'F32': case 'F64': case 'I64': case 'ENUM': return w[0];
      case 'U64': return BigInt.asUintN(64, w[0]);
      case 'STRING': {
        const s = this.string(w[0], w[1]);
        if (owned && w[1] !== 0) this.exports.__wbindgen_free(w[0], w[1], 1);
        return s;
      }
      case 'SLICE': case 'VECTOR': return this.takeList(t.of, w[0] >>> 0, w[1] >>> 0, owned && t.tag === 'VECTOR');
      case 'EXTERNREF': return owned ? this.take(w[0]) : this.get(w[0]);
      case 'RUST_STRUCT': return this.object(t.name, w[0] >>> 0);
      case 'REF': case 'REFMUT': case 'LONGREF': return this.fromRust(t.of, w, false);
      case 'OPTIONAL':
        switch (t.of.tag) {
          case 'F64': return w[0] ? w[1] : undefined;
          case 'I64': case 'U64': return w[0] ? w[1] : undefined;
          case 'I32': case 'U32': return w[0] === 0x100000001 ? undefined : w[0];
          case 'F32': return w[0] === 0x100000001 ? undefined : w[0];
          case 'BOOLEAN': return w[0] === 0xffffff ? undefined : w[0] !== 0;
          case 'CHAR': return w[0] === 0xffffff ? undefined : String.fromCodePoint(w[0]);
          case 'STRING': case 'SLICE': case 'VECTOR': case 'EXTERNREF': case 'RUST_STRUCT':
            return w[0] === 0 ? undefined : this.fromRust(t.of, w, owned);
        }
    }
    throw new Unsupported('receiving ' + JSON.stringify(t));
  }
  takeList(of, ptr, len, owned) {
    const kind = BYTES[of.tag];
    if (kind) {
      const out = new kind(this.memory.buffer, ptr, len).slice();
      if (owned) this.exports.__wbindgen_free(ptr, len * kind.BYTES_PER_ELEMENT, kind.BYTES_PER_ELEMENT);
      return out;
    }
    if (of.tag !== 'EXTERNREF') throw new Unsupported('receiving a list of ' + of.tag);
    const idx = [...new Uint32Array(this.memory.buffer, ptr, len)];
    const out = idx.map((i) => (owned ? this.take(i) : this.get(i)));
    if (owned) this.exports.__wbindgen_free(ptr, len * 4, 4);
    return out;
  }
  load(s, ptr) {
    const view = this.view();
    return layout(s).map((at, i) => {
      const p = (ptr >>> 0) + at;
      switch (s[i]) {
        case 'i': return view.getInt32(p, true);
        case 'f': return view.getFloat32(p, true);
        case 'd': return view.getFloat64(p, true);
        default: return view.getBigInt64(p, true);
      }
    });
  }
  store(s, ptr, w) {
    const view = this.view();
    layout(s).forEach((at, i) => {
      const p = (ptr >>> 0) + at;
      switch (s[i]) {
        case 'i': view.setInt32(p, Number(w[i]) | 0, true); break;
        case 'f': view.setFloat32(p, w[i], true); break;
        case 'd': view.setFloat64(p, w[i], true); break;
        default: view.setBigInt64(p, BigInt(w[i]), true);
      }
    });
  }

  // -------------------------------------------------- exports
  describe(name) {
    let t = this.types.get(name);
    if (t === undefined) {
      const f = this.exports['__wbindgen_describe_' + name];
      if (!f) { this.types.set(name, null); return null; }
      this.describing = [];
      try { f(); } finally { t = this.describing; this.describing = null; }
      t = parseType(t, { i: 0 });
      this.types.set(name, t);
    }
    return t;
  }
  object(cls, ptr) {
    const proto = this.classes[cls];
    if (!proto) throw new Unsupported('class ' + cls);
    const o = Object.create(proto);
    o.__class = cls;
    o.__ptr = ptr;
    return o;
  }
  define(e) {
    const base = e.class ? `${e.class.toLowerCase()}_${e.fn.name}` : e.fn.name;
    const symbol = e.hash && this.exports[`${base}_${e.hash}`] ? `${base}_${e.hash}` : Object.keys(this.exports).find((n) => n === base || (n.startsWith(base + '_') && /^[0-9a-f]{16}$/.test(n.slice(base.length + 1))));
    if (!symbol) throw new Unsupported('no export for ' + base);
    const instance = this;
    const method = e.class && !e.kind.constructor_ && !e.kind.isStatic;
    const call = function (...args) {
      const f = instance.exports[symbol];
      const t = instance.describe(symbol);
      if (!t) throw new Unsupported('no type of ' + symbol);
      const cleanup = [], values = [];
      const s = shape(t.ret);
      const indirect = s.length > 1;
      let ret = 0;
      try {
        if (indirect) { ret = instance.exports.__wbindgen_malloc(32, 8); values.push(ret); }
        if (method) {
          if (!this.__ptr) throw new TypeError('null pointer passed to rust');
          values.push(this.__ptr);
        }
        t.args.forEach((a, i) => values.push(...instance.toRust(a, args[i], cleanup)));
        if (f.length !== values.length) throw new Unsupported(`${symbol} takes ${f.length} values, not ${values.length}`);
        const direct = f(...values);
        return instance.fromRust(t.ret, indirect ? instance.load(s, ret) : [direct]);
      } finally {
        while (cleanup.length) cleanup.pop()();
        if (indirect) instance.exports.__wbindgen_free(ret, 32, 8);
      }
    };
    if (!e.class) { this.api[e.fn.name] = call.bind(null); return; }
    const proto = (this.classes[e.class] ??= this.makeClass(e.class));
    if (method) proto[e.fn.name] = call;
    else this.api[`${e.class}.${e.fn.name}`] = call.bind(null);
  }
  makeClass(name) {
    const instance = this;
    const symbol = Object.keys(this.exports).find((n) => n.startsWith(`__wbg_${name.toLowerCase()}_free`));
    return { free() { const p = this.__ptr; this.__ptr = 0; if (p && symbol) instance.exports[symbol](p, 0); } };
  }

  // -------------------------------------------------- imports
  importFor(module, name, meta) {
    const self = this;
    const never = () => { throw new Unsupported('import ' + name); };
    if (module === '__wbindgen_externref_xform__') return name.endsWith('statics_end') ? () => RESERVED : never;
    if (name === '__wbindgen_describe') return (w) => { (self.describing ?? (self.castWords ??= [])).push(w >>> 0); };
    if (name === '__wbindgen_describe_generic_import') return (f, prims) => self.cast(prims);
    if (name === '__wbindgen_object_drop_ref') return (i) => self.drop(i);
    if (name === '__wbindgen_object_clone_ref') return (i) => self.add(self.get(i));
    const spec = meta.imports.get(name);
    if (!spec) return never;
    let bound = null;
    return (...values) => {
      bound ??= self.bind(name, spec);
      return bound(values);
    };
  }
  bind(name, spec) {
    const t = this.describe(name);
    if (!t) throw new Unsupported('no type of import ' + name);
    const s = shape(t.ret);
    const indirect = s.length > 1;
    const f = target(spec, this);
    const convert = t.args.map((a) => [a, shape(a).length]);
    return (values) => {
      let at = indirect ? 1 : 0;
      const finish = (v) => {
        const w = this.toRust(t.ret, v);
        if (indirect) { this.store(s, values[0], w); return undefined; }
        return w[0];
      };
      const args = convert.map(([a, n]) => { const w = values.slice(at, at + n); at += n; return this.fromRust(a, w); });
      if (!spec.catch) return finish(f(args));
      try {
        return finish(f(args));
      } catch (e) {
        if (e instanceof Unsupported) throw e;
        this.exports.__wbindgen_exn_store(this.add(e));
        return undefined;
      }
    };
  }
  /** wbg_cast: an identity function between a Rust type and another, through JavaScript. */
  cast(prims) {
    // The words of the descriptor were collected just before
    const words = this.castWords ?? [];
    this.castWords = null;
    if (words[0] !== 0) throw new Unsupported('generic import');
    const t = parseType(words, { i: 1 });
    this.casts += 1;
    const s = shape(t.args[0]);
    const v = this.fromRust(t.args[0], this.load(s, prims));
    const r = shape(t.ret);
    this.store(r, this.scratch, this.toRust(t.ret, v));
    return this.scratch;
  }
}

/** The JavaScript function an import stands for, taking its arguments as a list. */
function target(spec, instance) {
  if (spec.kind === 'static') return () => globalThis[spec.name];
  if (spec.kind === 'string') return () => spec.string;
  if (spec.kind === 'type') return ([v]) => v instanceof globalThis[spec.name];
  const name = spec.fn.name;
  if (name.startsWith('__wbindgen_')) {
    const f = INTRINSICS[name];
    if (!f) throw new Unsupported('intrinsic ' + name);
    return (args) => f(...args);
  }
  let scope = globalThis;
  for (const n of spec.ns ?? []) scope = scope[n];
  const spread = (args) => (spec.variadic ? [...args.slice(0, -1), ...args[args.length - 1]] : args);
  if (!spec.method) {
    if (spec.ns?.[0] === 'console' || scope === console || name === 'error') return ([m]) => { instance.panics.push(String(m)); };
    return (args) => scope[name](...spread(args));
  }
  const { class: cls, kind } = spec.method;
  if (kind.constructor_) return (args) => new scope[cls](...spread(args));
  if (kind.isStatic) {
    switch (kind.kind) {
      case 'regular': return (args) => scope[cls][name](...spread(args));
      case 'getter': return () => scope[cls][kind.property];
    }
    throw new Unsupported('static ' + kind.kind);
  }
  switch (kind.kind) {
    case 'regular': return (args) => args[0][name](...spread(args.slice(1)));
    case 'getter': return (args) => args[0][kind.property];
    case 'setter': return (args) => { args[0][kind.property] = args[1]; };
    case 'iget': return (args) => args[0][args[1]];
    case 'iset': return (args) => { args[0][args[1]] = args[2]; };
    case 'idel': return (args) => { delete args[0][args[1]]; };
  }
  throw new Unsupported('method ' + kind.kind);
}

const INTRINSICS = {
  __wbindgen_is_null: (v) => v === null,
  __wbindgen_is_undefined: (v) => v === undefined,
  __wbindgen_is_null_or_undefined: (v) => v === null || v === undefined,
  __wbindgen_is_symbol: (v) => typeof v === 'symbol',
  __wbindgen_is_object: (v) => typeof v === 'object' && v !== null,
  __wbindgen_is_function: (v) => typeof v === 'function',
  __wbindgen_is_string: (v) => typeof v === 'string',
  __wbindgen_is_bigint: (v) => typeof v === 'bigint',
  __wbindgen_typeof: (v) => typeof v,
  __wbindgen_in: (p, o) => p in o,
  __wbindgen_is_falsy: (v) => !v,
  __wbindgen_try_into_number: (v) => { try { return +v; } catch (e) { return e; } },
  __wbindgen_as_number: (v) => +v,
  __wbindgen_is_array: (v) => Array.isArray(v),
  __wbindgen_reflect_get: (o, k) => Reflect.get(o, k),
  __wbindgen_json_parse: (t) => JSON.parse(t),
  __wbindgen_json_serialize: (v) => JSON.stringify(v === undefined ? null : v),
  __wbindgen_string_from_utf8_lossy: (b) => Buffer.from(b).toString('utf8'),
  __wbindgen_bigint_from_str: (t) => BigInt(t),
  __wbindgen_symbol_new: (t) => (t === undefined ? Symbol() : Symbol(t)),
  __wbindgen_error_new: (m) => new Error(m),
  __wbindgen_bit_and: (a, b) => a & b,
  __wbindgen_bit_or: (a, b) => a | b,
  __wbindgen_bit_xor: (a, b) => a ^ b,
  __wbindgen_bit_not: (v) => ~v,
  __wbindgen_shl: (a, b) => a << b,
  __wbindgen_shr: (a, b) => a >> b,
  __wbindgen_unsigned_shr: (a, b) => a >>> b,
  __wbindgen_pow: (a, b) => a ** b,
  __wbindgen_neg: (v) => -v,
  __wbindgen_add: (a, b) => a + b,
  __wbindgen_sub: (a, b) => a - b,
  __wbindgen_mul: (a, b) => a * b,
  __wbindgen_div: (a, b) => a / b,
  __wbindgen_rem: (a, b) => a % b,
  __wbindgen_lt: (a, b) => a < b,
  __wbindgen_le: (a, b) => a <= b,
  __wbindgen_gt: (a, b) => a > b,
  __wbindgen_ge: (a, b) => a >= b,
  __wbindgen_number_get: (v) => (typeof v === 'number' ? v : undefined),
  __wbindgen_boolean_get: (v) => (typeof v === 'boolean' ? v : undefined),
  __wbindgen_string_get: (v) => (typeof v === 'string' ? v : undefined),
  __wbindgen_bigint_get_as_i64: (v) => (typeof v === 'bigint' ? v : undefined),
  __wbindgen_debug_string: (v) => { try { return String(v); } catch { return 'Object'; } },
  __wbindgen_throw: (m) => { throw new Thrown(m); },
  __wbindgen_rethrow: (v) => { throw v; },
  __wbindgen_jsval_eq: (a, b) => a === b,
  __wbindgen_jsval_loose_eq: (a, b) => a == b,
};

function compile(bytes) {
  const module = new WebAssembly.Module(bytes);
  return { module, meta: metadata(module) };
}

module.exports = { compile, Instance, Unsupported, Thrown };
