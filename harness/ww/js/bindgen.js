// Runs a wasm module made with wasm-bindgen as the compiler leaves it: what the wasm-bindgen tool would
// generate ahead of time is done here at run time, from the module's own descriptions.
'use strict';
const T = ('I8 U8 I16 U16 I32 U32 I64 U64 I64_AS_F64 U64_AS_F64 I128 U128 F32 F64 BOOLEAN FUNCTION CLOSURE CACHED_STRING STRING ' +
  'REF REFMUT LONGREF SLICE VECTOR EXTERNREF NAMED_EXTERNREF ENUM STRING_ENUM DYNAMIC_UNION RUST_STRUCT CHAR OPTIONAL RESULT UNIT ' +
  'CLAMPED NONNULL RAW_POINTER SEQ_MODE NULLABLE').split(' ');

// ---- the custom section: what each import stands for
function readPrograms(buf) {
  const b = new Uint8Array(buf);
  const dv = new DataView(buf);
  const td = new TextDecoder();
  const out = [];
  let p = 0;
  while (p < b.length) {
    let n = dv.getUint32(p, true);
    p += 4;
    const version = JSON.parse(td.decode(b.subarray(p, p + n)));
    p += n;
    n = dv.getUint32(p, true);
    p += 4;
    out.push(readProgram(b.subarray(p, p + n), version));
    p += n;
  }
  return out;
}
function readProgram(b, version) {
  let p = 0;
  const td = new TextDecoder();
  const byte = () => b[p++];
  const bool = () => b[p++] !== 0;
  const u32 = () => {
    let r = 0, s = 0, x;
    do {
      x = b[p++];
      r |= (x & 127) << s;
      s += 7;
    } while (x & 128);
    return r >>> 0;
  };
  const str = () => {
    const n = u32();
    p += n;
    return td.decode(b.subarray(p - n, p));
  };
  const vec = f => Array.from({ length: u32() }, f);
  const opt = f => (byte() ? f() : null);
  const fun = () => ({
    args: vec(() => ({ name: str(), ty: opt(str), optional: bool(), desc: opt(str) })),
    async: bool(), jspi: bool(), name: str(), ts: bool(), doc: bool(), variadic: bool(), ret: opt(str), retDesc: opt(str),
  });
  const methodKind = () => {
    if (byte() === 0) return { constructor_: true };
    const isStatic = bool();
    const k = byte();
    const kind = ['regular', 'this', 'getter', 'setter', 'iget', 'iset', 'idel'][k];
    return { isStatic, kind, prop: k === 2 || k === 3 ? str() : null };
  };
  const module = () => {
    const k = byte();
    return k === 2 ? { inline: u32() } : { name: str(), raw: k === 1 };
  };
  if (u32() !== 0) throw Error('exports are not supported');
  if (u32() !== 0) throw Error('enums are not supported');
  const imports = vec(() => {
    const im = { module: opt(module), ns: opt(() => vec(str)), reexport: opt(str), ts: bool() };
    const k = byte();
    if (k === 0) {
      Object.assign(im, { type: 'function', shim: str(), catch: bool(), variadic: bool(), noShim: bool(), suspending: bool() });
      im.method = opt(() => ({ class: str(), ...methodKind() }));
      im.structural = bool();
      im.fn = fun();
      im.mono = bool();
    } else if (k === 1) Object.assign(im, { type: 'static', name: str(), shim: str() });
    else if (k === 2) Object.assign(im, { type: 'string', shim: str(), string: str() });
    else if (k === 3) Object.assign(im, { type: 'type', name: str(), shim: str(), prefixes: vec(str) });
    else if (k === 4) Object.assign(im, { type: 'enum', name: str(), values: vec(str), comments: vec(str), ts2: bool(), priv: bool(), ns2: opt(() => vec(str)) });
    else throw Error('import kind ' + k);
    return im;
  });
  return { imports, version };
}

// ---- descriptors
function readDescriptor(words) {
  let p = 0;
  const next = () => words[p++];
  const name = () => {
    const n = next();
    let s = '';
    for (let i = 0; i < n; i++) s += String.fromCodePoint(next());
    return s;
  };
  const ty = () => {
    const t = T[next()];
    switch (t) {
      case 'FUNCTION': {
        const shim = next();
        const n = next();
        const args = Array.from({ length: n }, ty);
        const ret = ty();
        const inner = ty();
        return { t, shim, args, ret, inner };
      }
      case 'CLOSURE': {
        const owned = next();
        const mut = next();
        return { t, owned, mut, fn: ty() };
      }
      case 'REF': case 'REFMUT': case 'LONGREF': case 'SLICE': case 'VECTOR': case 'OPTIONAL': case 'RESULT': case 'CLAMPED': case 'NULLABLE':
        return { t, of: ty() };
      case 'SEQ_MODE': {
        const mode = next();
        return { t, mode, of: ty() };
      }
      case 'NAMED_EXTERNREF': case 'RUST_STRUCT':
        return { t, name: name() };
      case 'ENUM':
        return { t, name: name(), hole: next() };
      case 'STRING_ENUM': {
        const d = { t, name: name() };
        const n = next();
        d.values = Array.from({ length: n }, name);
        return d;
      }
      case undefined:
        throw Error('descriptor ' + words.join(' '));
      default:
        return { t };
    }
  };
  const d = ty();
  if (p !== words.length) throw Error(`descriptor has ${words.length - p} words left: ${words.join(' ')}`);
  return d;
}
// ---- the module at run time
const UNDEFINED = 1024, NULL = 1025, TRUE = 1026, FALSE = 1027, FIRST = 1028;
const REFS = new Set(['EXTERNREF', 'NAMED_EXTERNREF']);
const SENTINEL_F64 = 9007199254740991, SENTINEL_SMALL = 0xffffff;

/// module: WebAssembly.Module, G: the global object as the module should see it, extra: further imports (env)
function instantiate(module, G, extra) {
  const meta = module.wwMeta || (module.wwMeta = {
    shims: new Map(WebAssembly.Module.customSections(module, '__wasm_bindgen_unstable').flatMap(readPrograms).flatMap(p => p.imports).filter(i => i.shim).map(i => [i.shim, i])),
    imports: WebAssembly.Module.imports(module),
    sigs: new Map(),
    casts: new Map(),
  });
  const heap = [];
  let free = [];
  heap[UNDEFINED] = undefined;
  heap[NULL] = null;
  heap[TRUE] = true;
  heap[FALSE] = false;
  let top = FIRST;
  let live = 0;
  let words = [];
  let exp;
  let scratch = 0;
  const rt = { fault: null, calls: 0, G, heapLive: () => live, closures: 0 };
  const td = new TextDecoder();
  const te = new TextEncoder();
  const dv = () => new DataView(exp.memory.buffer);
  const put = v => {
    if (v === undefined) return UNDEFINED;
    if (v === null) return NULL;
    if (v === true) return TRUE;
    if (v === false) return FALSE;
    live++;
    const i = free.length ? free.pop() : top++;
    heap[i] = v;
    return i;
  };
  const get = i => {
    if (!(i in heap)) throw Error(`no object has the handle ${i}`);
    return heap[i];
  };
  const drop = i => {
    if (i < FIRST) return;
    if (!(i in heap)) throw Error(`handle ${i} dropped twice`);
    live--;
    delete heap[i];
    free.push(i);
  };
  const take = i => {
    const v = get(i);
    drop(i);
    return v;
  };
  const text = (p, n) => td.decode(new Uint8Array(exp.memory.buffer, p >>> 0, n >>> 0));
  const putText = s => {
    const b = te.encode(s);
    const p = exp.__wbindgen_malloc(b.length, 1) >>> 0;
    new Uint8Array(exp.memory.buffer).set(b, p);
    return [p, b.length];
  };
  const guard = f => (...a) => {
    if (rt.fault) return;
    try {
      return f(...a);
    } catch (e) {
      rt.fault = rt.fault || (e && e.stack) || String(e);
      throw e;
    }
  };
  // from Rust: takes its primitives from `prim()`
  const lift = (d, prim) => {
    switch (d.t) {
      case 'EXTERNREF': case 'NAMED_EXTERNREF':
        return take(prim());
      case 'REF': case 'REFMUT': case 'LONGREF':
        if (REFS.has(d.of.t)) return get(prim());
        if (d.of.t === 'STRING') {
          const p = prim();
          return text(p, prim());
        }
        if (d.of.t === 'CLOSURE') return get(prim());
        if (d.of.t === 'SLICE') {
          const p = prim() >>> 0, n = prim() >>> 0;
          if (d.of.of.t === 'U8') return new Uint8Array(exp.memory.buffer, p, n);
        }
        break;
      case 'STRING': {
        const p = prim(), n = prim();
        const s = text(p, n);
        if (n) exp.__wbindgen_free(p, n, 1);
        return s;
      }
      case 'VECTOR': {
        const p = prim() >>> 0, n = prim() >>> 0;
        if (!REFS.has(d.of.t)) break;
        const v = Array.from(new Uint32Array(exp.memory.buffer, p, n)).map(take);
        if (n) exp.__wbindgen_free(p, n * 4, 4);
        return v;
      }
      case 'OPTIONAL': {
        const o = d.of;
        const a = prim();
        const rest = f => {
          let first = true;
          return lift(o, () => (first ? ((first = false), a) : f()));
        };
        switch (o.t) {
          case 'EXTERNREF': case 'NAMED_EXTERNREF': return a === 0 ? undefined : take(a);
          case 'REF':
            if (REFS.has(o.of.t) || o.of.t === 'CLOSURE') return a === 0 ? undefined : get(a);
            if (a === 0) return prim(), undefined;
            return rest(prim);
          case 'STRING': case 'VECTOR':
            if (a === 0) return prim(), undefined;
            return rest(prim);
          case 'U32': case 'F32': return a === SENTINEL_F64 ? undefined : o.t === 'U32' ? a >>> 0 : a;
          case 'I32': return a === SENTINEL_F64 ? undefined : a | 0;
          case 'BOOLEAN': return a === SENTINEL_SMALL ? undefined : a !== 0;
          case 'U8': case 'U16': case 'I8': case 'I16': return a === SENTINEL_SMALL ? undefined : a;
          case 'F64': {
            const x = prim();
            return a === 0 ? undefined : x;
          }
        }
        break;
      }
      case 'BOOLEAN': return prim() !== 0;
      case 'U32': return prim() >>> 0;
      case 'U8': case 'U16': case 'I8': case 'I16': case 'I32': case 'F32': case 'F64': case 'I64': return prim();
      case 'U64': return BigInt.asUintN(64, prim());
      case 'UNIT': return undefined;
      case 'CLOSURE': {
        const a = prim(), b = prim();
        return closure(d, a, b);
      }
    }
    throw Error('cannot take ' + JSON.stringify(d));
  };
  // to Rust: its primitives
  const lower = (d, v, lent) => {
    switch (d.t) {
      case 'EXTERNREF': case 'NAMED_EXTERNREF': return [put(v)];
      case 'REF': {
        if (!REFS.has(d.of.t)) break;
        const i = put(v);
        lent.push(i);
        return [i];
      }
      case 'STRING': return putText(String(v));
      case 'VECTOR': {
        if (!REFS.has(d.of.t)) break;
        const a = Array.from(v, put);
        const p = exp.__wbindgen_malloc(a.length * 4, 4) >>> 0;
        new Uint32Array(exp.memory.buffer, p, a.length).set(a);
        return [p, a.length];
      }
      case 'OPTIONAL': {
        const none = v === undefined || v === null;
        switch (d.of.t) {
          case 'EXTERNREF': case 'NAMED_EXTERNREF': return [none ? 0 : put(v)];
          case 'STRING': case 'VECTOR': return none ? [0, 0] : lower(d.of, v);
          case 'U32': case 'F32': case 'I32': return [none ? SENTINEL_F64 : d.of.t === 'U32' ? v >>> 0 : d.of.t === 'I32' ? v | 0 : v];
          case 'BOOLEAN': return [none ? SENTINEL_SMALL : v ? 1 : 0];
          case 'U8': case 'U16': return [none ? SENTINEL_SMALL : v];
          case 'F64': return [none ? 0 : 1, none ? 0 : v];
        }
        break;
      }
      case 'BOOLEAN': return [v ? 1 : 0];
      case 'U32': return [v >>> 0];
      case 'I32': return [v | 0];
      case 'U8': case 'U16': case 'I8': case 'I16': case 'F32': case 'F64': return [Number(v)];
      case 'I64': case 'U64': return [BigInt(v)];
      case 'UNIT': return [];
    }
    throw Error('cannot give ' + JSON.stringify(d));
  };
  const store = (d, p, prims) => {
    const m = dv();
    const inner = d.t === 'OPTIONAL' ? d.of.t : d.t;
    if (prims.length === 2 && inner === 'F64') {
      m.setUint32(p, prims[0], true);
      m.setFloat64(p + 8, prims[1], true);
    } else if (prims.length === 1 && (inner === 'F64' || (d.t === 'OPTIONAL' && ['U32', 'I32', 'F32'].includes(inner)))) m.setFloat64(p, prims[0], true);
    else if (inner === 'F32') m.setFloat32(p, prims[0], true);
    else if (inner === 'I64' || inner === 'U64') m.setBigUint64(p, BigInt.asUintN(64, prims[0]), true);
    else prims.forEach((x, i) => m.setUint32(p + i * 4, x, true));
  };
  function closure(d, a, b) {
    const st = { a, b, n: 1 };
    rt.closures++;
    const end = () => {
      if (--st.n === 0 && st.a) {
        const [a, b] = [st.a, st.b];
        st.a = 0;
        rt.closures--;
        if (d.owned && !rt.fault) exp.__wbindgen_destroy_closure(a, b);
      }
    };
    const shim = exp.__indirect_function_table.get(d.fn.shim);
    const f = guard((...args) => {
      st.n++;
      const a = st.a;
      const lent = [];
      if (d.mut) st.a = 0;
      try {
        const prims = d.fn.args.flatMap((t, i) => lower(t, args[i], lent));
        if (!a) throw Error('closure called again from within itself, or after it was dropped');
        const ret = d.fn.ret;
        if (ret.t === 'RESULT') {
          const n = ret.of.t === 'UNIT' ? 0 : 1;
          const p = exp.__wbindgen_malloc(16, 8) >>> 0;
          shim(p, a, st.b, ...prims);
          const m = dv();
          const [value, err, failed] = [m.getUint32(p, true), m.getUint32(p + n * 4, true), m.getUint32(p + n * 4 + 4, true)];
          exp.__wbindgen_free(p, 16, 8);
          if (failed) throw take(err);
          return n ? lift(ret.of, () => value) : undefined;
        }
        const r = shim(a, st.b, ...prims);
        return lift(ret, () => r);
      } finally {
        if (d.mut) st.a = a;
        lent.forEach(drop);
        end();
      }
    });
    f._wbg_cb_unref = end;
    return f;
  }
  const signature = shim => {
    let s = meta.sigs.get(shim);
    if (s === undefined) {
      const f = exp['__wbindgen_describe_' + shim];
      s = null;
      if (f) {
        words = [];
        f();
        s = readDescriptor(words);
        words = [];
      }
      meta.sigs.set(shim, s);
    }
    return s;
  };
  const scope = im => (im.ns || []).reduce((o, k) => o[k], G);
  // what an import does with JS values
  const behaviour = im => {
    const m = im.method;
    const name = im.fn.name;
    const spread = a => (im.variadic ? [...a.slice(0, -1), ...Array.from(a[a.length - 1] || [])] : a);
    if (!m) return (...a) => {
      const path = name.split('.');
      const f = path.pop();
      const o = path.reduce((o, k) => o[k], scope(im));
      if (typeof o[f] !== 'function') throw new TypeError(`${name} is not a function`);
      return o[f](...spread(a));
    };
    const cls = () => {
      const c = scope(im)[m.class];
      if (c === undefined) throw new TypeError(`${m.class} does not exist`);
      return c;
    };
    if (m.constructor_) return (...a) => new (cls())(...spread(a));
    const prop = m.prop || name;
    if (m.isStatic) switch (m.kind) {
      case 'regular': return (...a) => cls()[name](...spread(a));
      case 'getter': return () => cls()[prop];
      case 'setter': return v => void (cls()[prop] = v);
    }
    const has = (o, k) => {
      if (o === undefined || o === null) throw new TypeError(`${m.class}.${String(k)} of ${o}`);
      return o;
    };
    switch (m.kind) {
      case 'regular': return (o, ...a) => {
        if (typeof has(o, name)[name] !== 'function') throw Object.assign(new TypeError(`${m.class}.${name} is not available here (${o && o.constructor && o.constructor.name})`), { unsupported: true });
        return o[name](...spread(a));
      };
      case 'getter': return o => has(o, prop)[prop];
      case 'setter': return (o, v) => void (has(o, prop)[prop] = v);
      case 'iget': return (o, k) => o[k];
      case 'iset': return (o, k, v) => void (o[k] = v);
      case 'idel': return (o, k) => void delete o[k];
    }
    throw Error('method kind ' + m.kind);
  };
  const perform = (im, f, args) => {
    rt.calls++;
    if (!im.catch) return f(...args);
    try {
      return f(...args);
    } catch (e) {
      if (rt.fault || e instanceof WebAssembly.RuntimeError || e.unsupported) throw e;
      exp.__wbindgen_exn_store(put(e));
      return undefined;
    }
  };
  const zero = d => (d.t === 'I64' || d.t === 'U64' ? 0n : 0);
  const lowerRet = (d, v, caught) => (caught ? [zero(d)] : lower(d, v));
  const intrinsics = {
    __wbindgen_throw: s => { throw Error(s); },
    __wbindgen_jsval_eq: (a, b) => a === b,
    __wbindgen_is_function: a => typeof a === 'function',
    __wbindgen_is_undefined: a => a === undefined,
    __wbindgen_is_null: a => a === null,
    __wbindgen_is_string: a => typeof a === 'string',
    __wbindgen_is_object: a => typeof a === 'object' && a !== null,
    __wbindgen_debug_string: a => (typeof a === 'string' ? JSON.stringify(a) : a instanceof Error ? `${a.name}: ${a.message}` : String(a)),
    __wbindgen_string_get: a => (typeof a === 'string' ? a : undefined),
    __wbindgen_number_get: a => (typeof a === 'number' ? a : undefined),
    __wbindgen_boolean_get: a => (typeof a === 'boolean' ? a : undefined),
    __wbindgen_memory: () => exp.memory,
  };
  const function_ = im => {
    let sig, f;
    return (...prims) => {
      if (!sig) {
        sig = signature(im.shim);
        if (!sig) throw Error('no description of ' + im.shim);
        f = intrinsics[im.fn.name] || behaviour(im);
      }
      let ret = sig.ret;
      if (ret.t === 'RESULT') ret = ret.of;
      const multi = ret.t === 'STRING' || ret.t === 'VECTOR' || (ret.t === 'OPTIONAL' && ['STRING', 'VECTOR', 'F64'].includes(ret.of.t));
      const q = multi ? prims.slice(1) : prims;
      let i = 0;
      const args = sig.args.map(d => lift(d, () => q[i++]));
      let caught = false;
      const v = perform(im, (...a) => {
        try {
          return f(...a);
        } catch (e) {
          caught = true;
          throw e;
        }
      }, args);
      if (multi) {
        if (!caught) store(ret, prims[0] >>> 0, lower(ret, v));
        return;
      }
      return lowerRet(ret, v, caught)[0];
    };
  };
  const imports = {};
  for (const i of meta.imports) {
    const mod = (imports[i.module] = imports[i.module] || {});
    const im = meta.shims.get(i.name);
    let f;
    if (i.module === 'env') f = extra[i.name];
    else if (i.name === '__wbindgen_object_clone_ref') f = i => put(get(i));
    else if (i.name === '__wbindgen_object_drop_ref') f = drop;
    else if (i.name === '__wbindgen_describe') f = w => void words.push(w >>> 0);
    else if (i.name === '__wbindgen_describe_generic_import') f = (func, prims) => {
      const w = words;
      words = [];
      const n = w[0];
      const key = String.fromCodePoint(...w.slice(1, n + 1));
      const id = w.join(' ');
      let e = meta.casts.get(id);
      if (!e) meta.casts.set(id, (e = readDescriptor(w.slice(n + 1))));
      const m = dv();
      let at = prims;
      const inner = e.args.length === 1 && (e.args[0].t === 'OPTIONAL' ? e.args[0].of.t : e.args[0].t);
      const next = () => {
        if (inner === 'F64' || inner === 'I64' || inner === 'U64') {
          at += 8;
          return inner === 'F64' ? m.getFloat64(at - 8, true) : m.getBigInt64(at - 8, true);
        }
        if (inner === 'F32') return m.getFloat32(at, true);
        at += 4;
        return m.getUint32(at - 4, true);
      };
      const args = e.args.map(d => lift(d, next));
      let v = args[0];
      let caught = false;
      if (n) {
        const im = meta.shims.get(key);
        v = perform(im, (...a) => {
          try {
            return behaviour(im)(...a);
          } catch (e) {
            caught = true;
            throw e;
          }
        }, args);
      }
      const ret = e.ret.t === 'RESULT' ? e.ret.of : e.ret;
      if (!scratch) scratch = exp.__wbindgen_malloc(64, 8) >>> 0;
      if (!caught) store(ret, scratch, lower(ret, v));
      return scratch;
    };
    else if (i.name === '__wbindgen_externref_statics_end') f = () => FIRST;
    else if (i.name.includes('jspi_in_context')) f = () => 0;
    else if (im && im.type === 'function') f = function_(im);
    else if (im && im.type === 'type') f = i => (G[im.name] !== undefined && get(i) instanceof G[im.name] ? 1 : 0);
    else if (im && im.type === 'static') f = () => {
      const v = scope(im)[im.name];
      return v === undefined || v === null ? 0 : put(v);
    };
    if (i.kind === 'function') mod[i.name] = f ? f : () => { throw Error('no import ' + i.name + ' ' + (im ? im.type : '')); };
    else throw Error('import of kind ' + i.kind);
  }
  const instance = new WebAssembly.Instance(module, imports);
  exp = instance.exports;
  rt.exports = Object.fromEntries(Object.entries(exp).map(([k, v]) => [k, typeof v === 'function' ? guard(v) : v]));
  Object.assign(rt, { put, get, take, drop, text, putText });
  return rt;
}
module.exports = { T, readPrograms, readDescriptor, instantiate };
if (require.main === module) {
  const m = new WebAssembly.Module(require('fs').readFileSync(process.argv[2]));
  const progs = WebAssembly.Module.customSections(m, '__wasm_bindgen_unstable').flatMap(readPrograms);
  const by = new Map();
  for (const p of progs) for (const i of p.imports) if (i.shim) by.set(i.shim, i);
  for (const i of WebAssembly.Module.imports(m)) {
    const d = by.get(i.name);
    console.log(i.module, i.kind, i.name, d ? `${d.type} ${d.method ? d.method.class + ' ' + JSON.stringify(d.method) : ''} ${d.fn ? d.fn.name : d.name || d.string} catch=${d.catch} ${d.ns || ''}` : '--');
  }
}
