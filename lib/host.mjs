// Chiwawa: the real interpreter (harness .wasm) hosted in this process.
// Ref: the same guest executed directly by V8 (reference semantics).
import { Host, Exit } from './wasi.mjs';
import fs from 'node:fs';
import * as watch from './watch.mjs';

const modCache = new Map();
export function loadModule(path) { if (!modCache.has(path)) modCache.set(path, new WebAssembly.Module(fs.readFileSync(path))); return modCache.get(path); }
const te = new TextEncoder();

export const V = { // value helpers: {t, v(BigInt bits)}
  i32: (x) => ({ t: 0x7f, v: BigInt.asUintN(32, BigInt(x)) }), i64: (x) => ({ t: 0x7e, v: BigInt.asUintN(64, BigInt(x)) }),
  f32: (b) => ({ t: 0x7d, v: BigInt.asUintN(32, BigInt(b)) }), f64: (b) => ({ t: 0x7c, v: BigInt.asUintN(64, BigInt(b)) }),
  show: (x) => `${({ 0x7f: 'i32', 0x7e: 'i64', 0x7d: 'f32', 0x7c: 'f64', 0x7b: 'v128', 0x70: 'funcref', 0x6f: 'externref' })[x.t]}:0x${x.v.toString(16)}`,
};

export class Chiwawa {
  constructor(wasmPath, host = new Host()) { this.path = wasmPath; this.mod = loadModule(wasmPath); this.host = host; this.poll = null; this.pollCount = 0; this.phase = 'boot'; this.fresh(); }
  fresh(host) { // new process
    if (host) this.host = host;
    let inst; const getMem = () => inst.exports.memory;
    const self = this;
    const imports = { wasi_snapshot_preview1: this.host.imports(getMem), chiwawa_mc: { poll: () => { self.pollCount++; return self.poll ? self.poll(self.pollCount) : 2; } } };
    inst = new WebAssembly.Instance(this.mod, imports); this.inst = inst; this.x = inst.exports;
    if (this.x._initialize) this.x._initialize();
    this.dead = false; this.pollCount = 0;
    return this;
  }
  // the state of this process between two calls is its linear memory: a new process in that state
  snap() { return new Uint8Array(this.x.memory.buffer).slice(); }
  revert(s, host) { this.fresh(host); const m = this.x.memory; const need = (s.length - m.buffer.byteLength) >> 16; if (need > 0) m.grow(need); new Uint8Array(m.buffer).set(s); return this; }
  _put(b) { const p = this.x.mc_alloc(b.length); new Uint8Array(this.x.memory.buffer, p, b.length).set(b); return p; }
  out() { return new Uint8Array(this.x.memory.buffer, this.x.mc_out_ptr(), this.x.mc_out_len()).slice(); }
  outStr() { return Buffer.from(this.out()).toString(); }
  _vals(b) { const r = []; const dv = new DataView(b.buffer, b.byteOffset, b.length); for (let o = 0; o + 17 <= b.length; o += 17) { const t = b[o]; let v = dv.getBigUint64(o + 1, true); if (t === 0x7f || t === 0x7d || t === 0x70) v &= 0xffffffffn; r.push({ t, v }); } return r; }
  // returns {st:'ok'|'parse'|'inst'|'trap', msg}
  load(bytes, argv = []) {
    this.host.setFile('guest.wasm', bytes); const p = te.encode('guest.wasm'); const a = te.encode(argv.map((x) => x + '\0').join(''));
    this.phase = 'load';
    watch.enter(); try { const r = this.x.mc_load(this._put(p), p.length, this._put(a), a.length); this.x.mc_free_all(); return r === 0 ? { st: 'ok' } : { st: r === 1 ? 'parse' : 'inst', msg: this.outStr() }; } catch (e) { return this._exc(e); } finally { watch.leave(); }
  }
  _exc(e) { this.dead = true; if (e instanceof Exit) return { st: 'exit', code: e.code }; if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) return { st: 'trap', msg: e.message }; throw e; }
  _ret(r) { switch (r) { case 0: return { st: 'ok', vals: this._vals(this.out()) }; case 1: return { st: 'ckpt' }; case 2: return { st: 'err', msg: this.outStr() }; case 3: return { st: 'noexport', msg: this.outStr() }; case 4: return { st: 'ctor', msg: this.outStr() }; case 5: return { st: 'rejected', msg: this.outStr() }; } throw new Error('ret ' + r); }
  call(name, args = [], flags = 0) {
    const n = te.encode(name); const a = new Uint8Array(args.length * 17); const dv = new DataView(a.buffer);
    args.forEach((x, i) => { a[17 * i] = x.t; dv.setBigUint64(17 * i + 1, x.v, true); });
    const pn = this._put(n), pa = this._put(a); this.phase = 'guest'; this.pollCount = 0;
    watch.enter(); try { const r = this._ret(this.x.mc_call(pn, n.length, pa, args.length, flags)); this.x.mc_free_all(); return r; } catch (e) { return this._exc(e); } finally { watch.leave(); }
  }
  // restores an image into the current (freshly loaded) instance and resumes it
  restore(image, flags = 0, path = 'image.bin') {
    if (image) this.host.setFile(path, image); const p = te.encode(path); this.phase = 'restore'; this.pollCount = 0;
    watch.enter(); try { const r = this.x.mc_restore(this._put(p), p.length); if (r !== 0) return { st: 'rejected', msg: this.outStr() }; } catch (e) { return { ...this._exc(e), during: 'restore' }; } finally { watch.leave(); }
    return this.resume(flags);
  }
  resume(flags = 0) { this.phase = 'guest'; this.pollCount = 0; watch.enter(); try { return this._ret(this.x.mc_resume(flags)); } catch (e) { return this._exc(e); } finally { watch.leave(); } }
  restoreOnly(image, path = 'image.bin') {
    if (image) this.host.setFile(path, image); const p = te.encode(path); this.phase = 'restore';
    watch.enter(); try { const r = this.x.mc_restore(this._put(p), p.length); return r === 0 ? { st: 'ok' } : { st: 'rejected', msg: this.outStr() }; } catch (e) { return { ...this._exc(e), during: 'restore' }; } finally { watch.leave(); }
  }
  memBytes() { const p = this.x.mc_mem_ptr(), n = this.x.mc_mem_len(); return new Uint8Array(this.x.memory.buffer, p, n); }
  setMem(off, bytes) { this.memBytes().set(bytes, off); }
  globals() { this.x.mc_globals(); return this._vals(this.out()); }
  tables() { this.x.mc_tables(); const b = this.out(); const dv = new DataView(b.buffer); const r = []; let o = 0; while (o < b.length) { const n = dv.getUint32(o, true); o += 4; r.push(this._vals(b.slice(o, o + 17 * n))); o += 17 * n; } return r; }
}

const cvt = new DataView(new ArrayBuffer(8));
export function jsToVal(x, t) {
  switch (t) {
    case 'i32': return V.i32(x); case 'i64': return V.i64(x);
    case 'f32': cvt.setFloat32(0, x); return V.f32(cvt.getUint32(0)); case 'f64': cvt.setFloat64(0, x); return V.f64(cvt.getBigUint64(0));
    default: return { t: 0x70, v: x === null ? 0xffffffffn : 0n };
  }
}
export function valToJs(v) {
  switch (v.t) {
    case 0x7f: return Number(BigInt.asIntN(32, v.v)); case 0x7e: return BigInt.asIntN(64, v.v);
    case 0x7d: cvt.setUint32(0, Number(v.v)); return cvt.getFloat32(0); case 0x7c: cvt.setBigUint64(0, v.v); return cvt.getFloat64(0);
    default: return null;
  }
}
export class Ref {
  constructor(bytes, host = new Host(), extra = {}) {
    this.mod = bytes instanceof WebAssembly.Module ? bytes : new WebAssembly.Module(bytes); this.host = host;
    let inst; const imports = { wasi_snapshot_preview1: host.imports(() => inst.exports.memory), ...extra };
    // a start function needs the memory before the instance exists only if it calls WASI; not generated here
    inst = new WebAssembly.Instance(this.mod, imports); this.inst = inst; this.x = inst.exports;
  }
  call(name, args, results) {
    try { let r = this.x[name](...args.map(valToJs)); if (results.length === 0) r = []; else if (results.length === 1) r = [r]; else r = [...r]; return { st: 'ok', vals: r.map((x, i) => jsToVal(x, results[i])) }; } catch (e) {
      if (e instanceof Exit) return { st: 'exit', code: e.code };
      if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) return { st: 'trap', msg: e.message }; throw e;
    }
  }
  memBytes() { return new Uint8Array(this.x.memory.buffer); }
}
const isNaN32 = (v) => (v & 0x7fffffffn) > 0x7f800000n, isNaN64 = (v) => (v & 0x7fffffffffffffffn) > 0x7ff0000000000000n;
export function sameVal(a, b) { if (a.t !== b.t) return false; if (a.v === b.v) return true; if (a.t === 0x7d) return isNaN32(a.v) && isNaN32(b.v); if (a.t === 0x7c) return isNaN64(a.v) && isNaN64(b.v); return false; }
export const sameVals = (a, b) => a.length === b.length && a.every((x, i) => sameVal(x, b[i]));
export { Host, Exit };
