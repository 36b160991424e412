// Minimal WebAssembly binary assembler used by every generator.
export const T = { i32: 0x7f, i64: 0x7e, f32: 0x7d, f64: 0x7c, v128: 0x7b, funcref: 0x70, externref: 0x6f };
export const TN = Object.fromEntries(Object.entries(T).map(([k, v]) => [v, k]));

export function u(n) { // unsigned leb
  const o = []; n = Number(n);
  do { let b = n % 128; n = Math.floor(n / 128); if (n) b |= 0x80; o.push(b); } while (n);
  return o;
}
export function s(n) { // signed leb (BigInt or number)
  n = BigInt(n); const o = [];
  for (;;) {
    const b = Number(n & 0x7fn); n >>= 7n;
    if ((n === 0n && !(b & 0x40)) || (n === -1n && (b & 0x40))) { o.push(b); return o; }
    o.push(b | 0x80);
  }
}
const fb = new DataView(new ArrayBuffer(8));
export const f32bytes = (x) => { fb.setFloat32(0, x, true); return [0, 1, 2, 3].map((i) => fb.getUint8(i)); };
export const f64bytes = (x) => { fb.setFloat64(0, x, true); return [0, 1, 2, 3, 4, 5, 6, 7].map((i) => fb.getUint8(i)); };
export const le32 = (b) => { b = Number(BigInt.asUintN(32, BigInt(b))); return [b & 255, (b >>> 8) & 255, (b >>> 16) & 255, b >>> 24]; };
export const le64 = (b) => { b = BigInt.asUintN(64, BigInt(b)); const o = []; for (let i = 0; i < 8; i++) { o.push(Number(b & 255n)); b >>= 8n; } return o; };
export const str = (x) => { const b = Buffer.from(x); return [...u(b.length), ...b]; };

// ---- instruction tables: name -> {code, in, out}
export const OPS = {};
const def = (name, code, inn, out) => { OPS[name] = { name, code: Array.isArray(code) ? code : [code], in: inn, out }; };
{
  const rel = (t, base, names) => names.forEach((n, i) => def(`${t}.${n}`, base + i, n === 'eqz' ? [t] : [t, t], ['i32']));
  rel('i32', 0x45, ['eqz', 'eq', 'ne', 'lt_s', 'lt_u', 'gt_s', 'gt_u', 'le_s', 'le_u', 'ge_s', 'ge_u']);
  rel('i64', 0x50, ['eqz', 'eq', 'ne', 'lt_s', 'lt_u', 'gt_s', 'gt_u', 'le_s', 'le_u', 'ge_s', 'ge_u']);
  rel('f32', 0x5b, ['eq', 'ne', 'lt', 'gt', 'le', 'ge']);
  rel('f64', 0x61, ['eq', 'ne', 'lt', 'gt', 'le', 'ge']);
  const num = (t, base, names, unary) => names.forEach((n, i) => def(`${t}.${n}`, base + i, unary.includes(n) ? [t] : [t, t], [t]));
  const ints = ['clz', 'ctz', 'popcnt', 'add', 'sub', 'mul', 'div_s', 'div_u', 'rem_s', 'rem_u', 'and', 'or', 'xor', 'shl', 'shr_s', 'shr_u', 'rotl', 'rotr'];
  num('i32', 0x67, ints, ['clz', 'ctz', 'popcnt']);
  num('i64', 0x79, ints, ['clz', 'ctz', 'popcnt']);
  const fl = ['abs', 'neg', 'ceil', 'floor', 'trunc', 'nearest', 'sqrt', 'add', 'sub', 'mul', 'div', 'min', 'max', 'copysign'];
  num('f32', 0x8b, fl, fl.slice(0, 7));
  num('f64', 0x99, fl, fl.slice(0, 7));
  const cv = [['i32.wrap_i64', 'i64', 'i32'], ['i32.trunc_f32_s', 'f32', 'i32'], ['i32.trunc_f32_u', 'f32', 'i32'], ['i32.trunc_f64_s', 'f64', 'i32'], ['i32.trunc_f64_u', 'f64', 'i32'],
    ['i64.extend_i32_s', 'i32', 'i64'], ['i64.extend_i32_u', 'i32', 'i64'], ['i64.trunc_f32_s', 'f32', 'i64'], ['i64.trunc_f32_u', 'f32', 'i64'], ['i64.trunc_f64_s', 'f64', 'i64'], ['i64.trunc_f64_u', 'f64', 'i64'],
    ['f32.convert_i32_s', 'i32', 'f32'], ['f32.convert_i32_u', 'i32', 'f32'], ['f32.convert_i64_s', 'i64', 'f32'], ['f32.convert_i64_u', 'i64', 'f32'], ['f32.demote_f64', 'f64', 'f32'],
    ['f64.convert_i32_s', 'i32', 'f64'], ['f64.convert_i32_u', 'i32', 'f64'], ['f64.convert_i64_s', 'i64', 'f64'], ['f64.convert_i64_u', 'i64', 'f64'], ['f64.promote_f32', 'f32', 'f64'],
    ['i32.reinterpret_f32', 'f32', 'i32'], ['i64.reinterpret_f64', 'f64', 'i64'], ['f32.reinterpret_i32', 'i32', 'f32'], ['f64.reinterpret_i64', 'i64', 'f64']];
  cv.forEach(([n, a, b], i) => def(n, 0xa7 + i, [a], [b]));
  [['i32.extend8_s', 'i32'], ['i32.extend16_s', 'i32'], ['i64.extend8_s', 'i64'], ['i64.extend16_s', 'i64'], ['i64.extend32_s', 'i64']].forEach(([n, t], i) => def(n, 0xc0 + i, [t], [t]));
  [['i32.trunc_sat_f32_s', 'f32', 'i32'], ['i32.trunc_sat_f32_u', 'f32', 'i32'], ['i32.trunc_sat_f64_s', 'f64', 'i32'], ['i32.trunc_sat_f64_u', 'f64', 'i32'],
    ['i64.trunc_sat_f32_s', 'f32', 'i64'], ['i64.trunc_sat_f32_u', 'f32', 'i64'], ['i64.trunc_sat_f64_s', 'f64', 'i64'], ['i64.trunc_sat_f64_u', 'f64', 'i64']].forEach(([n, a, b], i) => def(n, [0xfc, i], [a], [b]));
}
export const LOADS = {}; export const STORES = {};
[['i32.load', 'i32', 4], ['i64.load', 'i64', 8], ['f32.load', 'f32', 4], ['f64.load', 'f64', 8], ['i32.load8_s', 'i32', 1], ['i32.load8_u', 'i32', 1], ['i32.load16_s', 'i32', 2], ['i32.load16_u', 'i32', 2],
  ['i64.load8_s', 'i64', 1], ['i64.load8_u', 'i64', 1], ['i64.load16_s', 'i64', 2], ['i64.load16_u', 'i64', 2], ['i64.load32_s', 'i64', 4], ['i64.load32_u', 'i64', 4]].forEach(([n, t, w], i) => { LOADS[n] = { name: n, code: 0x28 + i, t, w }; });
[['i32.store', 'i32', 4], ['i64.store', 'i64', 8], ['f32.store', 'f32', 4], ['f64.store', 'f64', 8], ['i32.store8', 'i32', 1], ['i32.store16', 'i32', 2], ['i64.store8', 'i64', 1], ['i64.store16', 'i64', 2], ['i64.store32', 'i64', 4]].forEach(([n, t, w], i) => { STORES[n] = { name: n, code: 0x36 + i, t, w }; });

// ---- emitters (each returns a byte array)
const bt = (b) => { // block type: undefined | 'i32' | {idx}
  if (b === undefined || b === null || b === '') return [0x40];
  if (typeof b === 'string') return [T[b]];
  return s(b.idx);
};
export const I = {
  op: (n) => { if (!OPS[n]) throw new Error('op ' + n); return OPS[n].code.length === 2 ? [0xfc, ...u(OPS[n].code[1])] : OPS[n].code.slice(); },
  unreachable: () => [0x00], nop: () => [0x01],
  block: (b, body) => [0x02, ...bt(b), ...body, 0x0b],
  loop: (b, body) => [0x03, ...bt(b), ...body, 0x0b],
  if: (b, th, el) => [0x04, ...bt(b), ...th, ...(el ? [0x05, ...el] : []), 0x0b],
  br: (d) => [0x0c, ...u(d)], br_if: (d) => [0x0d, ...u(d)],
  br_table: (ds, d) => [0x0e, ...u(ds.length), ...ds.flatMap(u), ...u(d)],
  return: () => [0x0f], call: (f) => [0x10, ...u(f)], call_indirect: (t, tab = 0) => [0x11, ...u(t), ...u(tab)],
  drop: () => [0x1a], select: () => [0x1b], select_t: (t) => [0x1c, 1, T[t]],
  get: (i) => [0x20, ...u(i)], set: (i) => [0x21, ...u(i)], tee: (i) => [0x22, ...u(i)],
  gget: (i) => [0x23, ...u(i)], gset: (i) => [0x24, ...u(i)],
  tget: (t) => [0x25, ...u(t)], tset: (t) => [0x26, ...u(t)],
  load: (n, off = 0, al = 0) => [LOADS[n].code, ...u(al), ...u(off)],
  store: (n, off = 0, al = 0) => [STORES[n].code, ...u(al), ...u(off)],
  size: () => [0x3f, 0], grow: () => [0x40, 0],
  i32: (n) => [0x41, ...s(BigInt.asIntN(32, BigInt(n)))], i64: (n) => [0x42, ...s(BigInt.asIntN(64, BigInt(n)))],
  f32b: (bits) => [0x43, ...le32(bits)], f64b: (bits) => [0x44, ...le64(bits)],
  f32: (x) => [0x43, ...f32bytes(x)], f64: (x) => [0x44, ...f64bytes(x)],
  ref_null: (t) => [0xd0, T[t]], ref_is_null: () => [0xd1], ref_func: (f) => [0xd2, ...u(f)],
  mem_init: (d) => [0xfc, 8, ...u(d), 0], data_drop: (d) => [0xfc, 9, ...u(d)],
  mem_copy: () => [0xfc, 10, 0, 0], mem_fill: () => [0xfc, 11, 0],
  tfill: (t) => [0xfc, 17, ...u(t)], tsize: (t) => [0xfc, 16, ...u(t)], tgrow: (t) => [0xfc, 15, ...u(t)],
  tinit: (e, t) => [0xfc, 12, ...u(e), ...u(t)], tcopy: (d, t) => [0xfc, 14, ...u(d), ...u(t)], elem_drop: (e) => [0xfc, 13, ...u(e)],
  cst: (t, bits) => t === 'i32' ? I.i32(bits) : t === 'i64' ? I.i64(bits) : t === 'f32' ? I.f32b(bits) : I.f64b(bits),
};
export const seq = (...xs) => xs.flat(Infinity);

const sec = (id, body) => { const b = body.flat(Infinity); return [id, ...u(b.length), ...b]; };
const vec = (xs) => [...u(xs.length), ...xs.flat(Infinity)];

export class Mod {
  constructor() {
    this.types = []; this.tkeys = new Map(); this.imports = []; this.funcs = []; this.tables = []; this.mems = []; this.globals = [];
    this.exports = []; this.startf = null; this.elems = []; this.datas = []; this.nimp = 0; this.dataCount = false;
  }
  type(params = [], results = []) {
    const k = params.join() + '>' + results.join();
    if (!this.tkeys.has(k)) { this.tkeys.set(k, this.types.length); this.types.push([0x60, ...vec(params.map((t) => [T[t]])), ...vec(results.map((t) => [T[t]]))]); }
    return this.tkeys.get(k);
  }
  importFunc(mod, name, params, results) {
    if (this.funcs.length) throw new Error('imports first');
    this.imports.push([...str(mod), ...str(name), 0, ...u(this.type(params, results))]); return this.nimp++;
  }
  // body: byte array without the final end. locals: list of type names
  func({ params = [], results = [], locals = [], body, name }) {
    const idx = this.nimp + this.funcs.length;
    this.funcs.push({ t: this.type(params, results), locals, body: body ? seq(body) : null });
    if (name) this.exports.push([...str(name), 0, ...u(idx)]);
    return idx;
  }
  setBody(idx, body, locals) { const f = this.funcs[idx - this.nimp]; f.body = seq(body); if (locals) f.locals = locals; }
  memory(min, max, name = 'memory') {
    this.mems.push(max === undefined ? [0, ...u(min)] : [1, ...u(min), ...u(max)]); if (name) this.exports.push([...str(name), 2, ...u(this.mems.length - 1)]);
    return this.mems.length - 1;
  }
  global(t, mut, init, name) {
    this.globals.push([T[t], mut ? 1 : 0, ...init, 0x0b]); const i = this.globals.length - 1;
    this.exports.push([...str(name ?? 'g' + i), 3, ...u(i)]); return i;
  }
  table(t, min, max, name) {
    this.tables.push([T[t], ...(max === undefined ? [0, ...u(min)] : [1, ...u(min), ...u(max)])]); const i = this.tables.length - 1;
    this.exports.push([...str(name ?? 't' + i), 1, ...u(i)]); return i;
  }
  elem(offset, funcs) { this.elems.push([0, ...offset, 0x0b, ...vec(funcs.map(u))]); return this.elems.length - 1; }
  elemRaw(bytes) { this.elems.push(bytes); return this.elems.length - 1; }
  data(offset, bytes) { this.datas.push([0, ...offset, 0x0b, ...u(bytes.length), ...bytes]); return this.datas.length - 1; }
  dataPassive(bytes) { this.dataCount = true; this.datas.push([1, ...u(bytes.length), ...bytes]); return this.datas.length - 1; }
  start(f) { this.startf = f; }
  exportFunc(name, idx) { this.exports.push([...str(name), 0, ...u(idx)]); }
  build() {
    const code = this.funcs.map((f) => {
      const groups = []; for (const l of f.locals) { if (groups.length && groups[groups.length - 1][1] === l) groups[groups.length - 1][0]++; else groups.push([1, l]); }
      const b = [...u(groups.length), ...groups.flatMap(([n, t]) => [...u(n), T[t]]), ...f.body, 0x0b];
      return [u(b.length), b];
    });
    // avoid huge spreads: assemble with chunks
    const parts = [[0, 0x61, 0x73, 0x6d, 1, 0, 0, 0]];
    const add = (id, items) => { if (items.length) parts.push(sec(id, [u(items.length), items])); };
    add(1, this.types); add(2, this.imports); add(3, this.funcs.map((f) => u(f.t))); add(4, this.tables); add(5, this.mems); add(6, this.globals); add(7, this.exports);
    if (this.startf !== null) parts.push(sec(8, [u(this.startf)]));
    add(9, this.elems);
    if (this.dataCount) parts.push(sec(12, [u(this.datas.length)]));
    if (code.length) { const flat = []; for (const c of code) for (const x of c) for (const y of x) flat.push(y); const n = u(code.length); parts.push([10, ...u(n.length + flat.length), ...n]); parts.push(flat); }
    add(11, this.datas);
    let len = 0; for (const p of parts) len += p.length;
    const out = new Uint8Array(len); let o = 0; for (const p of parts) { out.set(p, o); o += p.length; }
    return out;
  }
}
