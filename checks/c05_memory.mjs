// C05: linear memory is a byte array. Every pair of accesses over widths, overlaps,
// operand shapes; every copy/fill/init of a small window; every sequence of memory
// operations (growth inside callees included) up to a depth: same bytes, same size.
import { bitsPlan, bitsRun, bitsBound } from '../lib/bits.mjs';
import { I, LOADS, STORES } from '../lib/asm.mjs';
import { V } from '../lib/host.mjs';
import { magPlan, magBound, magRun } from '../lib/mags.mjs';
import { wasmPath } from '../lib/build.mjs';
import { runBatch } from '../lib/diff.mjs';

export const variants = ['tco', 'legacy'];
const BIT = { i32: 0x89abcdefn, i64: 0x8182838485868788n, f32: 0xc1a2b3c4n, f64: 0xc1d2e3f405162738n };
const LN = Object.keys(LOADS), SN = Object.keys(STORES);
const lt = (n) => n.split('.')[0];
const win = 96; const initMem = Uint8Array.from({ length: win }, (_, i) => (i * 37 + 11) & 255);
// ways of writing an i32 operand of value n: param 0 holds n when needed
const ADDR = {
  c: (n) => I.i32(n), l: () => I.get(0), e: (n) => [I.get(0), I.i32(3), I.op('i32.add'), I.i32(3), I.op('i32.sub')], t: () => [I.get(0), I.tee(1)], m: (n) => [I.i32(80), I.load('i32.load8_u', 0)],
  cc: (n) => [I.i32(n - 5), I.i32(5), I.op('i32.add')], g: () => I.gget(1),
};
const prep = { m: (n) => [I.i32(80), I.i32(n), I.store('i32.store8', 0)], g: (n) => [I.i32(n), I.gset(1)] };
// the value: constant, local, a load, an expression
const VALS = {
  c: (t) => I.cst(t, BIT[t]), l: (t) => I.get({ i32: 2, i64: 3, f32: 4, f64: 5 }[t]), m: (t) => [I.i32(64), I.load(t + '.load', 0)],
  e: (t) => (t[0] === 'i' ? [I.get({ i32: 2, i64: 3 }[t]), I.cst(t, 7n), I.op(t + '.xor')] : [I.get({ f32: 4, f64: 5 }[t]), I.op(t + '.neg')]), s: (t) => [I.get({ i32: 2, i64: 3, f32: 4, f64: 5 }[t]), I.cst(t, BIT[t]), I.get(0), I.select()],
};
const PARAMS = ['i32', 'i32', 'i32', 'i64', 'f32', 'f64']; const argsFor = (n) => [V.i32(n), V.i32(0), V.i32(BIT.i32), V.i64(BIT.i64 ^ 0xffn), V.f32(BIT.f32), V.f64(BIT.f64)];
const lp = (b) => b.flat(Infinity);
function* pairs(job) { // store then load at every displacement
  const sn = job.sn; for (const ln of LN) for (let d = -8; d <= 8; d++) for (const [so, lo] of [[0, 0], [3, 0], [0, 5], [0, 0]]) for (const a of ['c', 'l', 'e']) yield { key: `pair:${sn}+${so}/${ln}+${lo}:${d}:${a}`, params: PARAMS, results: [lt(ln)], body: lp([ADDR[a](16), VALS.c(lt(sn)), I.store(sn, so), ADDR[a](16), I.i32(d), I.op('i32.add'), I.load(ln, lo)]), args: [argsFor(16)] };
}
function* shapes() {
  for (const sn of SN) for (const a of Object.keys(ADDR)) for (const v of Object.keys(VALS)) for (const off of [0, 1, 2, 40]) yield { key: `sshape:${sn}:${a}:${v}:${off}`, params: PARAMS, body: lp([prep[a] ? prep[a](21) : [], ADDR[a](21), VALS[v](lt(sn)), I.store(sn, off)]), args: [argsFor(21)] };
  for (const ln of LN) for (const a of Object.keys(ADDR)) for (const off of [0, 1, 2, 40]) for (const use of ['r', 's', 'd', 'o']) {
    const t = lt(ln); const ld = [ADDR[a](21), I.load(ln, off)]; const L = { i32: 2, i64: 3, f32: 4, f64: 5 }[t];
    const b = { r: ld, s: [ld, I.set(L), I.get(L)], d: [ld, I.drop(), I.cst(t, 1n)], o: [I.cst(t, 5n), ld, t[0] === 'i' ? I.op(t + '.sub') : I.op(t + '.copysign')] }[use];
    yield { key: `lshape:${ln}:${a}:${off}:${use}`, params: PARAMS, results: [t], body: lp([prep[a] ? prep[a](21) : [], b]), args: [argsFor(21)] };
  }
  // the same value read twice around a store: loads may not be delayed past it
  for (const sn of SN) for (const ln of LN) for (let d = -8; d <= 8; d++) yield { key: `order:${sn}:${ln}:${d}`, params: PARAMS, results: [lt(ln), lt(ln)], body: lp([I.i32(24), I.load(ln), I.i32(24 + d), VALS.c(lt(sn)), I.store(sn), I.i32(24), I.load(ln)]), args: [argsFor(0)] };
  // every edge of the memory: the last byte is reachable, with every static offset split
  for (const n of [...SN, ...LN]) { const w = (STORES[n] ?? LOADS[n]).w ?? { 8: 1, 16: 2, 32: 4 }[(n.match(/(8|16|32)(_[su])?$/) ?? [])[1] ?? ''] ?? (/64/.test(lt(n)) ? 8 : 4); for (const off of [0, 1, 7, 32768, 65536 - w]) for (const back of [0, 1]) { const a = 65536 - w - off - back; if (a < 0) continue; yield { key: `edge:${n}:${off}:${back}`, params: PARAMS, results: STORES[n] ? [] : [lt(n)], body: lp(STORES[n] ? [I.get(0), VALS.c(lt(n)), I.store(n, off)] : [I.i32(65528), I.i64(BIT.i64), I.store('i64.store'), I.get(0), I.load(n, off)]), args: [argsFor(a)] }; } }
}
const OPND = ['c', 'l']; // operand shapes of the bulk instructions: constants / locals
function* bulk(job) {
  const op = (sh, i, v) => (sh === 'c' ? I.i32(v) : I.get(i)); const P = ['i32', 'i32', 'i32']; const ar = (a, b, c) => [[V.i32(a), V.i32(b), V.i32(c)]];
  if (job.op === 'copy') { for (let s = 0; s <= 12; s++) for (let n = 0; n <= 10; n++) for (const sh of OPND) yield { key: `copy:${job.d}:${s}:${n}:${sh}`, params: P, body: lp([op(sh, 0, job.d), op(sh, 1, s), op(sh, 2, n), I.mem_copy()]), args: ar(job.d, s, n) }; }
  if (job.op === 'fill') for (const b of [0, 1, 0xa5, 0xff, 0x1a5, -1]) for (let d = 0; d <= 10; d++) for (let n = 0; n <= 10; n++) for (const sh of OPND) yield { key: `fill:${b}:${d}:${n}:${sh}`, params: P, body: lp([op(sh, 0, d), op(sh, 1, b), op(sh, 2, n), I.mem_fill()]), args: ar(d, b, n) };
  if (job.op === 'init') for (let d = 0; d <= 9; d++) for (let s = 0; s <= 7; s++) for (let n = 0; n + s <= 7; n++) for (const seg of [0, 1]) for (const sh of OPND) yield { key: `init:${seg}:${d}:${s}:${n}:${sh}`, params: P, body: lp([op(sh, 0, d), op(sh, 1, s), op(sh, 2, n), I.mem_init(seg)]), args: ar(d, s, n) };
  if (job.op === 'end') for (const w of [0, 1, 7]) for (const k of ['copy', 'fill', 'init', 'copyd']) for (const sh of OPND) { const e = 65536 - w; const [a, b, c, o] = { copy: [e, 3, w, I.mem_copy()], copyd: [3, e, w, I.mem_copy()], fill: [e, 0x5a, w, I.mem_fill()], init: [e, 0, w, I.mem_init(0)] }[k]; yield { key: `end:${k}:${w}:${sh}`, params: P, body: lp([op(sh, 0, a), op(sh, 1, b), op(sh, 2, c), o]), args: ar(a, b, c) }; }
}
// ---- the same at every magnitude, in a memory of BIGP pages: everything compared after each operation
const BIGP = 17, BIGL = BIGP * 65536; const bigMem = Uint8Array.from({ length: BIGL }, (_, i) => (i * 197 + (i >> 7) * 31 + (i >> 15)) & 255); const SEGL = 150000;
const MAGS = [0, 1, 3, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 32767, 32768, 65535, 65536, 65537, 131071, 131072, 131073, 262145, 524288, 600000];
const FEWM = [0, 1, 33, 256, 4095, 4097, 32768, 65535, 65536, 65537, 131073, 524288, 600000];
function* large(job) {
  const P = ['i32', 'i32', 'i32']; const A = (...x) => x.map((v) => V.i32(v)); const within = (...e) => e.every((x) => x >= 0 && x <= BIGL); const M = job.T ? MAGS : FEWM; const args = [];
  if (job.op === 'copy') { // from and to every magnitude, and every distance between the two
    for (const s of M) for (const n of MAGS) { for (const d of M) args.push([d, s, n]); for (const q of MAGS) args.push([s + q, s, n], [s - q, s, n]); } const ok = args.filter(([d, s, n]) => within(d, d + n, s + n)).filter((_, i) => i % 4 === job.i);
    yield { key: `large:copy:${job.i}`, params: P, body: lp([I.get(0), I.get(1), I.get(2), I.mem_copy()]), args: ok.map((a) => A(...a)) }; for (const [d, s, n] of ok.filter((_, i) => i % 9 === 0)) yield { key: `large:copy:${d}:${s}:${n}:const`, body: lp([I.i32(d), I.i32(s), I.i32(n), I.mem_copy()]) };
  } else if (job.op === 'fill') { for (const d of MAGS) for (const n of MAGS) if (within(d + n) && (d + n) % 4 === job.i) args.push([d, n & 255, n], [d, 0, n]); yield { key: `large:fill:${job.i}`, params: P, body: lp([I.get(0), I.get(1), I.get(2), I.mem_fill()]), args: args.map((a) => A(...a)) }; for (const [d, b, n] of args.filter((_, i) => i % 3 === 0)) yield { key: `large:fill:${d}:${b}:${n}:const`, body: lp([I.i32(d), I.i32(b), I.i32(n), I.mem_fill()]) };
  } else if (job.op === 'init') { for (const d of M) for (const s of MAGS) for (const n of MAGS) if (within(d + n) && s + n <= SEGL && (d + s + n) % 4 === job.i) args.push([d, s, n]); yield { key: `large:init:${job.i}`, params: P, body: lp([I.get(0), I.get(1), I.get(2), I.mem_init(0)]), args: args.map((a) => A(...a)) }; for (const [d, a, n] of args.filter((_, i) => i % 9 === 0)) yield { key: `large:init:${d}:${a}:${n}:const`, body: lp([I.i32(d), I.i32(a), I.i32(n), I.mem_init(0)]) };
  } else { // one access: every address beside a power of two by every such static offset
    const E = [...new Set(Array.from({ length: 21 }, (_, k) => [2 ** k - 1, 2 ** k, 2 ** k + 1]).flat().concat([0, BIGL - 8, BIGL - 7, BIGL - 4, BIGL - 2, BIGL - 1]))]; const n = job.op, st = STORES[n], t = lt(n); const w = Number((n.match(/(8|16|32)(_[su])?$/) ?? [0, /64/.test(t) ? 64 : 32])[1]) / 8;
    for (const off of E) { const as = E.filter((a) => a + off + w <= BIGL); if (as.length) yield { key: `large:${n}:${off}`, params: PARAMS, results: st ? [] : [t], body: lp(st ? [I.get(0), VALS.c(t), I.store(n, off)] : [I.get(0), I.load(n, off)]), args: as.map(argsFor) }; }
  }
}
// ---- operation sequences
const acc = [I.gget(0), I.i32(31), I.op('i32.mul'), I.op('i32.add'), I.gset(0)]; const accl = [I.op('i32.wrap_i64'), acc];
const T = {
  s8: [I.i32(3), I.i32(0xff), I.store('i32.store8')], s16: [I.i32(1), I.i32(-2), I.store('i32.store16')], s32: [I.get(0), I.i32(0x01020304), I.store('i32.store', 2)], s64: [I.i32(5), I.i64(BIT.i64), I.store('i64.store')], s648: [I.i32(4), I.i64(0x1ff), I.store('i64.store8')],
  sf: [I.i32(0), I.f32(1.5), I.store('f32.store', 4)], sd: [I.get(0), I.f64(-2.25), I.store('f64.store', 1)], sl: [I.i32(2), I.get(0), I.load('i32.load', 3), I.store('i32.store')],
  l8: [I.i32(3), I.load('i32.load8_s'), acc], l32: [I.i32(0), I.load('i32.load', 2), acc], l64: [I.get(0), I.load('i64.load', 4), accl], l16: [I.get(0), I.load('i64.load16_u', 6), accl],
  cp: [I.i32(2), I.i32(0), I.i32(7), I.mem_copy()], cpb: [I.get(0), I.i32(4), I.i32(6), I.mem_copy()], fi: [I.i32(4), I.i32(0x77), I.get(1), I.mem_fill()], in: [I.i32(1), I.i32(2), I.i32(4), I.mem_init(0)], dd: [I.data_drop(0)], in0: [I.i32(1), I.i32(0), I.i32(0), I.mem_init(0)],
  call: ['call', 'st'], bump: [I.get(0), I.i32(1), I.op('i32.add'), I.set(0)],
  g0: [I.i32(0), I.grow(), acc], g1: [I.i32(1), I.grow(), acc], g2: [I.i32(2), I.grow(), acc], gm: [I.i32(-1), I.grow(), acc], gh: [I.i32(65536), I.grow(), acc], gmin: [I.i32(-0x80000000), I.grow(), acc], gx: [I.i32(0x7fffffff), I.grow(), acc],
  sz: [I.size(), acc], sp: [I.size(), I.i32(16), I.op('i32.shl'), I.i32(0x33445566), I.store('i32.store', 0xffffffff)], cg: ['call', 'gr'], cgs: ['call', 'grst'], ci: ['ind', 'gr'],
  e1: [I.size(), I.if('', [I.size(), I.i32(16), I.op('i32.shl'), I.i32(4), I.op('i32.sub'), I.i32(0x33445566), I.store('i32.store')])], e2: [I.size(), I.i32(2), I.op('i32.ge_u'), I.if('', [I.i32(65534), I.i64(BIT.i64), I.store('i64.store')])], el: [I.size(), I.i32(2), I.op('i32.ge_u'), I.if('', [I.i32(65530), I.load('i64.load', 3), accl])],
  ec: [I.size(), I.i32(2), I.op('i32.ge_u'), I.if('', [I.i32(65533), I.i32(65530), I.i32(9), I.mem_copy()])], ef: [I.size(), I.i32(2), I.op('i32.ge_u'), I.if('', [I.i32(65530), I.i32(6), I.i32(13), I.mem_fill()])], ez: [I.size(), I.i32(3), I.op('i32.ge_u'), I.if('', [I.i32(131072), I.load('i32.load'), acc])],
  a1: [I.size(), I.if('', [I.i32(8), I.i32(0x55), I.store('i32.store')])], a2: [I.size(), I.if('', [I.i32(8), I.load('i32.load'), acc])],
};
const FAM = {
  ops: { toks: ['s8', 's16', 's32', 's64', 's648', 'sf', 'sd', 'sl', 'l8', 'l32', 'l64', 'l16', 'cp', 'cpb', 'fi', 'in', 'call', 'bump'], q: 4, t: 5, mem: [1, 2] },
  seg: { toks: ['in', 'in0', 'dd', 'cp', 's32', 'l32'], q: 4, t: 5, mem: [1, 2], fresh: true },
  grow: { toks: ['g0', 'g1', 'g2', 'gm', 'sz', 'cg', 'cgs', 'ci', 'e1', 'a1', 'a2', 'e2'], q: 4, t: 5, mem: [1, 3], fresh: true },
  growx: { toks: ['g1', 'gh', 'gmin', 'gx', 'gm', 'sz', 'e1', 'a2'], q: 3, t: 5, mem: [1, 4], fresh: true },
  grow0: { toks: ['g0', 'g1', 'g2', 'sz', 'cg', 'a1', 'a2'], q: 4, t: 5, mem: [0, 2], fresh: true },
  pages: { toks: ['g1', 'cg', 'e1', 'e2', 'el', 'ec', 'ef', 'ez', 'a2'], q: 4, t: 5, mem: [1, undefined], fresh: true },
};
const setupFor = (mem) => (m) => {
  m.memory(...mem); m.global('i32', true, I.i32(1), 'g0'); m.global('i32', true, I.i32(0), 'g1'); m.dataPassive([0x61, 0x62, 0x63, 0x64, 0x65, 0x66, 0x67]); m.dataPassive([9, 8, 7, 6, 5, 4, 3]);
  const st = m.func({ params: ['i32'], body: [I.get(0), I.i32(0x66), I.store('i32.store8', 1), I.i32(6), I.load('i32.load16_s'), acc] }); const gr = m.func({ body: [I.i32(1), I.grow(), acc] });
  const grst = m.func({ body: [I.i32(1), I.grow(), acc, I.size(), I.if('', [I.i32(12), I.i32(0x2468), I.store('i32.store')]), I.call(gr)] });
  m.table('funcref', 4, undefined, 'ft'); m.elem(I.i32(1), [gr]); const ty = m.type([], []); m.func({ body: [I.i32(1), I.gset(0), I.i32(0), I.gset(1)], name: 'reset' });
  return { reset: 'reset', globals: [{ name: 'g0', t: 'i32' }], env: { st, gr, grst, ty } };
};
const tok = (x, env) => (x[0] === 'call' ? (x[1] === 'st' ? [I.get(0), I.call(env.st)] : I.call(env[x[1]])) : x[0] === 'ind' ? [I.i32(1), I.call_indirect(env.ty)] : x);
export const meta = {
  level: 'exploration', rule: 'one execution = one program (access pair, operand shape, bulk operation, or operation sequence) from a known memory image, run to its end in chiwawa and in V8; compared: outcome, results, accumulator of everything loaded, every byte of the observed memory (all of it, and its size, in the growth families); non-trivial = distinct programs',
  bounds: (t) => [bitsBound, magBound('C05'), [`pairs: every store x every load x displacement -8..8 x static offsets x operand shapes; order: load/store/load at every displacement; shapes: ${Object.keys(ADDR).length} address x ${Object.keys(VALS).length} value shapes x every access; every access ending at the last byte`].flat(),
    `large: in a memory of ${BIGP} pages, copy, fill and init of ${MAGS.length} sizes up to 600000, at ${t === 'thorough' ? MAGS.length : FEWM.length} places and (copy) at distances of ${MAGS.length} magnitudes either way; every load and store at every address beside a power of two by every such static offset; all of memory compared`, 'bulk: memory.copy for every (d,s,n) in 13x13x11, fill 11x11x6, init 10x every in-range (s,n) of two segments, and each at the end of memory', ...Object.entries(FAM).map(([k, f]) => `${k}: every sequence of <= ${t === 'thorough' ? f.t : f.q} operations over {${f.toks.join(' ')}}, memory ${f.mem}`)],
  assumptions: ['V8 implements the WebAssembly memory semantics', 'accesses outside linear memory are the subject of C06', 'memory.grow may fail for want of host memory: only growth that must succeed (a few pages) or must fail is generated'],
};
async function plan0(tier) {
  const jobs = [];
  for (const v of variants) {
    for (const op of ['copy', 'fill', 'init']) for (let i = 0; i < 4; i++) jobs.push({ fam: 'large', op, i, v, T: tier === 'thorough' }); for (const op of [...SN, ...LN]) jobs.push({ fam: 'large', op, v });
    for (const sn of SN) jobs.push({ fam: 'pair', sn, v }); jobs.push({ fam: 'shape', v });
    for (let d = 0; d <= 12; d++) jobs.push({ fam: 'bulk', op: 'copy', d, v }); for (const op of ['fill', 'init', 'end']) jobs.push({ fam: 'bulk', op, v });
    for (const [k, f] of Object.entries(FAM)) { const D = (tier === 'thorough' ? f.t : f.q) - (v === 'tco' ? 0 : 1); for (const a of f.toks) for (const b of f.toks) jobs.push({ fam: k, v, depth: D, prefix: [a, b] }); }
  }
  return jobs;
}
export async function plan(tier) { return [...bitsPlan('C05'), ...magPlan('C05'), ...(await plan0(tier))]; }
export async function run(job) {
  if (job.bits) return bitsRun(job);
  if (job.mag) return magRun('C05', job);
  const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; const f = FAM[job.fam]; let P = [];
  const dopt = { wasm: wasmPath(job.v), setup: setupFor(f ? f.mem : [1, 2]), chunk: job.fam === 'seg' ? 20 : 400, ...(f && f.fresh ? { freshEach: true, wholeMem: true } : { win, initMem }) };
  if (job.fam === 'seg') { dopt.initMem = initMem; }
  const flush = () => { if (P.length) runBatch(P, dopt, res); P = []; };
  const take = (p) => { p.key += ':' + job.v; if (job.only && job.only !== p.key) return; P.push(p); res.nontrivial++; if (P.length >= dopt.chunk) flush(); };
  if (job.fam === 'large') { Object.assign(dopt, { chunk: 100, initMem: bigMem, win: LN.includes(job.op) ? 0 : BIGL, setup: (m) => { m.memory(BIGP, BIGP); m.dataPassive(Array.from({ length: SEGL }, (_, i) => (i * 59 + (i >> 6)) & 255)); if (LN.includes(job.op)) m.data(I.i32(0), bigMem); return {}; } }); for (const p of large(job)) take(p); flush(); return { job, ...res }; }
  if (f) {
    const rec = (p) => { if (p.length >= 2 && (p.length > 2 || job.depth >= 2)) take({ key: `${job.fam}:${p.join(' ')}`, params: ['i32', 'i32'], body: (env) => lp(p.map((x) => tok(T[x], env))), args: [[V.i32(2), V.i32(5)]] }); if (p.length < job.depth) for (const x of f.toks) rec([...p, x]); };
    rec(job.prefix);
  } else { if (job.fam === 'bulk' && job.op === 'end') { dopt.wholeMem = true; dopt.freshEach = true; } if (job.fam === 'shape') { dopt.wholeMem = true; dopt.chunk = 200; } for (const p of (job.fam === 'pair' ? pairs(job) : job.fam === 'shape' ? shapes() : bulk(job))) take(p); }
  flush(); return { job, ...res };
}
