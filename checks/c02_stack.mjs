// C02: constant / local / destination folding and register allocation are transparent:
// every well-typed straight-line sequence up to a depth computes what the stack machine
// computes.
import { bitsPlan, bitsRun, bitsBound } from '../lib/bits.mjs';
import { I } from '../lib/asm.mjs';
import { V, Host } from '../lib/host.mjs';
import { wasmPath } from '../lib/build.mjs';
import { runBatch } from '../lib/diff.mjs';
import { IX, ixForms, dests, ixBody, ixLocals, ixSetup, ixArgs, ixMem } from '../lib/between.mjs';

export const variants = ['tco', 'legacy'];
const A = { // token -> {in, out, code}
  c: { i: [], o: ['i32'], b: I.i32(7) }, C: { i: [], o: ['i64'], b: I.i64(-3) },
  g0: { i: [], o: ['i32'], b: I.get(0) }, g1: { i: [], o: ['i32'], b: I.get(1) }, G2: { i: [], o: ['i64'], b: I.get(2) },
  s0: { i: ['i32'], o: [], b: I.set(0) }, s1: { i: ['i32'], o: [], b: I.set(1) }, S2: { i: ['i64'], o: [], b: I.set(2) },
  t0: { i: ['i32'], o: ['i32'], b: I.tee(0) }, T2: { i: ['i64'], o: ['i64'], b: I.tee(2) },
  sub: { i: ['i32', 'i32'], o: ['i32'], b: I.op('i32.sub') }, lt: { i: ['i32', 'i32'], o: ['i32'], b: I.op('i32.lt_s') }, eqz: { i: ['i32'], o: ['i32'], b: I.op('i32.eqz') }, clz: { i: ['i32'], o: ['i32'], b: I.op('i32.clz') },
  SUB: { i: ['i64', 'i64'], o: ['i64'], b: I.op('i64.sub') }, EQ: { i: ['i64', 'i64'], o: ['i32'], b: I.op('i64.lt_s') }, EQZ: { i: ['i64'], o: ['i32'], b: I.op('i64.eqz') }, CTZ: { i: ['i64'], o: ['i64'], b: I.op('i64.ctz') },
  ext: { i: ['i32'], o: ['i64'], b: I.op('i64.extend_i32_s') }, wrap: { i: ['i64'], o: ['i32'], b: I.op('i32.wrap_i64') },
  gg: { i: [], o: ['i32'], b: I.gget(0) }, gs: { i: ['i32'], o: [], b: I.gset(0) }, GG: { i: [], o: ['i64'], b: I.gget(1) }, GS: { i: ['i64'], o: [], b: I.gset(1) },
  sel: { i: ['i32', 'i32', 'i32'], o: ['i32'], b: I.select() }, SEL: { i: ['i64', 'i64', 'i32'], o: ['i64'], b: I.select() },
  ld: { i: ['i32'], o: ['i32'], b: I.load('i32.load', 16) }, LD: { i: ['i32'], o: ['i64'], b: I.load('i64.load', 8) }, st: { i: ['i32', 'i32'], o: [], b: I.store('i32.store', 16) }, ST: { i: ['i32', 'i64'], o: [], b: I.store('i64.store', 24) },
  drop: { i: ['*'], o: [], b: I.drop() }, nop: { i: [], o: [], b: I.nop() }, size: { i: [], o: ['i32'], b: I.size() },
  // float tokens
  fc: { i: [], o: ['f32'], b: I.f32(1.5) }, fg: { i: [], o: ['f32'], b: I.get(3) }, fs: { i: ['f32'], o: [], b: I.set(3) }, ft: { i: ['f32'], o: ['f32'], b: I.tee(3) }, fsub: { i: ['f32', 'f32'], o: ['f32'], b: I.op('f32.sub') }, fneg: { i: ['f32'], o: ['f32'], b: I.op('f32.neg') }, flt: { i: ['f32', 'f32'], o: ['i32'], b: I.op('f32.lt') }, fsel: { i: ['f32', 'f32', 'i32'], o: ['f32'], b: I.select() }, fcv: { i: ['i32'], o: ['f32'], b: I.op('f32.convert_i32_s') }, frei: { i: ['f32'], o: ['i32'], b: I.op('i32.reinterpret_f32') }, fld: { i: ['i32'], o: ['f32'], b: I.load('f32.load', 16) }, fst: { i: ['i32', 'f32'], o: [], b: I.store('f32.store', 16) },
  dc: { i: [], o: ['f64'], b: I.f64(2.25) }, dg: { i: [], o: ['f64'], b: I.get(4) }, ds: { i: ['f64'], o: [], b: I.set(4) }, dt: { i: ['f64'], o: ['f64'], b: I.tee(4) }, dsub: { i: ['f64', 'f64'], o: ['f64'], b: I.op('f64.sub') }, dneg: { i: ['f64'], o: ['f64'], b: I.op('f64.neg') }, dlt: { i: ['f64', 'f64'], o: ['i32'], b: I.op('f64.lt') }, dsel: { i: ['f64', 'f64', 'i32'], o: ['f64'], b: I.select() }, dpro: { i: ['f32'], o: ['f64'], b: I.op('f64.promote_f32') }, drei: { i: ['f64'], o: ['i64'], b: I.op('i64.reinterpret_f64') }, dst: { i: ['i32', 'f64'], o: [], b: I.store('f64.store', 16) }, dld: { i: ['i32'], o: ['f64'], b: I.load('f64.load', 16) },
};
// each family is a sub-alphabet explored completely to its own depth
const FAM = {
  i32core: { toks: ['c', 'g0', 'g1', 's0', 't0', 'sub', 'eqz', 'drop', 'sel'], q: 7, t: 8 },
  i32mem: { toks: ['c', 'g0', 's0', 't0', 'sub', 'ld', 'st', 'gg', 'gs', 'clz'], q: 6, t: 7 },
  mixed: { toks: ['c', 'g0', 's0', 't0', 'sub', 'lt', 'C', 'G2', 'S2', 'T2', 'SUB', 'EQ', 'EQZ', 'ext', 'wrap', 'drop'], q: 5, t: 6 },
  i64core: { toks: ['c', 'C', 'G2', 'S2', 'T2', 'SUB', 'CTZ', 'SEL', 'GG', 'GS', 'drop'], q: 6, t: 7 },
  i64mem: { toks: ['g0', 'C', 'G2', 'S2', 'SUB', 'LD', 'ST', 'ext', 'wrap', 'EQ', 'size', 'nop', 's1'], q: 5, t: 6 },
  f32: { toks: ['c', 'g0', 'fc', 'fg', 'fs', 'ft', 'fsub', 'fneg', 'flt', 'fsel', 'fcv', 'frei', 'fld', 'fst', 'drop'], q: 5, t: 6 },
  f64: { toks: ['c', 'g0', 'dc', 'dg', 'ds', 'dt', 'dsub', 'dneg', 'dlt', 'dsel', 'dpro', 'fc', 'drei', 'dst', 'dld', 'drop'], q: 5, t: 6 },
};

// ---- every instruction, every source of every operand, every use of the result, between values of every type
function runIx(job, res) {
  let buf = []; const flush = () => { if (buf.length) runBatch(buf, { wasm: wasmPath(job.v), win: 520, initMem: ixMem, setup: ixSetup, host: () => new Host() }, res); buf = []; };
  const x = IX[job.ix]; for (const srcs of ixForms(x, job.tier === 'thorough')) for (const dst of dests(x)) for (const order of [0, 1]) {
    const key = `between:${job.ix}:${srcs}:${dst}:${order}:${job.v}`; if (job.only && job.only !== key) continue;
    res.nontrivial++; buf.push({ key, params: ['i32', 'i64', 'f32', 'f64', 'i32'], locals: ixLocals(x, srcs, dst, order), body: (e) => ixBody(x, srcs, dst, order, e).body, args: [ixArgs] }); if (buf.length >= 200) flush();
  }
  flush();
}
export const meta = {
  level: 'exploration', rule: 'one execution = one well-typed instruction sequence (no two the same) run to its end in chiwawa and in V8 on two argument vectors; compared: every value left on the stack, all locals, the memory window and the globals; distinct non-trivial = distinct sequences',
  bounds: (t) => bitsBound + '; ' + Object.entries(FAM).map(([k, f]) => `${k}: every well-typed sequence of length 1..${t === 'thorough' ? f.t : f.q} over {${f.toks.join(' ')}}, at most 4 values on the stack`).join('; ') + `; between: all ${Object.keys(IX).length} instructions x every source of every operand (register, local, constant, global, memory) x every use of the result (left, set, tee, dropped, stored, argument, branched with, condition) between values of every type, in two orders`,
  assumptions: ['V8 implements the WebAssembly stack semantics'],
};
const MAXST = 4;
function step(stack, tok) {
  const d = A[tok]; const st = stack.slice();
  for (let k = d.i.length - 1; k >= 0; k--) { if (!st.length) return null; const x = st.pop(); if (d.i[k] !== '*' && x !== d.i[k]) return null; }
  st.push(...d.o); return st.length > MAXST ? null : st;
}
function* seqs(toks, depth, prefix, stack) {
  if (prefix.length) yield [prefix, stack];
  if (prefix.length === depth) return;
  for (const t of toks) { const s = step(stack, t); if (s) yield* seqs(toks, depth, [...prefix, t], s); }
}
export async function plan(tier) {
  const jobs = bitsPlan('C02');
  for (const [k, f] of Object.entries(FAM)) {
    const D = tier === 'thorough' ? f.t : f.q;
    // shard on well-typed prefixes of length 3
    for (const v of variants) { const depth = v === 'tco' ? D : D - 1; jobs.push({ fam: k, depth: 2, prefix: [], v }); for (const [p, s] of seqs(f.toks, 3, [], [])) if (p.length === 3) jobs.push({ fam: k, depth, prefix: p, stack: s, v }); }
  }
  for (const ix of Object.keys(IX)) for (const v of variants) jobs.push({ ix, v, tier });
  return jobs;
}
const LOC = ['i32', 'i32', 'i64', 'f32', 'f64'];
export async function run(job) {
  if (job.bits) return bitsRun(job);
  if (job.ix) { const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; runIx(job, res); return { job, ...res }; }
  const f = FAM[job.fam]; const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; let buf = [];
  const opt = {
    wasm: wasmPath(job.v), win: 104, initMem: Uint8Array.from({ length: 104 }, (_, i) => i * 5 + 1),
    setup: (m) => { m.memory(1); m.global('i32', true, I.i32(11), 'g0'); m.global('i64', true, I.i64(-12), 'g1'); m.func({ body: [I.i32(11), I.gset(0), I.i64(-12), I.gset(1)], name: 'reset' }); return { reset: 'reset', globals: [{ name: 'g0', t: 'i32' }, { name: 'g1', t: 'i64' }] }; },
  };
  const flush = () => { if (buf.length) runBatch(buf, opt, res); buf = []; };
  for (const [p, stack] of seqs(f.toks, job.depth, job.prefix, job.stack ?? [])) {
    const key = `${job.fam}:${p.join(' ')}`; if (job.only && job.only !== key + ':' + job.v) continue;
    // observe the stack as results; every local through the tail of the memory window
    const body = [p.map((t) => A[t].b), [0, 1, 2, 3, 4].map((i) => [I.i32(64 + 8 * i), I.get(i), I.store(LOC[i] + '.store', 0)])];
    res.nontrivial++; buf.push({ key: key + ':' + job.v, params: LOC, results: stack, body, args: [[V.i32(5), V.i32(0), V.i64(1n << 40n), V.f32(0x40490fdb), V.f64(0xc005bf0a8b145769n)], [V.i32(0), V.i32(20), V.i64(-3), V.f32(0xbf800000), V.f64(0x3fd0000000000000n)]] });
    if (buf.length >= 400) flush();
  }
  flush();
  return { job, ...res };
}
