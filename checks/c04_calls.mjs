// C04: function calls. Every signature up to a size, every call-site shape, every table
// index x type, recursion, and every body over an alphabet of call tokens: a call passes
// its arguments, yields the callee's results in order, and disturbs nothing else.
import { bitsPlan, bitsRun, bitsBound } from '../lib/bits.mjs';
import { I } from '../lib/asm.mjs';
import { V, Host } from '../lib/host.mjs';
import { OUTS, SGFORMS, sgPrograms, sgSetup, ixMem } from '../lib/between.mjs';
import { magPlan, magBound, magRun } from '../lib/mags.mjs';
import { wasmPath } from '../lib/build.mjs';
import { runBatch } from '../lib/diff.mjs';
import { bodies, shards, stateAfter } from '../lib/gen.mjs';

export const variants = ['tco', 'legacy'];
const TY = ['i32', 'i64', 'f32', 'f64']; const CH = { i32: 'w', i64: 'l', f32: 's', f64: 'd' };
const vecs = (n) => { let all = [[]], cur = [[]]; for (let k = 0; k < n; k++) { cur = cur.flatMap((v) => TY.map((t) => [...v, t])); all = all.concat(cur); } return all; };
const bits = { i32: (k) => 0x1000n + BigInt(k), i64: (k) => 0x700000000n + BigInt(k), f32: (k) => 0x3f800000n + BigInt(k), f64: (k) => 0x4000000000000000n + BigInt(k) };
const val = (t, k) => V[t](bits[t](k)); const cst = (t, k) => I.cst(t, bits[t](k)); const nm = (v) => v.map((t) => CH[t]).join('') || '-';
// results of the callee: the last parameters of the type, then (zero) locals, then constants
function calleeBody(ps, rs, style) {
  const left = ps.map((t, i) => [t, i]).reverse(); const out = []; const loc = { i32: 0, i64: 1, f32: 2, f64: 3 };
  rs.forEach((t, j) => { const k = left.findIndex((x) => x[0] === t); if (k >= 0 && style !== 'k') { out.push(I.get(left[k][1])); left.splice(k, 1); } else if (style === 'z') out.push(I.get(ps.length + loc[t])); else out.push(cst(t, 50 + j)); });
  // dirty the frame before leaving, through an early return over junk
  if (style === 'z') return [I.i32(9), I.f64(1), ...out, TY.map((t, i) => [cst(t, 90 + i), I.set(ps.length + i)]), I.return()];
  return out;
}
function sigPrograms(ps, rs, key) {
  const P = []; const ty = (env) => null;
  for (const style of ['p', 'z', 'k']) for (const site of ['d', 'i', 'dd']) for (const src of ['c', 'l']) for (const junk of [0, 1]) {
    if (junk && rs.length > 5) continue;
    const h = [{ params: ps, results: rs, locals: style === 'z' ? TY : [], body: calleeBody(ps, rs, style) }];
    const args = (src === 'c') ? ps.map((t, i) => cst(t, i)) : ps.map((t, i) => I.get(i));
    const J = junk ? ['i64', 'f32'] : [];
    P.push({ key: `${key}:${nm(ps)}>${nm(rs)}:${style}${site}${src}${junk}`, params: src === 'l' ? ps : [], results: [...J, ...rs], helpers: h, sig: [ps, rs],
      // dd: call it twice, the first result vector dropped
      body: (e) => [J.map((t, i) => cst(t, 70 + i)), site === 'dd' ? [args, I.call(e.f[0]), rs.map(() => I.drop())] : [], args, site === 'i' ? [I.i32(e.t[0]), I.call_indirect(e.ty)] : I.call(e.f[0])],
      args: [src === 'l' ? ps.map((t, i) => val(t, 20 + i)) : []] });
  }
  return P;
}
// ---- token family
const HELP = [
  { n: 'inc', p: ['i32'], r: ['i32'], b: [I.get(0), I.i32(1), I.op('i32.add')] },
  { n: 'two', p: [], r: ['i32', 'i32'], b: [I.i32(11), I.i32(13)] },
  { n: 'swp', p: ['i32', 'i64'], r: ['i64', 'i32'], b: [I.get(1), I.get(0)] },
  { n: 'eff', p: ['i32'], r: [], b: [I.gget(0), I.i32(31), I.op('i32.mul'), I.get(0), I.op('i32.add'), I.gset(0)] },
  { n: 'rec', p: ['i32'], r: ['i32'], b: (f) => [I.get(0), I.i32(7), I.op('i32.and'), I.op('i32.eqz'), I.if('i32', [I.get(0)], [I.get(0), I.get(0), I.i32(7), I.op('i32.and'), I.i32(1), I.op('i32.sub'), I.call(f.rec), I.op('i32.add')])] },
  { n: 'dirty', p: ['i32'], r: ['i32'], l: ['i32', 'i32', 'i64', 'f64'], b: [I.get(1), I.get(2), I.op('i32.add'), I.get(3), I.op('i32.wrap_i64'), I.op('i32.add'), I.get(0), I.op('i32.add'), I.i32(77), I.set(1), I.i32(88), I.set(2), I.i64(99), I.set(3), I.f64(5), I.set(4)] },
  { n: 'early', p: ['i32'], r: ['i32'], b: [I.i32(5), I.i64(6), I.block('i32', [I.i32(3), I.loop('', [I.get(0), I.i32(1), I.op('i32.and'), I.if('', [I.get(0), I.i32(100), I.op('i32.add'), I.return()])])]), I.return()] },
  { n: 'loopc', p: ['i32'], r: ['i32'], l: ['i32', 'i32'], b: (f) => [I.i32(3), I.set(1), I.loop('', [I.get(2), I.get(0), I.call(f.inc), I.get(1), I.op('i32.mul'), I.op('i32.add'), I.set(2), I.get(1), I.i32(1), I.op('i32.sub'), I.tee(1), I.br_if(0)]), I.get(2)] },
  { n: 'glob', p: [], r: ['i32'], b: [I.gget(0)] },
  { n: 'thr', p: ['i32', 'i32', 'i32'], r: ['i32'], b: [I.get(0), I.i32(3), I.op('i32.mul'), I.get(1), I.op('i32.add'), I.i32(3), I.op('i32.mul'), I.get(2), I.op('i32.add')] },
];
const A = { k: { i: [], o: ['i32'], b: I.i32(4), pos: (n) => I.i32(100 + n) }, K: { i: [], o: ['i64'], b: I.i64(-3) }, x: { i: [], o: ['i32'], b: I.get(0) }, y: { i: [], o: ['i32'], b: I.get(1) }, add: { i: ['i32', 'i32'], o: ['i32'], b: I.op('i32.sub') },
  wrap: { i: ['i64'], o: ['i32'], b: I.op('i32.wrap_i64') }, ext: { i: ['i32'], o: ['i64'], b: I.op('i64.extend_i32_s') }, drop: { i: ['*'], o: [], b: I.drop() }, sx: { i: ['i32'], o: [], b: I.set(0) }, ty: { i: ['i32'], o: ['i32'], b: I.tee(1) },
  else: { c: 'else', b: [5] }, end: { c: 'end', b: [0xb] }, ret: { c: 'return', b: I.return() }, br0: { c: 'br', d: 0, b: I.br(0) }, rbrif0: { c: 'br_if', d: 0, pre: ['i32'], b: I.br_if(0) },
  'block:i': { c: 'block', p: [], r: ['i32'], b: [2, 0x7f] }, 'block:v': { c: 'block', p: [], r: [], b: [2, 0x40] }, 'if:i': { c: 'if', p: [], r: ['i32'], pre: ['i32'], b: [4, 0x7f] }, 'loop:v': { c: 'loop', p: [], r: [], b: [3, 0x40] }, sel: { i: ['i32', 'i32', 'i32'], o: ['i32'], b: I.select() } };
for (const h of HELP) { A[h.n] = { i: h.p, o: h.r, call: h.n }; A['@' + h.n] = { i: h.p, o: h.r, call: h.n, ind: true }; }
// an indirect call whose slot is a run-time value, among functions of one type
A['@?'] = { i: ['i32', 'i32'], o: ['i32'], dyn: true };
const FAM = {
  seq: { res: ['i32'], toks: ['k', 'x', 'y', 'add', 'sx', 'ty', 'inc', 'rec', 'dirty', 'eff', 'glob', 'drop'], q: 6, t: 6 },
  multi: { res: ['i32'], toks: ['k', 'x', 'K', 'two', 'swp', 'wrap', 'ext', 'add', 'thr', '@swp', '@two', 'drop'], q: 7, t: 7 },
  ind: { res: ['i32'], toks: ['k', 'x', '@inc', '@rec', '@eff', '@glob', '@?', 'add', 'sx', 'dirty'], q: 6, t: 7 },
  blk: { res: ['i32'], toks: ['k', 'x', 'block:i', 'block:v', 'if:i', 'else', 'end', 'br0', 'rbrif0', 'inc', 'early', 'eff', 'add', 'ret'], q: 7, t: 8 },
  nest: { res: ['i32', 'i32'], toks: ['k', 'x', 'two', 'loopc', 'early', 'thr', 'block:v', 'end', 'eff', 'sel', 'dirty'], q: 6, t: 7 },
};
const DYN = ['inc', 'rec', 'dirty', 'early'];
function setup(m) {
  m.memory(1); m.global('i32', true, I.i32(1), 'g0'); const f = {}; for (const h of HELP) f[h.n] = m.func({ params: h.p, results: h.r, locals: h.l ?? [], body: [] });
  for (const h of HELP) m.setBody(f[h.n], typeof h.b === 'function' ? h.b(f) : h.b);
  m.table('funcref', HELP.length + 1, undefined, 'hp'); m.elem(I.i32(1), [...DYN, ...HELP.map((h) => h.n).filter((n) => !DYN.includes(n))].map((n) => f[n]));
  const slot = {}; [...DYN, ...HELP.map((h) => h.n).filter((n) => !DYN.includes(n))].forEach((n, i) => { slot[n] = i + 1; });
  m.func({ body: [I.i32(1), I.gset(0)], name: 'reset' });
  const ty = {}; for (const h of HELP) ty[h.n] = m.type(h.p, h.r);
  return { reset: 'reset', globals: [{ name: 'g0', t: 'i32' }], env: { fn: f, slot, ty } };
}
const emit = (d, n, env) => (d.pos ? d.pos(n) : d.dyn ? [I.i32(3), I.op('i32.and'), I.i32(1), I.op('i32.add'), I.call_indirect(env.ty.inc)] : d.call ? (d.ind ? [I.i32(env.slot[d.call]), I.call_indirect(env.ty[d.call])] : I.call(env.fn[d.call])) : d.b);
// ---- recursion family: every n of a range
const REC = {
  sum: { t: ['i32'], r: ['i32'], b: (e) => [I.get(0), I.op('i32.eqz'), I.if('i32', [I.i32(0)], [I.get(0), I.get(0), I.i32(1), I.op('i32.sub'), I.call(e.f[0]), I.op('i32.add')])] },
  acc: { t: ['i32', 'i64'], r: ['i64'], b: (e) => [I.get(0), I.op('i32.eqz'), I.if('', [I.get(1), I.return()]), I.get(0), I.i32(1), I.op('i32.sub'), I.get(1), I.get(0), I.op('i64.extend_i32_s'), I.op('i64.add'), I.call(e.f[0])] },
  par: { t: ['i32'], r: ['i32'], n: 2, b: (e) => [I.get(0), I.op('i32.eqz'), I.if('i32', [I.i32(1)], [I.get(0), I.i32(1), I.op('i32.sub'), I.i32(e.t[1]), I.call_indirect(e.ty)])], b2: (e) => [I.get(0), I.op('i32.eqz'), I.if('i32', [I.i32(0)], [I.get(0), I.i32(1), I.op('i32.sub'), I.call(e.f[0])])] },
  fib: { t: ['i32'], r: ['i32'], max: 15, b: (e) => [I.get(0), I.i32(2), I.op('i32.lt_s'), I.if('i32', [I.get(0)], [I.get(0), I.i32(1), I.op('i32.sub'), I.call(e.f[0]), I.get(0), I.i32(2), I.op('i32.sub'), I.call(e.f[0]), I.op('i32.add')])] },
  fl: { t: ['i32', 'f64', 'f32'], r: ['f32', 'f64'], b: (e) => [I.get(0), I.op('i32.eqz'), I.if('', [I.get(2), I.get(1), I.return()]), I.get(0), I.i32(1), I.op('i32.sub'), I.get(1), I.f64(1.5), I.op('f64.add'), I.get(2), I.f32(0.5), I.op('f32.sub'), I.call(e.f[0])] },
};
export const meta = {
  level: 'exploration', rule: 'one execution = one caller (signature x call-site shape, call-token body, recursion depth, or table index x type) run to its end in chiwawa and in V8 from the same state; compared: outcome, every result, the side-effect accumulator; non-trivial = distinct callers',
  bounds: (t) => [bitsBound, magBound('C04'), `signatures: every parameter list of <= 2 and result list of <= ${t === 'thorough' ? 3 : 2} of {i32,i64,f32,f64,funcref} of a function x every way out of it (end, return, br, br_if, br_table to its outermost label, return from an inner loop) x its values computed, from parameters, constant, or two of these in turn x with or without values left beneath x called directly or through a table, between values of all five types`, [`sig: every parameter list of <= ${t === 'thorough' ? 4 : 3} and result list of <= ${t === 'thorough' ? 3 : 2} of {i32,i64,f32,f64} x callee style (permute params / zero locals + early return over junk / constants) x call site (direct, indirect, called twice) x argument source (constants, locals) x junk beneath`].flat(),
    'wide: 0..40 parameters, 0..12 results, 0..400 locals', ...Object.entries(FAM).map(([k, f]) => `${k}: every valid body of <= ${t === 'thorough' ? f.t : f.q} tokens over {${f.toks.join(' ')}}`), `recursion: ${Object.keys(REC).join(', ')} at every depth 0..${t === 'thorough' ? 1500 : 400}`, 'tab: every index in [-2, 12] and boundary values x 6 types x 2 tables holding functions of every type, gaps null'],
  assumptions: ['V8 implements the WebAssembly call semantics', 'direct calls of imported functions are covered by the WASI checks'],
};
async function plan0(tier) {
  const jobs = []; const T = tier === 'thorough';
  const ps = vecs(T ? 4 : 3), rs = vecs(T ? 3 : 2);
  for (const v of variants) {
    const R = v === 'tco' || T ? rs : vecs(1);
    for (let i = 0; i < ps.length; i += 4) for (let j = 0; j < R.length; j += 25) jobs.push({ fam: 'sig', v, ps: ps.slice(i, i + 4), rs: R.slice(j, j + 25) });
    jobs.push({ fam: 'wide', v }); jobs.push({ fam: 'tab', v });
    for (const k of Object.keys(REC)) jobs.push({ fam: 'rec', v, k, max: T ? 1500 : 400 });
    for (const [k, f] of Object.entries(FAM)) { const D = (T ? f.t : f.q) - (v === 'tco' ? 0 : 1); jobs.push({ fam: k, v, depth: 1, prefix: [] }); for (const p of shards(A, f.toks, 2, D, { results: f.res, nest: 2, maxStack: 4 })) jobs.push({ fam: k, v, depth: D, prefix: p }); }
  }
  return jobs;
}
export async function plan(tier) { return [...bitsPlan('C04'), ...OUTS.filter((o) => o.startsWith('fn')).flatMap((sg) => SGFORMS.flatMap((form) => variants.map((v) => ({ sg, form, v, T: tier === 'thorough' })))), ...magPlan('C04'), ...(await plan0(tier))]; }
export async function run(job) {
  if (job.bits) return bitsRun(job);
  if (job.mag) return magRun('C04', job);
  const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; const w = wasmPath(job.v); let P = [];
  if (job.sg) { const go = () => { if (P.length) runBatch(P, { wasm: w, win: 520, initMem: ixMem, chunk: 200, host: () => new Host(), setup: sgSetup }, res); P = []; }; for (const p of sgPrograms(job.sg, job.form, job.T)) { p.key += ':' + job.v; if (job.only && job.only !== p.key) continue; res.nontrivial++; P.push(p); if (P.length >= 200) go(); } go(); return { job, ...res }; }
  const take = (p) => { p.key += ':' + job.v; if (!job.only || job.only === p.key) { P.push(p); res.nontrivial++; } };
  if (job.fam === 'sig' || job.fam === 'wide') {
    const base = { wasm: w, table: true, chunk: 60 };
    const go = (list) => { P = []; list.forEach(take); if (P.length) runBatch(P, { ...base, setup: (m) => ({ env: { ty: m.type(...P[0].sig) } }) }, res); };
    if (job.fam === 'sig') { for (const ps of job.ps) for (const rs of job.rs) go(sigPrograms(ps, rs, 'sig')); } else {
      const many = (n, o) => Array.from({ length: n }, (_, i) => TY[(i + o) % 4]);
      for (const np of [0, 1, 2, 5, 8, 9, 16, 17, 40]) for (let nr = 0; nr <= 12; nr++) go(sigPrograms(many(np, 1), many(nr, 2), 'wide'));
      for (const nl of [1, 7, 8, 9, 127, 128, 129, 255, 256, 257, 400]) for (const o of [0, 1, 2, 3]) {
        const ls = many(nl, o), last = ls[nl - 1]; P = []; take({ key: `locals:${nl}:${o}`, params: ['i32'], results: [last, 'i32'], locals: ls, body: [cst(last, 5), I.set(nl), ls.slice(0, nl - 1).map((t, i) => [cst(t, i), I.set(1 + i)]), I.get(nl), I.get(0)], args: [[V.i32(3)]] });
        if (P.length) runBatch(P, base, res);
      }
    }
  } else if (job.fam === 'rec') {
    const R = REC[job.k]; const helpers = [{ params: R.t, results: R.r, body: R.b }]; if (R.b2) helpers.push({ params: R.t, results: R.r, body: R.b2 });
    const max = R.max ?? job.max; for (let n = 0; n <= max; n++) take({ key: `rec:${job.k}:${n}`, results: R.r, helpers, body: (e) => [I.i32(n), R.t.slice(1).map((t, i) => cst(t, i)), I.call(e.f[0])], sig: [R.t, R.r] });
    if (P.length) runBatch(P, { wasm: w, table: true, chunk: 100, setup: (m) => ({ env: { ty: m.type(R.t, R.r) } }) }, res);
  } else if (job.fam === 'tab') {
    const sigs = [[[], []], [[], ['i32']], [['i32'], ['i32']], [['i64'], ['i32']], [['i32'], ['i64']], [['f64', 'i32'], ['i32', 'f64']]];
    const idxs = [...Array.from({ length: 14 }, (_, i) => i - 1), 0x7fffffff, -0x80000000, 0x10001, 0x100];
    for (const tb of [0, 1]) sigs.forEach(([ps, rs], si) => { for (const ix of idxs) for (const src of ['c', 'l']) take({ key: `tab:${tb}:${nm(ps)}>${nm(rs)}:${ix}:${src}`, params: ['i32'], results: rs, body: (e) => [ps.map((t, i) => cst(t, 30 + i)), src === 'c' ? I.i32(ix) : I.get(0), I.call_indirect(e.tys[si], tb)], args: [[V.i32(ix)]] }); });
    const su = (m) => {
      m.memory(1); m.global('i32', true, I.i32(1), 'g0'); const fs = sigs.map(([ps, rs], i) => m.func({ params: ps, results: rs, body: [I.gget(0), I.i32(7 + i), I.op('i32.mul'), I.gset(0), rs.map((t, j) => { const k = ps.indexOf(t); return k >= 0 ? I.get(k) : cst(t, 10 * i + j); })] }));
      m.table('funcref', 10, undefined, 'a'); m.table('funcref', 12, undefined, 'b'); m.elem(I.i32(1), fs); m.elemRaw([2, 1, ...I.i32(3), 0x0b, 0, fs.length, ...fs.slice().reverse()]);
      m.func({ body: [I.i32(1), I.gset(0)], name: 'reset' });
      return { reset: 'reset', globals: [{ name: 'g0', t: 'i32' }], env: { tys: sigs.map(([ps, rs]) => m.type(ps, rs)) } };
    };
    if (P.length) runBatch(P, { wasm: w, chunk: 30, setup: su }, res);
  } else {
    const f = FAM[job.fam]; const opt = { results: f.res, nest: 2, maxStack: 4 }; const dopt = { wasm: w, chunk: 400, setup }; const args = [[V.i32(2), V.i32(7)], [V.i32(0xffffffff), V.i32(0)]];
    const flush = () => { if (P.length) runBatch(P, dopt, res); P = []; };
    for (const p of bodies(A, f.toks, job.depth, opt, job.prefix, stateAfter(A, job.prefix, opt))) {
      if (job.prefix.length && p.length < 2) continue; if (!p.some((t) => A[t].call || A[t].dyn)) continue;
      take({ key: `${job.fam}:${p.join(' ')}`, params: ['i32', 'i32'], results: f.res, body: (env) => p.map((t, i) => emit(A[t], i, env)), args });
      if (P.length >= 400) flush();
    }
    flush();
  }
  return { job, ...res };
}
