// C03: structured control flow. Every valid body over the control alphabets, up to a
// depth, takes the same path and delivers the same values as under V8.
import { bitsPlan, bitsRun, bitsBound } from '../lib/bits.mjs';
import { I, Mod } from '../lib/asm.mjs';
import { V, Host } from '../lib/host.mjs';
import { OUTS, SGFORMS, sgPrograms, sgSetup, ixMem } from '../lib/between.mjs';
import { magPlan, magBound, magRun } from '../lib/mags.mjs';
import { wasmPath } from '../lib/build.mjs';
import { runBatch } from '../lib/diff.mjs';
import { bodies, shards, stateAfter } from '../lib/gen.mjs';

export const variants = ['tco', 'legacy'];
// locals: 0 x (decision bits), 1 fuel, 2 i64 constant, 3 f64; global 0 = event accumulator
const bit = [I.get(0), I.i32(1), I.op('i32.and'), I.get(0), I.i32(1), I.op('i32.shr_u'), I.set(0)].flat();
const idx = [I.get(0), I.i32(3), I.op('i32.and'), I.get(0), I.i32(2), I.op('i32.shr_u'), I.set(0)].flat();
const ev = (k) => [I.gget(0), I.i32(31), I.op('i32.mul'), I.i32(k), I.op('i32.add'), I.gset(0)].flat();
const evs = (t) => ({ i32: [I.gget(0), I.i32(31), I.op('i32.mul'), I.op('i32.add'), I.gset(0)], i64: [I.op('i32.wrap_i64'), I.gget(0), I.i32(31), I.op('i32.mul'), I.op('i32.add'), I.gset(0)], f64: [I.op('i32.trunc_f64_s'), I.gget(0), I.i32(31), I.op('i32.mul'), I.op('i32.add'), I.gset(0)], f32: [I.op('i32.trunc_f32_s'), I.gget(0), I.i32(31), I.op('i32.mul'), I.op('i32.add'), I.gset(0)] })[t].flat();
// out of fuel: leave the function with constants (a trap would cost a new instance)
const dflt = (ts) => ts.flatMap((t) => ({ i32: I.i32(-1), i64: I.i64(-2), f64: I.f64(-3) })[t]);
const fuel = (res) => [I.get(1), I.op('i32.eqz'), I.if('', [...dflt(res), ...I.return()]), I.get(1), I.i32(1), I.op('i32.sub'), I.set(1)].flat();
const BT = { v: [[], []], i: [[], ['i32']], l: [[], ['i64']], d: [[], ['f64']], il: [[], ['i32', 'i64']], li: [[], ['i64', 'i32']], ii: [[], ['i32', 'i32']], i_i: [['i32'], ['i32']], l_i: [['i64'], ['i32']], il_li: [['i32', 'i64'], ['i64', 'i32']], ii_i: [['i32', 'i32'], ['i32']], i_ii: [['i32'], ['i32', 'i32']], i_v: [['i32'], []], id: [[], ['i32', 'f64']], di_id: [['f64', 'i32'], ['i32', 'f64']], lil: [[], ['i64', 'i32', 'i64']] };
// block type encoding needs type indices: the driver module declares them in this order first
const BTK = Object.keys(BT);
const declare = (m) => { for (const k of BTK) m.type(...BT[k]); };
const btOf = (k) => ({ idx: BTK.indexOf(k) });
function ctl(kind, k) { const [p, r] = BT[k]; const open = (op) => { const x = kind === 'block' ? I.block(mkbt(k), []) : kind === 'loop' ? I.loop(mkbt(k), []) : I.if(mkbt(k), []); return x.slice(0, -1); }; const b = open(); return { c: kind, p, r, b: kind === 'if' ? [...bit, ...b] : b, loop: kind === 'loop' }; }
function mkbt(k) { const [p, r] = BT[k]; if (!p.length && !r.length) return ''; if (!p.length && r.length === 1) return r[0]; return btOf(k); }
const A = { else: { c: 'else', b: [5] }, end: { c: 'end', b: [0xb] }, ret: { c: 'return', b: I.return() }, trap: { c: 'unreachable', b: I.unreachable() }, m: { i: [], o: [], b: null, ev: true } };
for (const k of BTK) { A['block:' + k] = ctl('block', k); A['loop:' + k] = ctl('loop', k); A['if:' + k] = ctl('if', k); }
for (let d = 0; d < 4; d++) { A['br' + d] = { c: 'br', d, b: I.br(d) }; A['brif' + d] = { c: 'br_if', d, b: [...bit, ...I.br_if(d)] }; }
for (const [n, ds, d] of [['tab0', [], 0], ['tab01', [0], 1], ['tab10', [1], 0], ['tab012', [0, 1], 2], ['tab210', [2, 1], 0], ['tab121', [1, 2], 1], ['tab1', [], 1]]) A[n] = { c: 'br_table', ds, d, b: [...idx, ...I.br_table(ds, d)] };
for (const [n, t, b] of [['k', 'i32', (n) => I.i32(100 + n)], ['K', 'i64', (n) => I.i64(200 + n)], ['D', 'f64', (n) => I.f64(300 + n)]]) A[n] = { i: [], o: [t], b, pos: true };
A.gx = { i: [], o: ['i32'], b: I.get(0) }; A.g1 = { i: [], o: ['i32'], b: I.get(1) }; A.G = { i: [], o: ['i64'], b: I.get(2) };
A.e = { i: ['i32'], o: [], b: evs('i32') }; A.E = { i: ['i64'], o: [], b: evs('i64') }; A.F = { i: ['f64'], o: [], b: evs('f64') };
A.add = { i: ['i32', 'i32'], o: ['i32'], b: I.op('i32.sub') }; A.drop = { i: ['*'], o: [], b: I.drop() }; A.sx = { i: ['i32'], o: [], b: I.set(0) }; A.wrap = { i: ['i64'], o: ['i32'], b: I.op('i32.wrap_i64') }; A.ext = { i: ['i32'], o: ['i64'], b: I.op('i64.extend_i32_u') };
// raw conditions: a comparison / a local / a constant directly before the branch
A['rbrif0'] = { c: 'br_if', d: 0, b: I.br_if(0), raw: true }; A['rif:v'] = { c: 'if', p: [], r: [], b: I.if('', []).slice(0, -1), raw: true };
const RAW = (d) => d.raw;
export { A as A_ };
export const FAM = {
  void: { res: [], toks: ['block:v', 'loop:v', 'if:v', 'else', 'end', 'br0', 'br1', 'brif0', 'brif1', 'm', 'ret'], q: 7, t: 9, nest: 3, bits: 4 },
  deep: { res: [], toks: ['block:v', 'loop:v', 'end', 'br2', 'brif0', 'brif2', 'm'], q: 9, t: 11, nest: 4, bits: 4 },
  val: { res: ['i32'], toks: ['block:i', 'loop:i', 'if:i', 'else', 'end', 'br0', 'br1', 'brif0', 'brif1', 'k', 'drop', 'add', 'ret'], q: 7, t: 8, nest: 3, bits: 3 },
  val2: { res: ['i32'], toks: ['block:i', 'block:l', 'loop:v', 'if:l', 'else', 'end', 'br0', 'brif1', 'k', 'K', 'wrap', 'e', 'add'], q: 7, t: 8, nest: 3, bits: 3 },
  multi: { res: ['i64', 'i32'], toks: ['block:li', 'block:il_li', 'loop:il_li', 'if:il_li', 'else', 'end', 'br0', 'br1', 'brif0', 'k', 'K', 'drop'], q: 7, t: 8, nest: 3, bits: 3 },
  multi2: { res: ['i32', 'i32'], toks: ['block:ii', 'block:i_ii', 'loop:i_i', 'loop:i_ii', 'if:ii_i', 'else', 'end', 'br0', 'brif0', 'brif1', 'k', 'add'], q: 7, t: 8, nest: 3, bits: 3 },
  multi3: { res: ['i32', 'f64'], toks: ['block:id', 'block:di_id', 'loop:di_id', 'end', 'br0', 'brif0', 'brif1', 'k', 'D', 'F', 'ret'], q: 7, t: 8, nest: 3, bits: 3 },
  loopp: { res: ['i32'], toks: ['loop:i_i', 'block:i_i', 'loop:l_i', 'end', 'brif0', 'brif1', 'br0', 'k', 'K', 'gx', 'add', 'ext'], q: 7, t: 8, nest: 3, bits: 4 },
  tab: { res: [], toks: ['block:v', 'loop:v', 'end', 'tab0', 'tab01', 'tab10', 'tab012', 'tab121', 'm', 'ret'], q: 7, t: 9, nest: 3, bits: 6 },
  tabv: { res: ['i32'], toks: ['block:i', 'loop:i_i', 'block:i_i', 'end', 'tab01', 'tab10', 'tab012', 'k', 'add', 'e'], q: 7, t: 9, nest: 3, bits: 4 },
  cond: { res: [], toks: ['block:v', 'rif:v', 'end', 'else', 'rbrif0', 'gx', 'g1', 'k', 'm', 'add', 'sx'], q: 7, t: 8, nest: 3, bits: 2, cond: true },
  trap: { res: ['i32'], toks: ['block:i', 'if:v', 'if:i', 'else', 'end', 'trap', 'k', 'e', 'm', 'brif0', 'ret'], q: 7, t: 8, nest: 3, bits: 3 },
};
export const meta = {
  level: 'exploration', rule: 'one execution = one valid function body on one vector of branch decisions, run to its end in chiwawa and in V8; compared: outcome (value/trap), results and the accumulated event trace; distinct non-trivial = distinct bodies that contain at least one branch',
  bounds: (t) => [bitsBound, magBound('C03'), `signatures: every parameter list of <= 2 and result list of <= ${t === 'thorough' ? 3 : 2} of {i32,i64,f32,f64,funcref} of a block, if or loop x every way out of it (end, br, br_if taken and not, br_table, a branch from an inner block, either arm, a second iteration) x its values computed, in locals, constant, or two of these in turn x with or without values left beneath, between values of all five types`, Object.entries(FAM).map(([k, f]) => `${k}: every valid body of up to ${t === 'thorough' ? f.t : f.q} tokens over {${f.toks.join(' ')}}, nesting <= ${f.nest}, all ${1 << f.bits} decision vectors of ${f.bits} bits`).join('; ')].flat(),
  assumptions: ['V8 implements the WebAssembly control semantics', 'loops run at most 4 iterations in total (fuel), then return'],
};
// raw conditions take an i32 from the stack: give gen the extra pop
for (const k of ['rbrif0', 'rif:v']) A[k].pre = ['i32'];
async function plan0(tier) {
  const jobs = [];
  for (const [k, f] of Object.entries(FAM)) {
    const D = tier === 'thorough' ? f.t : f.q;
    for (const v of variants) {
      const depth = v === 'tco' ? D : D - 1; const opt = { results: f.res, nest: f.nest, maxStack: 4 };
      jobs.push({ fam: k, v, depth: 2, prefix: [] });
      for (const p of shards(A, f.toks, 3, depth, opt)) jobs.push({ fam: k, v, depth, prefix: p });
    }
  }
  return jobs;
}
export async function plan(tier) { return [...bitsPlan('C03'), ...magPlan('C03'), ...OUTS.filter((o) => !o.startsWith('fn')).flatMap((sg) => SGFORMS.flatMap((form) => variants.map((v) => ({ sg, form, v, T: tier === 'thorough' })))), ...(await plan0(tier))]; }
export async function run(job) {
  if (job.bits) return bitsRun(job);
  if (job.mag) return magRun('C03', job);
  if (job.sg) { const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; let B = []; const go = () => { if (B.length) runBatch(B, { wasm: wasmPath(job.v), win: 520, initMem: ixMem, chunk: 200, host: () => new Host(), setup: sgSetup }, res); B = []; }; for (const p of sgPrograms(job.sg, job.form, job.T)) { p.key += ':' + job.v; if (job.only && job.only !== p.key) continue; res.nontrivial++; B.push(p); if (B.length >= 200) go(); } go(); return { job, ...res }; }
  const f = FAM[job.fam]; const opt = { results: f.res, nest: f.nest, maxStack: 4 };
  const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; let buf = [];
  const dopt = { chunk: job.fam === 'trap' ? 40 : 400, wasm: wasmPath(job.v), setup: (m) => { declare(m); m.memory(1); m.global('i32', true, I.i32(1), 'g0'); m.func({ body: [I.i32(1), I.gset(0)], name: 'reset' }); return { reset: 'reset', globals: [{ name: 'g0', t: 'i32' }], observeOnTrap: true }; } };
  const flush = () => { if (buf.length) runBatch(buf, dopt, res); buf = []; };
  const args = []; for (let x = 0; x < 1 << f.bits; x++) args.push([V.i32(x), V.i32(4), V.i64(77), V.f64(0x4008000000000000n)]);
  for (const p of bodies(A, f.toks, job.depth, opt, job.prefix, stateAfter(A, job.prefix, opt))) {
    if (p.length < 1 || (job.prefix.length && p.length < 3)) continue;
    const key = `${job.fam}:${p.join(' ')}:${job.v}`; if (job.only && job.only !== key) continue;
    const br = p.some((t) => /br|tab|if|ret/.test(t)); if (br) res.nontrivial++;
    const nb = p.filter((t) => /^(brif|if|tab)/.test(t)).length; const full = p.some((t) => t.startsWith('loop')) || f.cond;
    const body = p.map((t, i) => (A[t].ev ? ev(i + 1) : A[t].pos ? A[t].b(i) : A[t].loop ? [...A[t].b, ...fuel(f.res)] : A[t].b));
    buf.push({ key, params: ['i32', 'i32', 'i64', 'f64'], results: f.res, body, args: full ? args : nb ? args.slice(0, Math.min(args.length, job.fam.startsWith('tab') ? 1 << (2 * nb) : 1 << nb)) : args.slice(0, 1) });
    if (buf.length >= 400) flush();
  }
  flush(); return { job, ...res };
}
