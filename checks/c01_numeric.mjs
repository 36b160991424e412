// C01: every numeric / conversion instruction, for every boundary operand tuple and
// every way its operands can reach it (register, local, constant) and its result can
// leave it (stack, local.set, local.tee), gives the result or trap of the reference.
import { Mod, I, OPS } from '../lib/asm.mjs';
import { Chiwawa, Ref } from '../lib/host.mjs';
import { wasmPath } from '../lib/build.mjs';
import { FULL, SMALL, GRID, LINE, W, isNaNBits, nanFree } from '../lib/vals.mjs';

export const variants = ['tco', 'legacy'];
export const meta = {
  level: 'exploration', rule: 'one execution = one (instruction, operand source forms, result form, operand bit patterns, dispatcher) tuple run in chiwawa and compared bit for bit (any NaN where the spec leaves the NaN open) with V8 executing the same guest; non-trivial = distinct tuple (each tuple is generated once); trapping tuples are included and must trap in both',
  bounds: (t) => [`all ${Object.keys(OPS).length} numeric instructions of the MVP + sign-extension + saturating conversions; full cross product of ${t === 'thorough' ? 'the full boundary set' : 'the full boundary set (register/local forms) and the small boundary set (constant forms)'} per operand type; sources {reg,local,const}, destinations {reg,set,tee}`, `sweeps, one operand: every integer with at most 3 bits set, every run of ones, their complements and neighbours (i32 ${LINE('i32').length}, i64 ${LINE('i64').length}); every exponent and sign with every mantissa of at most ${t === 'thorough' ? 2 : 1} bits set or clear, and every value half way between two f32 with its neighbours (f32 ${LINE('f32', t === 'thorough').length}, f64 ${LINE('f64', t === 'thorough').length})`, `sweeps, two operands: the full cross product of ${GRID('i32').length} i32, ${GRID('i64').length} i64, ${GRID('f32').length} f32, ${GRID('f64').length} f64 values`],
  assumptions: ['V8 implements the WebAssembly numeric semantics', 'boundary values represent their equivalence classes'],
};
const FORMS2 = []; for (const a of 'rlc') for (const b of 'rlc') for (const d of ['r', 's', 't']) FORMS2.push(a + b + d);
const FORMS1 = []; for (const a of 'rlc') for (const d of ['r', 's', 't']) FORMS1.push(a + d);

export async function plan(tier) {
  const jobs = [];
  for (const n of Object.keys(OPS)) for (const v of variants) { jobs.push({ op: n, v, tier }); jobs.push({ op: n, v, tier, sweep: true }); }
  return jobs;
}
const load = (t) => I.load(t + '.load'); const store = (t) => I.store(t + '.store');

function fn(op, form, consts) { // () -> (): operands at memory 0, 8; result at 16
  const d = form[form.length - 1]; const srcs = form.slice(0, -1); const rt = op.out[0];
  const locals = [...op.in, rt]; const pre = []; const use = [];
  op.in.forEach((t, i) => {
    if (srcs[i] === 'l') { pre.push(I.i32(8 * i), load(t), I.set(i)); use.push(I.get(i)); }
    else if (srcs[i] === 'r') use.push(I.i32(8 * i), load(t));
    else use.push(I.cst(t, consts[i]));
  });
  const L = op.in.length; let body;
  if (d === 'r') body = [...pre, I.i32(16), ...use, I.op(op.name), store(rt)];
  else if (d === 's') body = [...pre, ...use, I.op(op.name), I.set(L), I.i32(16), I.get(L), store(rt)];
  else body = [...pre, I.i32(16), ...use, I.op(op.name), I.tee(L), store(rt), I.i32(24), I.get(L), store(rt)];
  return { locals, body };
}
// one call applies the instruction to a whole array of operand tuples: in at IN, out at OUT
const BATCH = 8192, IN = 65536, OUT = IN + 16 * BATCH, TRAPS = 6;
function sweeper(op, form) {
  const L = op.in.length, rt = op.out[0]; const m = new Mod(); m.memory(8); const cur = [I.get(0), I.i32(4), I.op('i32.shl'), I.i32(IN), I.op('i32.add')];
  const at = (i) => [...cur, I.load(op.in[i] + '.load', 8 * i)]; const res = [I.get(0), I.i32(3), I.op('i32.shl'), I.i32(OUT), I.op('i32.add')];
  const ops = form === 'l' ? op.in.map((_, i) => I.get(2 + i)) : op.in.map((_, i) => at(i));
  m.func({ params: ['i32', 'i32'], locals: [...op.in, rt], name: 'run', body: [I.block('', [I.loop('', [I.get(0), I.get(1), I.op('i32.ge_u'), I.br_if(1), form === 'l' ? op.in.map((_, i) => [at(i), I.set(2 + i)]) : [], form === 'l' ? [ops, I.op(op.name), I.set(2 + L), res, I.get(2 + L), I.store(rt + '.store')] : [res, ops, I.op(op.name), I.store(rt + '.store')], I.get(0), I.i32(1), I.op('i32.add'), I.set(0), I.br(0)])])].flat(Infinity) });
  return m.build();
}
function sweep(job) {
  const op = OPS[job.op]; const bin = op.in.length === 2; const rt = op.out[0]; const res = { evals: 0, outcomes: { value: 0, trap: 0, anynan: 0 }, violations: [], samples: [] };
  const thorough = job.tier === 'thorough'; const list = bin ? [GRID(op.in[0], thorough), GRID(op.in[1], thorough)] : [LINE(op.in[0], thorough)];
  const N = bin ? list[0].length * list[1].length : list[0].length; const get = bin ? (k) => [list[0][Math.floor(k / list[1].length)], list[1][k % list[1].length]] : (k) => [list[0][k]];
  const bad = (key, d) => { if (res.violations.length < 40) res.violations.push({ key, detail: d }); };
  const one = (u8, o, t, v) => { const dv = new DataView(u8.buffer, u8.byteOffset); if (W[t] === 4) dv.setUint32(o, Number(v), true); else dv.setBigUint64(o, v, true); };
  const rd = (u8, o) => { const dv = new DataView(u8.buffer, u8.byteOffset); return W[rt] === 4 ? BigInt(dv.getUint32(o, true)) : dv.getBigUint64(o, true); };
  for (const form of ['r', 'l']) {
    const bytes = sweeper(op, form); const ref = new Ref(bytes); const c = new Chiwawa(wasmPath(job.v)); const l = c.load(bytes); if (l.st !== 'ok') { bad(`sweep:${op.name}:load`, l); continue; }
    const I32 = (x) => ({ t: 0x7f, v: BigInt(x) }); let traps = 0; const name = (tp) => `sweep:${op.name}:${form}:${tp.map((x) => x.toString(16)).join(',')}:${job.v}`;
    const cmp = (tps, cm) => { const rm = ref.memBytes(); tps.forEach((tp, k) => { const x = rd(rm, OUT + 8 * k), y = rd(cm, OUT + 8 * k); if (x === y) { res.outcomes.value++; return; } if (nanFree(op.name) && isNaNBits(rt, x) && isNaNBits(rt, y)) { res.outcomes.anynan++; return; } bad(name(tp), { expected: x.toString(16), got: y.toString(16) }); }); };
    const put = (u8, tps) => { tps.forEach((tp, k) => tp.forEach((v, i) => one(u8, IN + 16 * k + 8 * i, op.in[i], v))); };
    const batch = (tps) => { // no tuple of these traps
      if (!tps.length) return; const rm = ref.memBytes(); put(rm, tps); rm.fill(0xcc, OUT, OUT + 8 * tps.length); const a = ref.call('run', [I32(0), I32(tps.length)], []); if (a.st !== 'ok') throw new Error('reference: ' + a.msg);
      if (c.dead) { c.fresh(); c.load(bytes); } const cm = c.memBytes(); put(cm, tps); cm.fill(0xcc, OUT, OUT + 8 * tps.length); const b = c.call('run', [I32(0), I32(tps.length)]); res.evals += tps.length;
      if (b.st !== 'ok') { if (tps.length === 1) bad(name(tps[0]), { expected: 'value', got: b.st, msg: b.msg }); else { for (let h = 0; h < tps.length && res.violations.length < 40; h += tps.length >> 1 || 1) batch(tps.slice(h, h + (tps.length >> 1 || 1))); } return; }
      cmp(tps, c.memBytes());
    };
    let buf = []; const mayTrap = /trunc_f|div_|rem_/.test(op.name) && !/sat/.test(op.name) && !op.name.startsWith('f');
    for (let k = 0; k < N; k++) {
      const tp = get(k); if (job.only && job.only !== name(tp)) continue;
      if (mayTrap) { put(ref.memBytes(), [tp]); if (ref.call('run', [I32(0), I32(1)], []).st === 'trap') { // every kind of operand that traps: first and last ones of each run of trapping tuples
        if (traps++ % 97 && !job.only) continue; if (traps > 97 * TRAPS * (thorough ? 10 : 1) && !job.only) continue; if (c.dead) { c.fresh(); c.load(bytes); } put(c.memBytes(), [tp]); const b = c.call('run', [I32(0), I32(1)]); res.evals++; res.outcomes.trap++; if (b.st === 'ok') bad(name(tp), { expected: 'trap', got: rd(c.memBytes(), OUT).toString(16) }); continue; } }
      buf.push(tp); if (buf.length === BATCH) { batch(buf); buf = []; }
    }
    batch(buf);
  }
  return { job, nontrivial: res.evals, ...res };
}
export async function run(job) {
  if (job.sweep) return sweep(job);
  const op = OPS[job.op]; const C = wasmPath(job.v); const violations = []; let evals = 0; const outcomes = { value: 0, trap: 0, anynan: 0 };
  const bin = op.in.length === 2; const forms = bin ? FORMS2 : FORMS1; const rt = op.out[0];
  const tuples = (set) => (bin ? set[op.in[0]].flatMap((a) => set[op.in[1]].map((b) => [a, b])) : set[op.in[0]].map((a) => [a]));
  const samples = [];
  const rd = (u8, t, off) => { const dv = new DataView(u8.buffer, u8.byteOffset); return W[t] === 4 ? BigInt(dv.getUint32(off, true)) : dv.getBigUint64(off, true); };
  const wr = (u8, t, off, v) => { const dv = new DataView(u8.buffer, u8.byteOffset); if (W[t] === 4) dv.setUint32(off, Number(v), true); else dv.setBigUint64(off, v, true); };
  // split: non-const forms share one module; const forms get one function per tuple
  const groups = [];
  { const m = new Mod(); m.memory(1); const list = []; for (const f of forms) if (!f.slice(0, -1).includes('c')) { const g = fn(op, f, []); m.func({ ...g, name: f }); for (const tp of tuples(FULL)) list.push({ name: f, form: f, tp }); } groups.push({ m, list }); }
  const set = job.tier === 'thorough' || !bin ? FULL : SMALL;
  for (const f of forms) if (f.slice(0, -1).includes('c')) { const m = new Mod(); m.memory(1); const list = []; tuples(set).forEach((tp, i) => { m.func({ ...fn(op, f, tp), name: 'f' + i }); list.push({ name: 'f' + i, form: f, tp }); }); groups.push({ m, list }); }
  for (const { m, list } of groups) {
    const bytes = m.build(); const ref = new Ref(bytes); const c = new Chiwawa(C); let l = c.load(bytes);
    if (l.st !== 'ok') { violations.push({ key: `${op.name}:load`, detail: l }); continue; }
    for (const { name, form, tp } of list) {
      const key = `${op.name}:${form}:${tp.map((x) => x.toString(16)).join(',')}:${job.v}`;
      if (job.only && job.only !== key) continue;
      const rm = ref.memBytes(); rm.fill(0xcc, 0, 32); tp.forEach((v, i) => wr(rm, op.in[i], 8 * i, v));
      if (c.dead) { c.fresh(); c.load(bytes); }
      const cm = c.memBytes(); cm.fill(0xcc, 0, 32); tp.forEach((v, i) => wr(cm, op.in[i], 8 * i, v));
      const a = ref.call(name, [], []); const b = c.call(name, []); evals++;
      const bt = b.st === 'trap' || b.st === 'err';
      if (a.st === 'trap') { outcomes.trap++; if (!bt) violations.push({ key, detail: { expected: 'trap', got: b.st } }); continue; }
      if (b.st !== 'ok') { violations.push({ key, detail: { expected: rd(ref.memBytes(), rt, 16).toString(16), got: b.st, msg: b.msg } }); continue; }
      const cm2 = c.memBytes(); const offs = form.endsWith('t') ? [16, 24] : [16];
      for (const o of offs) {
        const x = rd(ref.memBytes(), rt, o), y = rd(cm2, rt, o);
        if (x === y) outcomes.value++;
        else if (nanFree(op.name) && isNaNBits(rt, x) && isNaNBits(rt, y)) outcomes.anynan++;
        else violations.push({ key, detail: { expected: x.toString(16), got: y.toString(16), at: o } });
      }
      if (samples.length < 1 && evals > 7) samples.push({ op: op.name, form, operands: tp.map((x) => '0x' + x.toString(16)), result: '0x' + rd(cm2, rt, 16).toString(16), dispatcher: job.v });
    }
  }
  return { job, evals, nontrivial: evals, outcomes, violations, samples };
}
