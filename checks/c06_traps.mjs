// C06: traps. Every trapping instruction, in every position of a short effect sequence and
// call/loop nesting: the call fails, everything before it happened, nothing after it did.
// Accesses past the end of linear memory are trapping instructions too.
import { I, Mod, LOADS, STORES } from '../lib/asm.mjs';
import { V, Chiwawa, Ref, Host, sameVals, sameVal } from '../lib/host.mjs';
import { wasmPath } from '../lib/build.mjs';
import * as watch from '../lib/watch.mjs';

export const variants = ['tco', 'legacy'];
const fl = (b) => b.flat(Infinity);
const W = (n) => { const m = n.match(/(8|16|32)(_[su])?$/); return m ? Number(m[1]) / 8 : /64/.test(n.split('.')[0]) ? 8 : 4; };
const width = (n) => (/load$|store$/.test(n) ? (/64/.test(n.split('.')[0]) ? 8 : 4) : W(n));
const lt = (n) => n.split('.')[0];
// effects observable from outside
const EFF = { g: (k) => [I.gget(0), I.i32(31), I.op('i32.mul'), I.i32(k), I.op('i32.add'), I.gset(0)], m: (k) => [I.i32(16 + 4 * k), I.i32(0x1111 * k), I.store('i32.store')], w: (k, e) => [I.i32(8), I.i32(32 + k), I.store('i32.store'), I.i32(12), I.i32(1), I.store('i32.store'), I.i32(32 + k), I.i32(65 + k), I.store('i32.store8'), I.i32(1), I.i32(8), I.i32(1), I.i32(0), I.call(e.fd_write), I.drop()],
  c: (k, e) => [I.i32(k), I.call(e.eff)], r: (k) => [I.i32(1), I.grow(), I.drop()], i: (k, e) => [I.i32(k), I.i32(1), I.call_indirect(e.tyEff)] };
// trapping instructions: x operands from constants, l from the locals (0: 0, 1: -1, 2: INT_MIN)
const i64min = [I.i64(-0x8000000000000000n)];
const TRAP = {
  unreachable: () => I.unreachable(), div_s0: () => [I.i32(7), I.get(0), I.op('i32.div_s'), I.drop()], div_u0c: () => [I.i32(7), I.i32(0), I.op('i32.div_u'), I.drop()], rem_s0: () => [I.get(1), I.get(0), I.op('i32.rem_s'), I.set(1)], rem_u0: () => [I.get(1), I.get(0), I.op('i32.rem_u'), I.gset(0)],
  div_ov: () => [I.get(2), I.get(1), I.op('i32.div_s'), I.drop()], ldiv0: () => [I.i64(5), I.get(0), I.op('i64.extend_i32_s'), I.op('i64.div_s'), I.drop()], ldivov: () => [i64min, I.i64(-1), I.op('i64.div_s'), I.drop()], lrem0: () => [I.i64(5), I.i64(0), I.op('i64.rem_u'), I.drop()],
  truncnan: () => [I.f32b(0x7fc00000), I.op('i32.trunc_f32_s'), I.drop()], truncbig: () => [I.f64(1e20), I.op('i64.trunc_f64_u'), I.gget(0), I.op('i64.extend_i32_s'), I.op('i64.add'), I.drop()], truncneg: () => [I.f64(-1), I.op('i32.trunc_f64_u'), I.gset(0)],
  ci_null: (e) => [I.i32(3), I.i32(0), I.call_indirect(e.tyEff)], ci_oob: (e) => [I.i32(3), I.i32(4), I.call_indirect(e.tyEff)], ci_neg: (e) => [I.i32(3), I.get(1), I.call_indirect(e.tyEff)], ci_type: (e) => [I.i32(3), I.i32(2), I.call_indirect(e.tyEff)], ci_type2: (e) => [I.i32(1), I.call_indirect(e.ty0)],
  tget: () => [I.i32(4), I.tget(0), I.drop()], tset: () => [I.get(1), I.ref_null('funcref'), I.tset(0)], tfill: () => [I.i32(3), I.ref_null('funcref'), I.i32(2), I.tfill(0)], tfill0: () => [I.i32(5), I.ref_null('funcref'), I.i32(0), I.tfill(0)],
  call_trap: (e) => I.call(e.trapper), call_deep: (e) => [I.i32(3), I.call(e.deep)], ci_trap: (e) => [I.i32(3), I.call_indirect(e.ty0)], rec: null,
  init_src: () => [I.i32(40), I.i32(2), I.i32(3), I.mem_init(0)], init_dst: () => [I.i32(-1), I.i32(0), I.i32(2), I.mem_init(0)], init_drop: () => [I.data_drop(0), I.i32(40), I.i32(0), I.i32(1), I.mem_init(0)], init_0s: () => [I.i32(40), I.i32(5), I.i32(0), I.mem_init(0)], init_0d: () => [I.get(1), I.i32(0), I.i32(0), I.mem_init(0)], init_active: () => [I.i32(40), I.i32(0), I.i32(1), I.mem_init(1)],
};
delete TRAP.rec;
// where the trap happens
const WRAP = { top: (t) => t, block: (t) => [I.block('', [I.loop('', t)])], ifc: (t) => [I.get(1), I.if('', t)], loop: (t) => [I.i32(2), I.set(3), I.loop('', [I.get(3), I.i32(1), I.op('i32.sub'), I.tee(3), I.op('i32.eqz'), I.if('', t), I.gget(0), I.i32(3), I.op('i32.add'), I.gset(0), I.get(3), I.i32(-3), I.op('i32.gt_s'), I.br_if(0)])], junk: (t) => [I.i32(1), I.i64(2), I.f64(3), t, I.drop(), I.drop(), I.drop()] };
// memory accesses past the end. kind -> [base, offset] for an access of width w
const KINDS = { cross: (w) => [65536 - w + 1, 0], past: (w) => [65536, 0], off: (w) => [0, 65536 - w + 1], far: (w) => [0x7fff0000, 0], faroff: () => [0, 0x7fff0000], neg: () => [-1, 0], wrap: () => [-16, 32], wrap2: (w) => [-w, w] };
function* memCases() {
  for (const n of [...Object.keys(LOADS), ...Object.keys(STORES)]) for (const k of Object.keys(KINDS)) for (const sh of ['c', 'l', 'e']) {
    const [b, o] = KINDS[k](width(n)); const a = sh === 'c' ? I.i32(b) : sh === 'l' ? I.get(0) : [I.get(0), I.i32(1), I.op('i32.add'), I.i32(1), I.op('i32.sub')];
    yield { key: `mem:${n}:${k}:${sh}`, arg: b, body: STORES[n] ? [a, I.cst(lt(n), 0n), I.store(n, o)] : [a, I.load(n, o), I.drop()] };
  }
  const E = 65536; const bulk = { fill: [['cross', E - 3, 0x20, 4], ['past', E, 0, 1], ['zero', E + 1, 0, 0], ['neg', -1, 0, 1], ['huge', 0, 0, -1], ['far', 0x7fff0000, 0, 4]], copyd: [['cross', E - 3, 16, 4], ['past', E, 16, 1], ['zero', E + 1, 0, 0], ['neg', -1, 16, 1], ['far', 0x7fff0000, 16, 4], ['huge', 0, 16, -1]], copys: [['cross', 16, E - 3, 4], ['past', 16, E, 1], ['zero', 0, E + 1, 0], ['neg', 16, -1, 1], ['far', 16, 0x7fff0000, 4]] };
  for (const [k, cs] of Object.entries(bulk)) for (const [n, a, b, c] of cs) for (const sh of ['c', 'l']) yield { key: `mem:${k}:${n}:${sh}`, arg: a, body: [sh === 'c' ? I.i32(a) : I.get(0), I.i32(b), I.i32(c), k === 'fill' ? I.mem_fill() : I.mem_copy()] };
}
// arithmetic that traps: every such instruction x operands x where they come from x what uses the result
const NUM = (() => {
  const r = []; for (const t of ['i32', 'i64']) { const min = t === 'i32' ? -0x80000000 : -0x8000000000000000n; const c = (x) => I[t](t === 'i64' ? BigInt(x) : x); for (const o of ['div_s', 'div_u', 'rem_s', 'rem_u']) { r.push([`${t}.${o}`, '0', t, t, [c(7), c(0)]], [`${t}.${o}`, 'min0', t, t, [c(min), c(0)]], [`${t}.${o}`, '00', t, t, [c(0), c(0)]]); if (o === 'div_s') r.push([`${t}.${o}`, 'over', t, t, [c(min), c(-1)]]); }
    for (const f of ['f32', 'f64']) for (const sg of ['s', 'u']) { const b = t === 'i32' ? 32 : 64; const hi = 2 ** (sg === 's' ? b - 1 : b); const lo = sg === 's' ? (f === 'f64' && b === 32 ? -(2 ** 31) - 1 : f === 'f32' && b === 32 ? -(2 ** 31) - 256 : -(2 ** 63) * (f === 'f32' ? 1.0000001192092896 : 1.0000000000000002)) : -1; for (const [k, x] of [['nan', NaN], ['inf', Infinity], ['ninf', -Infinity], ['hi', hi], ['huge', 1e30], ['lo', lo], ['low', -1e30]]) r.push([`${t}.trunc_${f}_${sg}`, k, f, t, [I[f](x)]]); } }
  return r;
})();
const XL = { i32: 4, i64: 5, f32: 6, f64: 7 }; // locals beyond the three parameters and the counter; second operand 8..11
function* numCases(shard, of) {
  let q = 0; for (const [op, k, ty, out, xs] of NUM) for (const sh of xs.length === 2 ? ['rr', 'rl', 'rc', 'lr', 'll', 'lc', 'cr', 'cl', 'cc'] : ['r', 'l', 'c']) for (const use of ['drop', 'set', 'tee', 'op', 'store', 'if']) for (const w of Object.keys(WRAP)) {
    if (q++ % of !== shard) continue; const lo = (j) => XL[ty] + 4 * j; const put = xs.map((x, j) => (sh[j] === 'l' ? [x, I.set(lo(j))] : [])); const src = xs.map((x, j) => (sh[j] === 'l' ? I.get(lo(j)) : sh[j] === 'c' ? x : ty[0] === 'i' ? [x, I.cst(ty, 0n), I.op(ty + '.or')] : [x, I.op(ty + '.neg'), I.op(ty + '.neg')]));
    const v = [src, I.op(op)]; const c7 = out === 'i32' ? I.i32(7) : I.i64(7);
    const b = { drop: [v, I.drop()], set: [v, I.set(XL[out])], tee: [v, I.tee(XL[out]), c7, I.op(out + '.add'), I.drop()], op: [c7, v, I.op(out + '.xor'), c7, I.op(out + '.sub'), I.drop()], store: [I.i32(16), v, I.store(out + '.store')], if: [v, out === 'i64' ? I.op('i64.eqz') : I.op('i32.eqz'), I.if('', [EFF.g(9)], [EFF.g(5)])] }[use];
    yield { key: `num:${op}:${k}:${sh}:${use}:${w}`, args: [0, -1, -0x80000000], num: [EFF.g(3), put, WRAP[w](b), EFF.g(4)] };
  }
}
export const meta = {
  level: 'exploration', rule: 'one execution = one program with one trapping instruction at one place, in a fresh instance; compared with V8: the failure, globals, memory size, the observed memory, bytes written to stdout; every program that must fail must not return normally; non-trivial = distinct programs whose reference execution traps',
  bounds: (t) => [`${Object.keys(TRAP).length} trapping forms x every effect sequence of length <= ${t === 'thorough' ? 3 : 2} before and <= 1 after over {${Object.keys(EFF).join(' ')}} x ${Object.keys(WRAP).length} positions`, `arithmetic: ${NUM.length} (instruction, trapping operands) x every operand source {register, local, constant} x 6 uses of the result x ${Object.keys(WRAP).length} positions`, `memory: every load and store x ${Object.keys(KINDS).length} kinds of out-of-bounds address x 3 operand shapes; fill/copy destinations and sources past the end, zero-length included`],
  assumptions: ['V8 implements the WebAssembly trap semantics', 'effects of a guest that ended in a host trap are read from the stopped interpreter instance'],
  note: 'Complete within the stated bounds. Out-of-bounds linear-memory accesses are known findings (the interpreter has no bounds checks by design); each is listed by instruction and kind.',
};
export async function plan(tier) {
  const jobs = []; const n = tier === 'thorough' ? 3 : 2;
  for (const v of variants) { for (const t of Object.keys(TRAP)) for (const w of Object.keys(WRAP)) jobs.push({ t, w, n, v }); for (let s = 0; s < 16; s++) jobs.push({ mem: s, v }); for (let s = 0; s < 32; s++) jobs.push({ num: s, v }); }
  return jobs;
}
function base(m) {
  const fd_write = m.importFunc('wasi_snapshot_preview1', 'fd_write', ['i32', 'i32', 'i32', 'i32'], ['i32']);
  m.memory(1, 4); m.global('i32', true, I.i32(1), 'g0'); m.table('funcref', 4, undefined, 't'); m.dataPassive([1, 2, 3, 4]); m.data(I.i32(60), [7, 7, 7]); m.dataCount = true;
  const eff = m.func({ params: ['i32'], body: fl([I.gget(0), I.i32(17), I.op('i32.mul'), I.get(0), I.op('i32.add'), I.gset(0)]) });
  const oth = m.func({ params: ['i64'], body: [] }); const trapper = m.func({ locals: ['i32'], body: fl([I.gget(0), I.i32(5), I.op('i32.add'), I.gset(0), I.i32(3), I.set(0), I.unreachable()]) });
  const deep = m.func({ params: ['i32'], body: [] }); m.setBody(deep, fl([I.get(0), I.op('i32.eqz'), I.if('', [I.gget(0), I.i32(0), I.op('i32.div_u'), I.gset(0)], [EFF.g(1), I.get(0), I.i32(1), I.op('i32.sub'), I.call(deep), I.i32(0), I.gset(0)])]));
  m.elem(I.i32(1), [eff, oth, trapper]); return { fd_write, eff, trapper, deep, tyEff: m.type(['i32'], []), ty0: m.type([], []) };
}
export async function run(job) {
  const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; const w = wasmPath(job.v); const bump = (k) => { res.outcomes[k] = (res.outcomes[k] ?? 0) + 1; };
  const cases = []; const ks = Object.keys(EFF);
  if (job.num !== undefined) cases.push(...numCases(job.num, 32)); else if (job.mem !== undefined) { let i = 0; for (const c of memCases()) if (i++ % 16 === job.mem) cases.push(c); } else {
    const rec = (pre) => { for (const post of ['', ...ks]) cases.push({ key: `trap:${job.t}:${job.w}:${pre.join('')}:${post}`, args: [0, -1, -0x80000000], pre, post }); if (pre.length < job.n) for (const k of ks) rec([...pre, k]); };
    rec([]);
  }
  const todo = cases.map((c) => ({ ...c, key: c.key + ':' + job.v })).filter((c) => !job.only || c.key === job.only);
  for (let q = 0; q < todo.length; q += 40) {
    const part = todo.slice(q, q + 40); const m = new Mod(); const e = base(m);
    part.forEach((c, i) => {
      const body = c.num ? c.num : c.body ? [EFF.g(3), c.body, EFF.g(4)] : [c.pre.map((k, j) => EFF[k](j + 1, e)), WRAP[job.w](TRAP[job.t](e)), c.post ? EFF[c.post](7, e) : []];
      m.func({ params: ['i32', 'i32', 'i32'], locals: ['i32', 'i32', 'i64', 'f32', 'f64', 'i32', 'i64', 'f32', 'f64'], body: fl(body), name: 'p' + i });
    });
    const bytes = m.build(); const mod = new WebAssembly.Module(bytes);
    const hc = new Host(); const c = new Chiwawa(w, hc);
    part.forEach((p, i) => {
      watch.setKey(p.key); const args = (p.args ?? [p.arg, 0, 0]).map((x) => V.i32(x));
      const hr = new Host(); const ref = new Ref(mod, hr); const a = ref.call('p' + i, args, []);
      c.fresh(hc); hc.out = []; const l = c.load(bytes); if (l.st !== 'ok') { res.violations.push({ key: p.key, detail: { load: l } }); return; }
      const b = c.call('p' + i, args); res.evals++; let bad = null;
      if (a.st === 'trap') {
        res.nontrivial++; bump('trap');
        if (b.st !== 'trap' && b.st !== 'err') bad = { expected: 'trap: ' + a.msg, got: b.st };
      } else { bump('value'); if (b.st !== a.st) bad = { expected: a.st, got: b.st, msg: b.msg }; }
      if (!bad && !p.body) { // the interpreter instance has stopped: read what the guest left
        const x = ref.memBytes(), y = c.memBytes(); if (x.length !== y.length) bad = { memorySize: [x.length, y.length] }; else if (Buffer.compare(x.subarray(0, 128), y.subarray(0, 128))) bad = { memory: { expected: Buffer.from(x.subarray(0, 72)).toString('hex'), got: Buffer.from(y.subarray(0, 72)).toString('hex') } };
        let g; try { g = c.globals()[0]; } catch (er) { g = { v: -1n }; bad = bad ?? { instanceDestroyed: String(er) }; } if (!bad && Number(g.v) !== ref.x.g0.value >>> 0) bad = { global: { expected: ref.x.g0.value >>> 0, got: Number(g.v) } };
        if (!bad && hr.stdout() !== hc.stdout()) bad = { stdout: { expected: hr.stdout(), got: hc.stdout() } };
      }
      if (bad) res.violations.push({ key: p.key, detail: bad, finding: p.body ? p.key.split(':').slice(0, 3).join(':') : undefined }); else if (res.samples.length < 1 && res.evals > 8) res.samples.push({ program: p.key, expected: a.msg ?? a.st, got: b.msg ?? b.st });
    });
  }
  return { job, ...res };
}
