// Every place where an operand decides something, tried with operands of every magnitude
// (around every power of two): what only looks at the low bits of an operand shows here.
import { I } from './asm.mjs';
import { V } from './host.mjs';
import { wasmPath } from './build.mjs';
import { runBatch } from './diff.mjs';
const op = (n) => I.op(n); const fl = (b) => b.flat(Infinity);
const E32 = [...new Set(Array.from({ length: 32 }, (_, k) => [-2, -1, 0, 1, 2, 3].map((d) => (2 ** k + d) >>> 0)).flat().concat([0xfffffffc, 0xfffffffd, 0xfffffffe, 0xffffffff]))].map((x) => x | 0);
const E64 = [...new Set(Array.from({ length: 64 }, (_, k) => [-1n, 0n, 1n].map((d) => BigInt.asIntN(64, (1n << BigInt(k)) + d))).flat())];
const T = ['i32', 'i64', 'f32', 'f64']; const K = (t, i) => (t === 'i32' ? I.i32(i) : t === 'i64' ? I.i64(i) : t === 'f32' ? I.f32(i) : I.f64(i));
// x = code of the operand, an i32 (X: an i64). e = {inc, ty} of the module
const U = {
  C03: {
    if: (x) => [x, I.if('i32', I.i32(1), I.i32(2))], 'if void': (x) => [x, I.if('', fl([I.i32(5), I.gset(0)])), I.gget(0)], 'if else void': (x) => [x, I.if('', fl([I.i32(5), I.gset(0)]), fl([I.i32(6), I.gset(0)])), I.gget(0)],
    br_if: (x) => [I.block('', fl([x, I.br_if(0), I.i32(5), I.gset(0)])), I.gget(0)], 'br_if value': (x) => [I.block('i32', fl([I.i32(7), x, I.br_if(0), I.drop(), I.i32(8)]))], 'br_if function': (x) => [I.i32(7), x, I.br_if(0), I.drop(), I.i32(8)], 'br_if loop': (x) => [I.i32(0), I.set(2), I.loop('', fl([I.get(2), I.i32(1), op('i32.add'), I.tee(2), I.i32(3), op('i32.lt_s'), I.if('i32', fl(x), I.i32(0)), I.br_if(0)])), I.get(2)],
    eqz: (x) => [x, op('i32.eqz'), I.if('i32', I.i32(1), I.i32(2))], 'eqz br_if': (x) => [I.block('i32', fl([I.i32(7), x, op('i32.eqz'), I.br_if(0), I.drop(), I.i32(8)]))], 'ne br_if': (x) => [I.block('i32', fl([I.i32(7), x, I.i32(0), op('i32.ne'), I.br_if(0), I.drop(), I.i32(8)]))],
    ...Object.fromEntries(T.flatMap((t) => [[`select ${t}`, (x) => [K(t, 3), K(t, 4), x, I.select(), K(t, 3), op(t + '.eq')]], [`select_t ${t}`, (x) => [K(t, 3), K(t, 4), x, I.select_t(t), K(t, 3), op(t + '.eq')]]])),
    'select funcref': (x) => [I.i32(0), I.tget(0), I.ref_null('funcref'), x, I.select_t('funcref'), I.ref_is_null()],
    ...Object.fromEntries([0, 1, 2, 3, 5].flatMap((n) => [[`br_table of ${n}`, (x) => { let b = fl([x, I.br_table(Array.from({ length: n }, (_, i) => i), n)]); for (let i = 0; i <= n; i++) b = fl([I.block('', b), I.i32(10 + i), I.return()]); return [b, I.i32(99)]; }], [`br_table of ${n} with a value`, (x) => { let b = fl([I.i32(5), x, I.br_table(Array.from({ length: n }, (_, i) => i), n)]); for (let i = 0; i <= n; i++) b = fl([I.block('i32', b), I.i32(10 * i), op('i32.add')]); return b; }]])),
  },
  C04: { call_indirect: (x, e) => [I.i32(6), x, I.call_indirect(e.ty)], 'call_indirect second table': (x, e) => [I.i32(6), x, I.call_indirect(e.ty, 1)], 'argument': (x, e) => [x, I.call(e.inc)], 'argument and result of call_indirect': (x, e) => [x, I.i32(1), I.call_indirect(e.ty)] },
  C05: { 'memory.grow': (x) => [x, I.grow(), I.size(), op('i32.add')], 'load displacement': (x) => [x, I.i32(0xffff), op('i32.and'), I.load('i32.load8_u')], store: (x) => [I.i32(8), x, I.store('i32.store'), I.i32(8), I.load('i32.load')], store16: (x) => [I.i32(8), x, I.store('i32.store16'), I.i32(8), I.load('i32.load')], 'fill value': (x) => [I.i32(8), x, I.i32(4), I.mem_fill(), I.i32(8), I.load('i32.load')] },
  C07: { 'table.get': (x) => [x, I.tget(0), I.ref_is_null()], 'table.set': (x) => [x, I.ref_null('funcref'), I.tset(0), I.i32(1), I.tget(0), I.ref_is_null()], 'table.fill at': (x) => [x, I.ref_null('funcref'), I.i32(1), I.tfill(0), I.i32(1), I.tget(0), I.ref_is_null()], 'table.fill of': (x) => [I.i32(0), I.ref_null('funcref'), x, I.tfill(0), I.i32(1), I.tget(0), I.ref_is_null()], 'table.fill of at 1': (x) => [I.i32(1), I.ref_null('funcref'), x, I.tfill(0), I.i32(1), I.tget(0), I.ref_is_null()], 'global.set': (x) => [x, I.gset(0), I.gget(0)], 'local.set': (x) => [x, I.set(2), I.get(2)], 'local.tee': (x) => [x, I.tee(2), I.get(2), op('i32.xor'), I.get(2), op('i32.add')] },
};
const U64 = { C03: { 'i64.eqz': (x) => [x, op('i64.eqz'), I.if('i32', I.i32(1), I.i32(2))], 'i64.ne br_if': (x) => [I.block('i32', fl([I.i32(7), x, I.i64(0), op('i64.ne'), I.br_if(0), I.drop(), I.i32(8)]))] }, C07: { 'global.set i64': (x) => [x, I.gset(1), I.gget(1), x, op('i64.eq')], 'local.set i64': (x) => [x, I.set(3), I.get(3), x, op('i64.eq')] } };
export const magPlan = (prop) => ['tco', 'legacy'].flatMap((v) => Object.keys(U[prop]).concat(Object.keys(U64[prop] ?? {})).map((u) => ({ mag: u, v })));
export const magBound = (prop) => `operands of every magnitude (2^k-2 .. 2^k+3 for every k) as parameter, register and constant in: ${Object.keys(U[prop]).concat(Object.keys(U64[prop] ?? {})).join(', ')}`;
export function magRun(prop, job) {
  const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; const wide = !U[prop][job.mag]; const f = wide ? U64[prop][job.mag] : U[prop][job.mag]; const E = wide ? E64 : E32; let e;
  const opt = { chunk: 120, wasm: wasmPath(job.v), setup: (m) => { m.memory(1, 3); m.data(I.i32(0), Array.from({ length: 64 }, (_, i) => i * 3 + 1)); m.global('i32', true, I.i32(1), 'g0'); m.global('i64', true, I.i64(1), 'g1'); const inc = m.func({ params: ['i32'], results: ['i32'], body: [I.get(0), I.i32(1), op('i32.add')].flat() }), dbl = m.func({ params: ['i32'], results: ['i32'], body: [I.get(0), I.get(0), op('i32.add')].flat() }); m.table('funcref', 4); m.table('funcref', 3); m.elem(I.i32(0), [inc, dbl, inc]); m.elemRaw([2, 1, ...I.i32(0), 0x0b, 0, 2, dbl, inc]); e = { inc, ty: m.type(['i32'], ['i32']) }; m.func({ body: [I.i32(1), I.gset(0), I.i64(1), I.gset(1)].flat(), name: 'reset' }); return { reset: 'reset', globals: [{ name: 'g0', t: 'i32' }, { name: 'g1', t: 'i64' }], observeOnTrap: true }; } };
  const P = wide ? ['i64', 'i64'] : ['i32', 'i32']; const arg = wide ? V.i64 : V.i32; const k = wide ? I.i64 : I.i32; const L = ['i32', 'i64'];
  const srcs = { local: I.get(0), reg: [I.get(0), I.get(1), op(wide ? 'i64.or' : 'i32.or')] }; const items = [];
  for (const [s, x] of Object.entries(srcs)) items.push({ key: `mag:${job.mag}:${s}:${job.v}`, params: P, results: ['i32'], locals: L, body: () => fl(f(x, e)), args: E.map((v) => [arg(v), arg(wide ? 0n : 0)]) });
  for (const v of E) items.push({ key: `mag:${job.mag}:const ${v}:${job.v}`, params: P, results: ['i32'], locals: L, body: () => fl(f(k(v), e)), args: [[arg(wide ? 0n : 0), arg(wide ? 0n : 0)]] });
  const todo = items.filter((p) => !job.only || job.only === p.key);
  // tables and memories are changed by some: one instance per execution there
  const own = /table|grow|fill/.test(job.mag) && !/br_table/.test(job.mag); for (let i = 0; i < todo.length; i += 120) runBatch(todo.slice(i, i + 120), { ...opt, freshEach: own }, res);
  res.nontrivial = res.evals; return { job, ...res };
}
