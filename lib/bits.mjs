// Floats which are only moved keep every bit: signalling and payload-carrying NaNs, the
// signs of zeros and NaNs, denormals. Each way a value can be moved (locals, operands,
// blocks, branches, calls, memory, globals) x each source x each sink x every pattern; the
// result is an integer, compared exactly.
import { I } from './asm.mjs';
import { V, Host } from './host.mjs';
import { runBatch } from './diff.mjs';
import { wasmPath } from './build.mjs';
const op = (n) => I.op(n);
export const BITS = { f32: [0x7f800001, 0x7fa00000, 0xff800001, 0xffbfffff, 0x7fc00000, 0xffc00000, 0x7fc12345, 0xffffffff, 0x80000000, 0, 1, 0x807fffff, 0x7f800000, 0x3f800000], f64: [0x7ff0000000000001n, 0x7ff4000000000000n, 0xfff0000000000001n, 0xfff7ffffffffffffn, 0x7ff8000000000000n, 0xfff8000000000000n, 0x7ff8000012345678n, 0x7ff8123400000000n, 0xffffffffffffffffn, 0x8000000000000000n, 0n, 1n, 0x800fffffffffffffn, 0x7ff0000000000000n, 0x3ff0000000000000n] };
const W = { f32: 'i32', f64: 'i64' }; const k = (t, b) => (t === 'f32' ? I.f32b(b) : I.f64b(b));
const OTHER = { f32: 0x40490fdb, f64: 0x400921fb54442d18n };
// locals of every program: 0 parameter (integer), 1 2 3 floats, 4 i32, 5 i32
const SRC = { r: (t) => [I.get(0), op(`${t}.reinterpret_${W[t]}`)], l: (t) => [I.get(0), op(`${t}.reinterpret_${W[t]}`), I.set(1), I.get(1)], m: (t) => [I.i32(16), I.get(0), I.store(`${W[t]}.store`), I.i32(16), I.load(`${t}.load`)] };
const SINK = { r: (t) => [op(`${W[t]}.reinterpret_${t}`)], l: (t) => [I.set(3), I.get(3), op(`${W[t]}.reinterpret_${t}`)], m: (t) => [I.set(3), I.i32(32), I.get(3), I.store(`${t}.store`), I.i32(32), I.load(`${W[t]}.load`)] };
const o = (t) => k(t, OTHER[t]);
// ways: (t, s = source code, e) -> code leaving the value; e: {ty(params, results), f: helper indices, g: global of the type}
const WAYS = {
  C02: {
    none: (t, s) => s, 'local 2': (t, s) => [s, I.set(2), I.get(2)], tee: (t, s) => [s, I.tee(2), I.drop(), I.get(2)], 'tee kept': (t, s) => [s, I.tee(2)], 'through three': (t, s) => [s, I.set(1), I.get(1), I.set(2), I.get(2), I.set(3), I.get(3)], 'other dropped': (t, s) => [s, o(t), I.drop()], 'over another': (t, s) => [o(t), s, I.set(2), I.drop(), I.get(2)],
    'select first': (t, s) => [s, o(t), I.i32(1), I.select()], 'select second': (t, s) => [o(t), s, I.i32(0), I.select()], 'select by local': (t, s) => [s, o(t), I.get(4), op('i32.eqz'), I.select()], 'select typed': (t, s) => [o(t), s, I.get(4), I.select_t(t)], 'select itself': (t, s) => [s, I.tee(2), I.get(2), I.get(4), I.select()],
    'neg twice': (t, s) => [s, op(t + '.neg'), op(t + '.neg')], 'copysign of itself': (t, s) => [s, I.tee(2), I.get(2), op(t + '.copysign')], 'reinterpreted twice': (t, s) => [s, op(`${W[t]}.reinterpret_${t}`), op(`${t}.reinterpret_${W[t]}`)],
  },
  C03: {
    block: (t, s) => I.block(t, [s].flat(3)), 'block in block': (t, s) => I.block(t, I.block(t, [s].flat(3))), 'block parameter': (t, s, e) => [s, I.block({ idx: e.ty([t], [t]) }, I.nop())], 'loop parameter': (t, s, e) => [s, I.loop({ idx: e.ty([t], [t]) }, I.nop())], 'if then': (t, s) => [I.get(4), op('i32.eqz'), I.if(t, [s].flat(3), o(t))], 'if else': (t, s) => [I.get(4), I.if(t, o(t), [s].flat(3))], 'if parameter': (t, s, e) => [s, I.get(4), I.if({ idx: e.ty([t], [t]) }, [I.drop(), o(t)].flat(), I.nop())],
    br: (t, s) => I.block(t, [s, I.br(0)].flat(3)), 'br 2': (t, s) => I.block(t, [I.block(t, [I.block(t, [s, I.br(2)].flat(3)), I.drop(), o(t)].flat()), I.drop(), o(t)].flat()), 'br over others': (t, s) => I.block(t, [o(t), I.i32(7), s, I.br(0)].flat(3)), 'br_if taken': (t, s) => I.block(t, [s, I.i32(1), I.br_if(0), I.drop(), o(t)].flat(3)), 'br_if not taken': (t, s) => I.block(t, [s, I.get(4), I.br_if(0)].flat(3)), 'br_table': (t, s) => I.block(t, [I.block(t, [s, I.get(4), I.br_table([1, 0], 0)].flat(3)), I.drop(), o(t)].flat()), 'br_table default': (t, s) => I.block(t, [I.block(t, [s, I.i32(9), I.br_table([0, 0], 1)].flat(3)), I.drop(), o(t)].flat()),
    'loop again': (t, s, e) => [s, I.i32(0), I.set(5), I.loop({ idx: e.ty([t], [t]) }, [I.get(5), I.i32(1), op('i32.add'), I.tee(5), I.i32(3), op('i32.lt_u'), I.br_if(0)].flat())], 'two results': (t, s, e) => [I.block({ idx: e.ty([], [t, t]) }, [s, o(t)].flat(3)), I.drop()], 'two results, second': (t, s, e) => [I.block({ idx: e.ty([], [t, t]) }, [o(t), s, I.br(0)].flat(3)), I.set(2), I.drop(), I.get(2)],
  },
  C04: {
    call: (t, s, e) => [s, I.call(e.f[t].id)], 'call twice': (t, s, e) => [s, I.call(e.f[t].id), I.call(e.f[t].id)], 'call_indirect': (t, s, e) => [s, I.i32(e.f[t].slot), I.call_indirect(e.ty([t], [t]))], 'second argument': (t, s, e) => [o(t), s, I.call(e.f[t].second)], 'swapped': (t, s, e) => [s, o(t), I.call(e.f[t].swap), I.set(2), I.drop(), I.get(2)], 'return': (t, s, e) => [s, I.call(e.f[t].ret)], 'beneath a call': (t, s, e) => [s, o(t), I.call(e.f[t].id), I.drop()], 'local over a call': (t, s, e) => [s, I.set(2), o(t), I.call(e.f[t].id), I.drop(), I.get(2)], deep: (t, s, e) => [s, I.i32(5), I.call(e.f[t].deep)], eighth: (t, s, e) => [o(t), o(t), o(t), o(t), o(t), o(t), o(t), s, I.call(e.f[t].eight)],
  },
  C05: Object.fromEntries([0, 1, 3, 4, 7, 8, 200, 65536 - 64].map((q) => [`stored at +${q}`, (t, s) => [s, I.set(2), I.i32(48), I.get(2), I.store(t + '.store', q), I.i32(48), I.load(t + '.load', q)]])),
  C07: { global: (t, s, e) => [s, I.gset(e.g[t]), I.gget(e.g[t])], 'two globals': (t, s, e) => [s, I.gset(e.g[t]), I.gget(e.g[t]), I.gset(e.g[t] + 1), I.gget(e.g[t] + 1)], 'global over a call': (t, s, e) => [s, I.gset(e.g[t]), I.call(e.nop), I.gget(e.g[t])], 'set by a callee': (t, s, e) => [s, I.call(e.f[t].gset), I.gget(e.g[t])], 'read by a callee': (t, s, e) => [s, I.gset(e.g[t]), I.call(e.f[t].gget)] },
};
function setup(m) {
  m.memory(1); const f = {}, g = {}; m.table('funcref', 8, undefined, 'tab'); let slot = 0, ng = 0; const env = { f: {}, g, t: [], ty: (p, r) => m.type(p, r), consts: {} };
  env.nop = m.func({ body: I.nop() });
  for (const t of ['f32', 'f64']) { g[t] = ng; m.global(t, true, o(t)); m.global(t, true, o(t)); ng += 2; }
  for (const t of ['f32', 'f64']) BITS[t].forEach((b) => { m.global(t, b % (typeof b === 'bigint' ? 2n : 2) ? true : false, k(t, b)); env.consts[t + b] = ng++; });
  for (const t of ['f32', 'f64']) { const x = {}; x.id = m.func({ params: [t], results: [t], body: I.get(0) }); x.slot = slot; m.elem(I.i32(slot++), [x.id]); x.second = m.func({ params: [t, t], results: [t], body: I.get(1) }); x.swap = m.func({ params: [t, t], results: [t, t], body: [I.get(1), I.get(0)].flat() }); x.ret = m.func({ params: [t], results: [t], locals: [t], body: [I.get(0), I.set(1), o(t), I.get(1), I.return()].flat() }); x.deep = m.func({ params: [t, 'i32'], results: [t], body: [] }); m.setBody(x.deep, [I.get(1), I.if(t, [I.get(0), I.get(1), I.i32(1), op('i32.sub'), I.call(x.deep)].flat(), I.get(0))].flat()); x.eight = m.func({ params: Array(8).fill(t), results: [t], body: I.get(7) }); x.gset = m.func({ params: [t], body: [I.get(0), I.gset(g[t])].flat() }); x.gget = m.func({ results: [t], body: I.gget(g[t]) }); f[t] = x; }
  env.f = f; return { env: { ...env, bf: f } };
}
export const bitsPlan = (prop) => ['tco', 'legacy'].map((v) => ({ bits: prop, v }));
export function* bitsPrograms(prop) {
  for (const t of ['f32', 'f64']) for (const [wn, way] of Object.entries(WAYS[prop])) for (const [kn, sink] of Object.entries(SINK)) {
    const mk = (s) => (env) => [typeof s === 'function' ? s(env) : s, []].flat(9) && [way(t, [typeof s === 'function' ? s(env) : s].flat(9), { ...env, f: env.bf }), sink(t)].flat(9); const base = { params: [W[t]], results: [W[t]], locals: [t, t, t, 'i32', 'i32'] };
    const arg = (b) => [t === 'f32' ? V.i32(Number(b) | 0) : V.i64(BigInt.asIntN(64, b))];
    for (const [sn, src] of Object.entries(SRC)) yield { ...base, key: `bits:${t}:${wn}:${sn}>${kn}`, body: mk(src(t)), args: BITS[t].map(arg) };
    for (const b of BITS[t]) { yield { ...base, key: `bits:${t}:${wn}:const ${b.toString(16)}>${kn}`, body: mk(k(t, b)), args: [arg(0n)] }; if (kn === 'r' && prop === 'C07') yield { ...base, key: `bits:${t}:${wn}:initial ${b.toString(16)}>${kn}`, body: mk((env) => I.gget(env.consts[t + b])), args: [arg(0n)] }; }
  }
}
export function bitsRun(job) {
  const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; let B = [];
  for (const p of bitsPrograms(job.bits)) { p.key += ':' + job.v; if (job.only && job.only !== p.key) continue; res.nontrivial += p.args.length; B.push(p); }
  if (B.length) runBatch(B, { wasm: wasmPath(job.v), setup, chunk: 400, host: () => new Host() }, res); return { job, ...res };
}
export const bitsBound = `floats moved: ${BITS.f32.length} + ${BITS.f64.length} bit patterns x 4 sources x 3 sinks x every way, bit for bit`;
