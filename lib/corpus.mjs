// Guest corpus of the checkpoint checks: token families (every valid body up to a length)
// and whole programs.  Every guest leaves its observable state in results, memory,
// globals, tables and stderr.
import { I, Mod } from './asm.mjs';
import { V } from './host.mjs';
const op = (n) => I.op(n);
// locals: 0 i32 param, 1 i64 param, 2 f32 param, 3 f64 param, 4 i32, 5 i64, 6 f32, 7 f64, 8 funcref
export const PARAMS = ['i32', 'i64', 'f32', 'f64'], LOCALS = ['i32', 'i64', 'f32', 'f64', 'funcref'];
export const ARGS = [V.i32(5), V.i64(-7n), V.f32(0x40490fdb), V.f64(0xc005bf0a8b145769n)];
const WASI = [['fd_write', ['i32', 'i32', 'i32', 'i32']], ['clock_time_get', ['i32', 'i64', 'i32']], ['random_get', ['i32', 'i32']], ['fd_read', ['i32', 'i32', 'i32', 'i32']], ['args_sizes_get', ['i32', 'i32']], ['sched_yield', []], ['args_get', ['i32', 'i32']], ['environ_sizes_get', ['i32', 'i32']], ['environ_get', ['i32', 'i32']]];
export function setup(m) { // the shared environment of every token body
  const w = {}; for (const [n, p] of WASI) w[n] = m.importFunc('wasi_snapshot_preview1', n, p, ['i32']); w.proc_exit = m.importFunc('wasi_snapshot_preview1', 'proc_exit', ['i32'], []);
  m.memory(1, 4); m.global('i32', true, I.i32(3), 'g0'); m.global('i64', true, I.i64(4), 'g1'); m.global('f32', true, I.f32(1.5), 'g2'); m.global('f64', true, I.f64(2.5), 'g3'); m.global('funcref', true, I.ref_null('funcref'), 'g4'); m.global('funcref', false, I.ref_func(10), 'g5');
  const f = {};
  for (const h of HELP) f[h.n] = m.func({ params: h.p, results: h.r, locals: h.l ?? [], body: [] }); for (const h of HELP) m.setBody(f[h.n], h.b(f));
  m.table('funcref', 6, undefined, 't0'); m.table('funcref', 3, undefined, 't1'); m.elem(I.i32(0), [f.inc, f.dbl, f.nest, f.inc]); m.elemRaw([2, 1, ...I.i32(1), 0x0b, 0, 1, f.dbl]);
  m.datas.push([1, 4, 0xd1, 0xd2, 0xd3, 0xd4]); m.datas.push([0, ...I.i32(64), 0x0b, 8, 16, 0, 0, 0, 3, 0, 0, 0]); m.datas.push([0, ...I.i32(16), 0x0b, 6, 65, 66, 67, 68, 69, 70]); m.dataCount = true;
  return { f, w, ty: { inc: m.type(['i32'], ['i32']) } };
}
const HELP = [
  { n: 'inc', p: ['i32'], r: ['i32'], b: () => [I.get(0), I.i32(1), op('i32.add')] },
  { n: 'dbl', p: ['i32'], r: ['i32'], b: () => [I.get(0), I.get(0), op('i32.add')] },
  { n: 'nest', p: ['i32'], r: ['i32'], l: ['i64', 'f64'], b: (f) => [I.i64(9), I.set(1), I.f64(3), I.set(2), I.i32(100), I.get(0), I.call(f.inc), I.call(f.dbl), op('i32.add'), I.get(1), op('i32.wrap_i64'), op('i32.add'), I.get(2), op('i32.trunc_f64_s'), op('i32.add')] },
  { n: 'rec', p: ['i32'], r: ['i32'], b: (f) => [I.get(0), I.i32(3), op('i32.and'), op('i32.eqz'), I.if('i32', [I.get(0)], [I.get(0), I.get(0), I.i32(1), op('i32.sub'), I.call(f.rec), op('i32.add')])] },
  { n: 'mv', p: ['i32', 'i64'], r: ['i64', 'f32', 'i32'], b: () => [I.get(1), I.i64(1), op('i64.add'), I.f32(0.5), I.get(0)] },
  { n: 'loop', p: ['i32'], r: ['i32'], l: ['i32', 'i32'], b: (f) => [I.i32(3), I.set(1), I.loop('', [I.get(2), I.get(0), I.get(1), op('i32.mul'), op('i32.add'), I.set(2), I.get(1), I.i32(1), op('i32.sub'), I.tee(1), I.br_if(0)]), I.get(2)] },
  { n: 'fcall', p: ['f64', 'f32'], r: ['f64'], b: () => [I.get(0), I.get(1), op('f64.promote_f32'), op('f64.add')] },
  { n: 'eff', p: ['i32'], r: [], b: () => [I.gget(0), I.i32(31), op('i32.mul'), I.get(0), op('i32.add'), I.gset(0), I.i32(200), I.get(0), I.store('i32.store')] },
];
const T = (i, o, b, x) => ({ i, o, b, ...x });
export const A = {
  k: T([], ['i32'], null, { pos: (n) => I.i32(100 + n) }), K: T([], ['i64'], null, { pos: (n) => I.i64(1000 + n) }), s: T([], ['f32'], null, { pos: (n) => I.f32(0.5 + n) }), d: T([], ['f64'], null, { pos: (n) => I.f64(0.25 + n) }),
  x: T([], ['i32'], I.get(0)), X: T([], ['i64'], I.get(1)), xs: T([], ['f32'], I.get(2)), xd: T([], ['f64'], I.get(3)), lx: T([], ['i32'], I.get(4)), lX: T([], ['i64'], I.get(5)), ld: T([], ['f64'], I.get(7)),
  add: T(['i32', 'i32'], ['i32'], op('i32.sub')), ADD: T(['i64', 'i64'], ['i64'], op('i64.sub')), fadd: T(['f32', 'f32'], ['f32'], op('f32.sub')), dadd: T(['f64', 'f64'], ['f64'], op('f64.sub')), lt: T(['i64', 'i64'], ['i32'], op('i64.lt_s')), eqz: T(['i32'], ['i32'], op('i32.eqz')),
  wrap: T(['i64'], ['i32'], op('i32.wrap_i64')), ext: T(['i32'], ['i64'], op('i64.extend_i32_s')), prom: T(['f32'], ['f64'], op('f64.promote_f32')), rein: T(['f64'], ['i64'], op('i64.reinterpret_f64')), conv: T(['i32'], ['f32'], op('f32.convert_i32_s')), dem: T(['f64'], ['f32'], op('f32.demote_f64')), ri: T(['f32'], ['i32'], op('i32.reinterpret_f32')),
  sx: T(['i32'], [], I.set(4)), sX: T(['i64'], [], I.set(5)), ss: T(['f32'], [], I.set(6)), sd: T(['f64'], [], I.set(7)), tx: T(['i32'], ['i32'], I.tee(4)), tX: T(['i64'], ['i64'], I.tee(5)), s0: T(['i32'], [], I.set(0)), drop: T(['*'], [], I.drop()), sel: T(['i32', 'i32', 'i32'], ['i32'], I.select()), SEL: T(['f64', 'f64', 'i32'], ['f64'], I.select()),
  g0: T([], ['i32'], I.gget(0)), G0: T(['i32'], [], I.gset(0)), G1: T(['i64'], [], I.gset(1)), g1: T([], ['i64'], I.gget(1)), G2: T(['f32'], [], I.gset(2)), G3: T(['f64'], [], I.gset(3)),
  // memory
  st: T(['i32'], [], (e, n) => [I.i32(n * 4), I.store('i32.store8', 100).length ? [] : []], { raw: true }), ld8: T(['i32'], ['i32'], I.load('i32.load8_u', 16)), size: T([], ['i32'], I.size()), grow: T(['i32'], ['i32'], I.grow()), one: T([], ['i32'], I.i32(1)), zero: T([], ['i32'], I.i32(0)), two: T([], ['i32'], I.i32(2)),
  sti: T(['i32', 'i32'], [], I.store('i32.store', 128)), stl: T(['i32', 'i64'], [], I.store('i64.store', 136)), far: T([], ['i32'], I.i32(65600)), ldf: T(['i32'], ['i32'], I.load('i32.load', 0)),
  fill: T(['i32'], [], (e, n) => [I.set(4), I.i32(300 + n), I.get(4), I.i32(5), I.mem_fill()]), copy: T([], [], () => [I.i32(320), I.i32(16), I.i32(6), I.mem_copy()]), init: T([], [], () => [I.i32(340), I.i32(1), I.i32(2), I.mem_init(0)]), ddrop: T([], [], I.data_drop(0)), stfar: T(['i32'], [], () => [I.set(4), I.i32(65600), I.get(4), I.store('i32.store')]),
  // calls
  inc: T(['i32'], ['i32'], (e) => I.call(e.f.inc)), nest: T(['i32'], ['i32'], (e) => I.call(e.f.nest)), rec: T(['i32'], ['i32'], (e) => I.call(e.f.rec)), mv: T(['i32', 'i64'], ['i64', 'f32', 'i32'], (e) => I.call(e.f.mv)), lp: T(['i32'], ['i32'], (e) => I.call(e.f.loop)), fc: T(['f64', 'f32'], ['f64'], (e) => I.call(e.f.fcall)), eff: T(['i32'], [], (e) => I.call(e.f.eff)),
  ci: T(['i32'], ['i32'], (e) => [I.i32(1), I.call_indirect(e.ty.inc)]), ci2: T(['i32'], ['i32'], (e) => [I.i32(2), I.call_indirect(e.ty.inc)]), cx: T(['i32', 'i32'], ['i32'], (e) => [I.i32(3), op('i32.and'), I.call_indirect(e.ty.inc)]),
  // references and tables
  nul: T([], ['funcref'], I.ref_null('funcref')), t1: T([], ['funcref'], () => [I.i32(1), I.tget(0)]), t2: T([], ['funcref'], () => [I.i32(2), I.tget(0)]), t4: T([], ['funcref'], () => [I.i32(4), I.tget(0)]), isn: T(['funcref'], ['i32'], I.ref_is_null()), set0: T(['funcref'], [], () => [I.set(8), I.i32(0), I.get(8), I.tset(0)]), set5: T(['funcref'], [], () => [I.set(8), I.i32(5), I.get(8), I.tset(0)]), setb: T(['funcref'], [], () => [I.set(8), I.i32(0), I.get(8), I.tset(1)]), tfl: T(['funcref'], [], () => [I.set(8), I.i32(3), I.get(8), I.i32(2), I.tfill(0)]), rl: T([], ['funcref'], I.get(8)), rs: T(['funcref'], [], I.set(8)), c0: T(['i32'], ['i32'], (e) => [I.i32(0), I.call_indirect(e.ty.inc)]), c4: T(['i32'], ['i32'], (e) => [I.i32(4), I.call_indirect(e.ty.inc)]),
  // host calls; output goes to stderr
  wr: T([], ['i32'], (e) => [I.i32(2), I.i32(64), I.i32(1), I.i32(72), I.call(e.w.fd_write)]), clk: T([], ['i32'], (e) => [I.i32(0), I.i64(0), I.i32(80), I.call(e.w.clock_time_get)]), rnd: T([], ['i32'], (e) => [I.i32(16), I.i32(3), I.call(e.w.random_get)]), rd: T([], ['i32'], (e) => [I.i32(0), I.i32(64), I.i32(1), I.i32(72), I.call(e.w.fd_read)]), asz: T([], ['i32'], (e) => [I.i32(88), I.i32(92), I.call(e.w.args_sizes_get)]), aget: T([], ['i32'], (e) => [I.i32(400), I.i32(500), I.call(e.w.args_get)]), yl: T([], ['i32'], (e) => I.call(e.w.sched_yield)), exit: T(['i32'], [], (e) => [I.i32(63), op('i32.and'), I.call(e.w.proc_exit)]), esz: T([], ['i32'], (e) => [I.i32(600), I.i32(604), I.call(e.w.environ_sizes_get)]),
  // control
  else: { c: 'else', b: [5] }, end: { c: 'end', b: [0xb] }, ret: { c: 'return', b: I.return() }, br0: { c: 'br', d: 0, b: I.br(0) }, br1: { c: 'br', d: 1, b: I.br(1) }, brif0: { c: 'br_if', d: 0, pre: ['i32'], b: I.br_if(0) }, brif1: { c: 'br_if', d: 1, pre: ['i32'], b: I.br_if(1) }, tab: { c: 'br_table', ds: [0], d: 1, pre: ['i32'], b: I.br_table([0], 1) }, trap: { c: 'unreachable', b: I.unreachable() },
  'blk:v': { c: 'block', p: [], r: [], b: [2, 0x40] }, 'blk:i': { c: 'block', p: [], r: ['i32'], b: [2, 0x7f] }, 'if:v': { c: 'if', p: [], r: [], pre: ['i32'], b: [4, 0x40] }, 'if:i': { c: 'if', p: [], r: ['i32'], pre: ['i32'], b: [4, 0x7f] },
  // a loop that runs at most three times: fuel in local 4
  'lp:v': { c: 'loop', p: [], r: [], b: [3, 0x40, ...[I.get(4), I.i32(1), op('i32.add'), I.tee(4), I.i32(3), op('i32.gt_s'), I.if('', [I.unreachable()])].flat()] },
};
delete A.st;
export const FAM = {
  stk: { res: ['i32'], toks: ['k', 'x', 'K', 's', 'add', 'wrap', 'ext', 'conv', 'ri', 'tx', 'lx', 'drop', 'sel'], q: 5, t: 6 },
  wide: { res: ['i64', 'f64'], toks: ['k', 'X', 'xs', 'xd', 'd', 'ADD', 'dadd', 'prom', 'rein', 'ext', 'SEL', 'sd', 'ld', 'tX'], q: 5, t: 6 },
  loc: { res: [], toks: ['x', 'X', 'xs', 'xd', 'sx', 'sX', 'ss', 'sd', 's0', 'lx', 'lX', 'G0', 'G1', 'G2', 'G3', 'g0', 'g1'], q: 4, t: 5 },
  ctl: { res: ['i32'], toks: ['k', 'x', 'blk:i', 'blk:v', 'if:i', 'else', 'end', 'brif0', 'br0', 'br1', 'add', 'eqz'], q: 6, t: 7, nest: 2 },
  lop: { res: ['i32'], toks: ['lp:v', 'lx', 'end', 'blk:v', 'brif0', 'brif1', 'eff', 'k', 'tab', 'if:v', 'two', 'add'], q: 6, t: 7, nest: 2 },
  mem: { res: ['i32'], toks: ['one', 'x', 'far', 'grow', 'size', 'sti', 'ldf', 'fill', 'copy', 'init', 'ddrop', 'stfar', 'add'], q: 4, t: 5 },
  call: { res: ['i32'], toks: ['x', 'k', 'K', 'inc', 'nest', 'rec', 'mv', 'lp', 'ci', 'eff', 'add', 'ri', 'wrap', 'G0'], q: 4, t: 5 },
  ref: { res: ['i32'], toks: ['x', 't1', 't2', 'nul', 'set0', 'set5', 'setb', 'tfl', 'rl', 'rs', 'isn', 'c0', 'c4', 'cx'], q: 5, t: 6 },
  host: { res: ['i32'], toks: ['wr', 'clk', 'rnd', 'rd', 'asz', 'aget', 'yl', 'esz', 'exit', 'k', 'add', 'ldf', 'two', 'drop'], q: 4, t: 5 },
};
export const emit = (p, env) => p.map((t, i) => { const d = A[t]; return d.pos ? d.pos(i) : typeof d.b === 'function' ? d.b(env, i) : d.b; });
// ---- whole programs: [name, build(m) -> nothing; exports main], every one terminates within a few hundred instructions
const seqLoop = (n, ctr, body) => [I.i32(n), I.set(ctr), I.block('', [I.loop('', [I.get(ctr), op('i32.eqz'), I.br_if(1), body, I.get(ctr), I.i32(1), op('i32.sub'), I.set(ctr), I.br(0)])])];
export const PROGS = {
  fib: { args: [V.i32(6)], b: (m) => { const f = m.func({ params: ['i32'], results: ['i32'], body: [], name: 'main' }); m.setBody(f, [I.get(0), I.i32(2), op('i32.lt_s'), I.if('i32', [I.get(0)], [I.get(0), I.i32(1), op('i32.sub'), I.call(f), I.get(0), I.i32(2), op('i32.sub'), I.call(f), op('i32.add')])]); } },
  sieve: { args: [], b: (m) => { m.memory(1); m.func({ results: ['i32'], locals: ['i32', 'i32', 'i32'], name: 'main', body: [I.i32(2), I.set(0), I.loop('', [I.get(0), I.load('i32.load8_u'), op('i32.eqz'), I.if('', [I.get(2), I.i32(1), op('i32.add'), I.set(2), I.get(0), I.set(1), I.loop('', [I.get(1), I.get(0), op('i32.add'), I.tee(1), I.i32(24), op('i32.lt_u'), I.if('', [I.get(1), I.i32(1), I.store('i32.store8'), I.br(1)])])]), I.get(0), I.i32(1), op('i32.add'), I.tee(0), I.i32(24), op('i32.lt_u'), I.br_if(0)]), I.get(2)] }); } },
  sort: { args: [], b: (m) => { m.memory(1); m.data(I.i32(0), [5, 2, 9, 1, 7, 3]); m.func({ results: ['i64'], locals: ['i32', 'i32', 'i32'], name: 'main', body: [seqLoop(5, 0, [seqLoop(5, 1, [I.get(1), I.load('i32.load8_u'), I.get(1), I.i32(1), op('i32.sub'), I.load('i32.load8_u'), op('i32.lt_u'), I.if('', [I.get(1), I.load('i32.load8_u'), I.set(2), I.get(1), I.get(1), I.i32(1), op('i32.sub'), I.load('i32.load8_u'), I.store('i32.store8'), I.get(1), I.i32(1), op('i32.sub'), I.get(2), I.store('i32.store8')])])]), I.i32(0), I.load('i64.load')] }); } },
  machine: { args: [], b: (m) => { // a little bytecode machine: br_table dispatch, table mutated while running
    const t = ['i32', 'i32']; m.memory(1); const ty = m.type(['i32'], ['i32']); m.global('i32', true, I.i32(0)); const a = m.func({ params: ['i32'], results: ['i32'], body: [I.get(0), I.i32(3), op('i32.add')] }), b = m.func({ params: ['i32'], results: ['i32'], body: [I.get(0), I.i32(5), op('i32.mul')] }); m.table('funcref', 4, undefined, 'tab'); m.elem(I.i32(0), [a, b]); m.data(I.i32(0), [0, 1, 2, 0, 3, 1, 0, 2, 4]);
    m.func({ results: ['i32'], locals: t, name: 'main', body: [I.block('', [I.loop('', [I.block('', [I.block('', [I.block('', [I.block('', [I.get(0), I.load('i32.load8_u'), I.br_table([0, 1, 2, 3], 5)]), I.get(1), I.i32(0), I.call_indirect(ty), I.set(1), I.br(2)]), I.get(1), I.i32(1), I.call_indirect(ty), I.set(1), I.br(1)]), I.i32(2), I.i32(0), I.tget(0), I.tset(0), I.i32(0), I.i32(1), I.tget(0), I.tset(0), I.i32(1), I.i32(2), I.tget(0), I.tset(0), I.br(0)]), I.gget(0), I.get(1), op('i32.add'), I.gset(0), I.get(0), I.i32(1), op('i32.add'), I.set(0), I.br(0)])]), I.get(1), I.gget(0), op('i32.add')] });
  } },
  grower: { args: [], b: (m) => { m.memory(1, 5); m.func({ results: ['i32'], locals: ['i32', 'i32'], name: 'main', body: [seqLoop(5, 0, [I.size(), I.i32(65536), op('i32.mul'), I.i32(4), op('i32.sub'), I.get(0), I.store('i32.store'), I.i32(1), I.grow(), I.get(1), op('i32.add'), I.set(1)]), I.get(1), I.i32(65532), I.load('i32.load'), op('i32.add'), I.i32(131068), I.load('i32.load'), op('i32.add')] }); } },
  printer: { args: [V.i32(1234)], b: (m) => { const w = m.importFunc('wasi_snapshot_preview1', 'fd_write', ['i32', 'i32', 'i32', 'i32'], ['i32']); m.memory(1); m.func({ params: ['i32'], results: ['i32'], locals: ['i32'], name: 'main', body: [I.loop('', [I.i32(8), I.get(0), I.i32(10), op('i32.rem_u'), I.i32(48), op('i32.add'), I.store('i32.store8'), I.i32(0), I.i32(8), I.store('i32.store'), I.i32(4), I.i32(1), I.store('i32.store'), I.i32(2), I.i32(0), I.i32(1), I.i32(12), I.call(w), I.get(1), op('i32.add'), I.i32(12), I.load('i32.load'), op('i32.add'), I.set(1), I.get(0), I.i32(10), op('i32.div_u'), I.tee(0), I.br_if(0)]), I.get(1)] }); } },
  deep: { args: [V.i32(12)], b: (m) => { const f = m.func({ params: ['i32', 'i64', 'f64', 'f32'], results: ['i64', 'f64'], locals: ['i32', 'f32'], body: [] }); m.setBody(f, [I.get(0), op('i32.eqz'), I.if('', [I.get(1), I.get(2), I.return()]), I.get(3), I.set(5), I.get(0), I.i32(1), op('i32.sub'), I.get(1), I.get(0), op('i64.extend_i32_s'), op('i64.add'), I.get(2), I.get(3), op('f64.promote_f32'), op('f64.add'), I.get(5), I.f32(0.25), op('f32.sub'), I.call(f)]); m.func({ params: ['i32'], results: ['i64', 'f64'], body: [I.get(0), I.i64(5), I.f64(0.5), I.f32(3), I.call(f)], name: 'main' }); } },
  ack: { args: [V.i32(2), V.i32(1)], b: (m) => { const f = m.func({ params: ['i32', 'i32'], results: ['i32'], body: [], name: 'main' }); m.setBody(f, [I.get(0), op('i32.eqz'), I.if('i32', [I.get(1), I.i32(1), op('i32.add')], [I.get(1), op('i32.eqz'), I.if('i32', [I.get(0), I.i32(1), op('i32.sub'), I.i32(1), I.call(f)], [I.get(0), I.i32(1), op('i32.sub'), I.get(0), I.get(1), I.i32(1), op('i32.sub'), I.call(f), I.call(f)])])]); } },
  nomem: { args: [V.i64(40)], b: (m) => { m.global('i64', true, I.i64(0)); m.func({ params: ['i64'], results: ['i64'], name: 'main', body: [I.loop('', [I.gget(0), I.get(0), op('i64.add'), I.gset(0), I.get(0), I.i64(1), op('i64.sub'), I.set(0), I.get(0), I.i64(30), op('i64.ne'), I.br_if(0)]), I.gget(0)] }); } },
};
export function progModule(name) { const m = new Mod(); PROGS[name].b(m); return m.build(); }
