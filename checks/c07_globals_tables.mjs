// C07: globals, tables and references. Every valid body over alphabets of global, table
// and reference instructions, with callees that change them; the final state is observed.
import { bitsPlan, bitsRun, bitsBound } from '../lib/bits.mjs';
import { I } from '../lib/asm.mjs';
import { V } from '../lib/host.mjs';
import { magPlan, magBound, magRun } from '../lib/mags.mjs';
import { wasmPath } from '../lib/build.mjs';
import { runBatch } from '../lib/diff.mjs';
import { bodies, shards, stateAfter } from '../lib/gen.mjs';

export const variants = ['tco', 'legacy'];
const fl = (b) => b.flat(Infinity);
const A = { end: { c: 'end', b: [0xb] }, else: { c: 'else', b: [5] }, 'block:v': { c: 'block', p: [], r: [], b: [2, 0x40] }, 'block:r': { c: 'block', p: [], r: ['funcref'], b: [2, 0x70] }, 'if:r': { c: 'if', p: [], r: ['funcref'], pre: ['i32'], b: [4, 0x70] }, 'if:v': { c: 'if', p: [], r: [], pre: ['i32'], b: [4, 0x40] }, br0: { c: 'br', d: 0, b: I.br(0) }, rbrif0: { c: 'br_if', d: 0, pre: ['i32'], b: I.br_if(0) }, ret: { c: 'return', b: I.return() },
  drop: { i: ['*'], o: [], b: I.drop() }, k: { i: [], o: ['i32'], pos: (n) => I.i32(100 + n) }, K: { i: [], o: ['i64'], pos: (n) => I.i64(200 + n) }, S: { i: [], o: ['f32'], pos: (n) => I.f32(n + 0.5) }, D: { i: [], o: ['f64'], pos: (n) => I.f64(n + 0.25) },
  0: { i: [], o: ['i32'], b: I.i32(0) }, 1: { i: [], o: ['i32'], b: I.i32(1) }, 2: { i: [], o: ['i32'], b: I.i32(2) }, 3: { i: [], o: ['i32'], b: I.i32(3) }, x: { i: [], o: ['i32'], b: I.get(0) },
  add: { i: ['i32', 'i32'], o: ['i32'], b: I.op('i32.sub') }, Kadd: { i: ['i64', 'i64'], o: ['i64'], b: I.op('i64.sub') }, Sadd: { i: ['f32', 'f32'], o: ['f32'], b: I.op('f32.sub') }, Dadd: { i: ['f64', 'f64'], o: ['f64'], b: I.op('f64.sub') },
  wrap: { i: ['i64'], o: ['i32'], b: I.op('i32.wrap_i64') }, prom: { i: ['f32'], o: ['f64'], b: I.op('f64.promote_f32') },
  sx: { i: ['i32'], o: [], b: I.set(0) }, tx: { i: ['i32'], o: ['i32'], b: I.tee(0) }, eqz: { i: ['i32'], o: ['i32'], b: I.op('i32.eqz') }, acc: { i: ['i32'], o: [], acc: true },
  null: { i: [], o: ['funcref'], b: I.ref_null('funcref') }, isn: { i: ['funcref'], o: ['i32'], b: I.ref_is_null() }, rl: { i: [], o: ['funcref'], b: I.get(1) }, rs: { i: ['funcref'], o: [], b: I.set(1) }, rt: { i: ['funcref'], o: ['funcref'], b: I.tee(1) }, r2: { i: [], o: ['funcref'], b: I.get(3) }, rs2: { i: ['funcref'], o: [], b: I.set(3) },
  selr: { i: ['funcref', 'funcref', 'i32'], o: ['funcref'], b: I.select_t('funcref') }, xnull: { i: [], o: ['externref'], b: I.ref_null('externref') }, xisn: { i: ['externref'], o: ['i32'], b: I.ref_is_null() }, xl: { i: [], o: ['externref'], b: I.get(2) }, xs: { i: ['externref'], o: [], b: I.set(2) } };
for (const [n, t] of [['a', 'i32'], ['b', 'i64'], ['c', 'f32'], ['d', 'f64'], ['e', 'i32'], ['K1', 'i64']]) { A['g' + n] = { i: [], o: [t], g: n, op: I.gget }; A['s' + n] = { i: [t], o: [], g: n, op: I.gset }; }
for (const t of [0, 1]) { A['tg' + t] = { i: ['i32'], o: ['funcref'], b: I.tget(t) }; A['ts' + t] = { i: ['i32', 'funcref'], o: [], b: I.tset(t) }; A['tf' + t] = { i: ['i32', 'funcref', 'i32'], o: [], b: I.tfill(t) }; A['ci' + t] = { i: ['i32'], o: ['i32'], ci: t }; }
A.xg = { i: ['i32'], o: ['externref'], b: I.tget(3) }; A.xts = { i: ['i32', 'externref'], o: [], b: I.tset(3) };
for (const [n, i, o] of [['mod', [], []], ['modg', ['i32'], ['i32']], ['idr', ['funcref'], ['funcref']], ['sw', ['funcref', 'i32'], ['i32', 'funcref']], ['mt', [], []], ['getr', ['i32'], ['funcref']]]) A['c' + n] = { i, o, call: n };
// statement-sized table tokens, so that longer histories fit
A['T01'] = { i: [], o: [], b: fl([I.i32(0), I.i32(1), I.tget(0), I.tset(0)]) }; A['T1x'] = { i: [], o: [], b: fl([I.get(0), I.i32(2), I.tget(1), I.tset(0)]) }; A['Tn'] = { i: [], o: [], b: fl([I.i32(2), I.ref_null('funcref'), I.tset(0)]) }; A['Tp'] = { i: [], o: [], b: fl([I.i32(1), I.get(1), I.tset(1)]) };
A['Tf'] = { i: [], o: [], b: fl([I.i32(0), I.i32(3), I.tget(1), I.i32(3), I.tfill(0)]) }; A['Tf0'] = { i: [], o: [], b: fl([I.i32(4), I.get(1), I.i32(0), I.tfill(0)]) }; A['Tl'] = { i: [], o: [], b: fl([I.i32(1), I.tget(0), I.set(1)]) }; A['Tc'] = { i: [], o: [], stmtci: 0 }; A['Tb'] = { i: [], o: [], stmtci: 1 }; A['Ti'] = { i: [], o: [], stmtn: true };
const FAM = {
  glob: { res: [], toks: ['ga', 'sa', 'gb', 'sb', 'ge', 'se', 'k', 'K', 'add', 'Kadd', 'wrap', 'cmod', 'sx', 'x'], q: 7, t: 8 },
  globf: { res: [], toks: ['gc', 'sc', 'gd', 'sd', 'S', 'D', 'Sadd', 'Dadd', 'prom', 'cmod', 'drop'], q: 7, t: 8 },
  globr: { res: ['i32'], toks: ['ga', 'sa', 'gK1', 'wrap', 'x', 'sx', 'tx', 'k', 'add', 'cmodg', 'eqz', 'if:v', 'end'], q: 7, t: 8 },
  ref: { res: ['i32'], toks: ['0', '2', 'null', 'isn', 'rl', 'rs', 'rt', 'tg0', 'ts0', 'selr', 'cidr', 'drop'], q: 7, t: 8 },
  refl: { res: ['funcref'], toks: ['1', 'x', 'null', 'isn', 'rl', 'rs', 'r2', 'rs2', 'tg1', 'csw', 'cgetr', 'acc', 'selr'], q: 7, t: 8 },
  refc: { res: ['funcref'], toks: ['x', 'null', 'rl', 'rs', 'block:r', 'if:r', 'else', 'end', 'br0', 'rbrif0', 'ret', 'tg0'], q: 7, t: 8 },
  tab: { res: [], toks: ['0', '1', '3', 'tg0', 'ts0', 'tg1', 'ts1', 'tf0', 'ci0', 'acc', 'null', 'rl'], q: 7, t: 8 },
  tabs: { res: [], toks: ['T01', 'T1x', 'Tn', 'Tp', 'Tf', 'Tf0', 'Tl', 'Tc', 'Tb', 'Ti', 'cmt'], q: 6, t: 7 },
  ext: { res: ['i32'], toks: ['0', '1', 'xnull', 'xisn', 'xl', 'xs', 'xg', 'xts', 'tg0', 'isn', 'add'], q: 7, t: 8 },
};
const ACC = fl([I.gget(0), I.i32(31), I.op('i32.mul'), I.op('i32.add'), I.gset(0)]);
function setup(m) {
  m.memory(1); m.global('i32', true, I.i32(1), 'acc');
  const g = { a: m.global('i32', true, I.i32(5), 'a'), b: m.global('i64', true, I.i64(6), 'b'), c: m.global('f32', true, I.f32(7.5), 'c'), d: m.global('f64', true, I.f64(8.25), 'd'), e: m.global('i32', true, I.i32(-9), 'e'), K1: m.global('i64', false, I.i64(0x123456789n), 'k1') };
  m.table('funcref', 4, undefined, 't0'); m.table('funcref', 4, 8, 't1'); m.table('funcref', 4, undefined, 'src'); m.table('externref', 3, undefined, 'xt');
  const fs = [1, 2, 3].map((k) => m.func({ results: ['i32'], body: fl([I.gget(0), I.i32(k), I.op('i32.add'), I.gset(0), I.i32(1000 * k)]) })); m.elemRaw([2, 2, ...I.i32(1), 0x0b, 0, 3, ...fs.flatMap((f) => [f])]);
  const h = {}; const def = (n, params, results, body, locals) => { h[n] = m.func({ params, results, body: fl(body), locals: locals ?? [] }); };
  def('mod', [], [], [I.gget(g.a), I.i32(3), I.op('i32.mul'), I.gset(g.a), I.gget(g.b), I.i64(5), I.op('i64.add'), I.gset(g.b), I.gget(g.c), I.f32(1), I.op('f32.add'), I.gset(g.c), I.gget(g.d), I.f64(2), I.op('f64.mul'), I.gset(g.d)]);
  def('modg', ['i32'], ['i32'], [I.get(0), I.gget(g.a), I.op('i32.add'), I.gset(g.a), I.gget(g.a)]); def('idr', ['funcref'], ['funcref'], [I.get(0)]); def('sw', ['funcref', 'i32'], ['i32', 'funcref'], [I.get(1), I.get(0)]); def('mt', [], [], [I.i32(3), I.i32(1), I.tget(0), I.tset(0)]); def('getr', ['i32'], ['funcref'], [I.get(0), I.i32(3), I.op('i32.and'), I.tget(1)]);
  // t0 = t1 reversed shifted, from the pristine table; xt has only nulls
  const put = (t, i, s) => [I.i32(i), I.i32(s), I.tget(2), I.tset(t)];
  m.func({ name: 'reset', body: fl([I.i32(1), I.gset(0), I.i32(5), I.gset(g.a), I.i64(6), I.gset(g.b), I.f32(7.5), I.gset(g.c), I.f64(8.25), I.gset(g.d), I.i32(-9), I.gset(g.e), put(0, 0, 1), put(0, 1, 2), put(0, 2, 0), put(0, 3, 3), put(1, 0, 0), put(1, 1, 3), put(1, 2, 1), put(1, 3, 2)]) });
  const ty = m.type([], ['i32']);
  // what every table entry does, and all globals
  const look = (t) => [0, 1, 2, 3].flatMap((i) => [I.get(0), I.i32(7), I.op('i32.mul'), I.i32(i), I.tget(t), I.ref_is_null(), I.if('i32', [I.i32(1)], fl([I.i32(i), I.call_indirect(ty, t)])), I.op('i32.add'), I.set(0)]);
  m.func({ name: 'observe', results: ['i32', 'i32', 'i64', 'f32', 'f64', 'i32'], locals: ['i32'], body: fl([look(0), look(1), I.get(0), I.gget(g.a), I.gget(g.b), I.gget(g.c), I.gget(g.d), I.gget(g.e)]) });
  return { reset: 'reset', globals: [{ name: 'acc', t: 'i32' }], observe: { name: 'observe', results: ['i32', 'i32', 'i64', 'f32', 'f64', 'i32'] }, env: { g, h, ty } };
}
const emit = (d, n, e) => (d.pos ? d.pos(n) : d.g ? d.op(e.g[d.g]) : d.acc ? ACC : d.call ? I.call(e.h[d.call]) : d.ci !== undefined ? I.call_indirect(e.ty, d.ci) : d.stmtci !== undefined ? fl([I.get(0), I.tget(d.stmtci), I.ref_is_null(), I.if('', [], fl([I.get(0), I.call_indirect(e.ty, d.stmtci), ACC]))]) : d.stmtn ? fl([I.get(1), I.ref_is_null(), I.i32(1), I.tget(0), I.ref_is_null(), I.op('i32.sub'), ACC]) : d.b);
export const meta = {
  level: 'exploration', rule: 'one execution = one valid body over a global/table/reference alphabet, run from the same state in chiwawa and in V8; compared: outcome, results, every global, every entry of both tables (nullness and what calling it does); non-trivial = distinct bodies',
  bounds: (t) => [bitsBound, magBound('C07'), `large: tables of ${TN} entries; fill, set, get and call at ${MG.length} places and sizes, every entry looked at; the same of tables of ${HN} entries around powers of two`, Object.entries(FAM).map(([k, f]) => `${k}: every valid body of <= ${t === 'thorough' ? f.t : f.q} tokens over {${f.toks.join(' ')}}`)].flat(),
  assumptions: ['V8 implements the WebAssembly table, reference and global semantics', 'ref.func, table.size/grow/copy/init and elem.drop are not implemented by chiwawa and are rejected when parsed (C19)'],
};
async function plan0(tier) {
  const jobs = []; const T = tier === 'thorough';
  for (const v of variants) for (const [k, f] of Object.entries(FAM)) { const D = (T ? f.t : f.q) - (v === 'tco' ? 0 : 1); jobs.push({ fam: k, v, depth: 1, prefix: [] }); for (const p of shards(A, f.toks, 2, D, { results: f.res, nest: 2, maxStack: 4 })) jobs.push({ fam: k, v, depth: D, prefix: p }); }
  return jobs;
}
// ---- a table of many entries: fills, sets, gets and calls at every magnitude; every entry looked at afterwards
const TN = 3000, NF = 16; const MG = [...new Set([0, 1, 2, 3, 7, 8, 9, ...[4, 5, 6, 7, 8, 9, 10, 11].flatMap((k) => [2 ** k - 1, 2 ** k, 2 ** k + 1]), 1000, 2500, TN - 2, TN - 1, TN])];
function largeSetup(m) {
  m.memory(1); const fs = Array.from({ length: NF }, (_, i) => m.func({ results: ['i32'], body: I.i32(101 + i) })); const ty = m.type([], ['i32']); m.table('funcref', TN, undefined, 'a'); m.table('funcref', TN, undefined, 'b'); m.table('externref', TN, undefined, 'x');
  const at = Array.from({ length: TN }, (_, i) => fs[(i * 7 + (i >> 8)) % NF]); m.elem(I.i32(0), at); m.elemRaw([2, 1, ...I.i32(0), 0x0b, 0, ...lebn(TN), ...at]);
  const loop = (b) => I.loop('', fl([b, I.get(0), I.i32(1), I.op('i32.add'), I.tee(0), I.i32(TN), I.op('i32.lt_u'), I.br_if(0)]));
  m.func({ locals: ['i32'], name: 'reset', body: loop([I.get(0), I.get(0), I.tget(1), I.tset(0)]) });
  const hash = m.func({ locals: ['i32', 'i32'], results: ['i32'], body: fl([loop([I.get(1), I.i32(31), I.op('i32.mul'), I.get(0), I.tget(0), I.ref_is_null(), I.if('i32', I.i32(7), fl([I.get(0), I.call_indirect(ty, 0)])), I.op('i32.add'), I.set(1)]), I.get(1)]) });
  return { reset: 'reset', env: { hash, ty } };
}
const lebn = (n) => { const o = []; do { o.push((n & 127) | (n > 127 ? 128 : 0)); n >>= 7; } while (n); return o; };
function* largePrograms() {
  const a2 = (x, y) => [V.i32(x), V.i32(y)]; const pairs = MG.flatMap((d) => MG.map((n) => [d, n])); const P = ['i32', 'i32'], R = ['i32'];
  for (const [nm, ref] of [['null', () => I.ref_null('funcref')], ['function', () => [I.i32(5), I.tget(1)]]]) { yield { key: `large:fill ${nm}`, params: P, results: R, body: (e) => fl([I.get(0), ref(), I.get(1), I.tfill(0), I.call(e.hash)]), args: pairs.filter(([d, n]) => d + n <= TN).map(([d, n]) => a2(d, n)) };
    for (const [d, n] of pairs) if (d + n <= TN) yield { key: `large:fill ${nm} ${d} ${n} const`, results: R, body: (e) => fl([I.i32(d), ref(), I.i32(n), I.tfill(0), I.call(e.hash)]) }; }
  yield { key: 'large:move', params: P, results: R, body: (e) => fl([I.get(0), I.get(1), I.tget(1), I.tset(0), I.call(e.hash)]), args: pairs.filter(([d, n]) => d < TN && n < TN).map(([d, n]) => a2(d, n)) };
  yield { key: 'large:call', params: P, results: R, body: (e) => fl([I.get(0), I.call_indirect(e.ty, 0), I.get(1), I.call_indirect(e.ty, 1), I.op('i32.sub')]), args: pairs.map(([d, n]) => a2(d, n)) };
  for (const d of MG) yield { key: `large:set ${d} const`, results: R, body: (e) => fl([I.i32(d), I.ref_null('funcref'), I.tset(0), I.i32(d), I.tget(1), I.ref_is_null(), I.call(e.hash), I.op('i32.add')]) };
}
// ---- tables of more entries than 16 bits count: around every power of two, without looking at every entry
const HN = 140000; const MH = [0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 70000, 98304, 131071, 131072, 131073, HN - 1, HN];
function hugeSetup(m) { m.memory(1); const f = m.func({ results: ['i32'], body: I.i32(101) }), g = m.func({ results: ['i32'], body: I.i32(103) }); const ty = m.type([], ['i32']); m.table('funcref', HN, undefined, 'a'); m.table('funcref', 2, undefined, 'b'); m.elem(I.i32(0), [f]); m.elemRaw([2, 1, ...I.i32(0), 0x0b, 0, 2, f, g]);
  const look = m.func({ params: ['i32'], results: ['i32'], body: fl([I.get(0), I.tget(0), I.ref_is_null(), I.if('i32', I.i32(7), fl([I.get(0), I.call_indirect(ty, 0)]))]) });
  const hash = m.func({ locals: ['i32'], results: ['i32'], body: fl([MH.flatMap((x) => [x - 1, x, x + 1]).filter((x) => x >= 0 && x < HN).map((x) => [I.get(0), I.i32(31), I.op('i32.mul'), I.i32(x), I.call(look), I.op('i32.add'), I.set(0)]), I.get(0)]) });
  return { env: { hash, ty } }; }
function* hugePrograms() {
  const a2 = (x, y) => [V.i32(x), V.i32(y)]; const pairs = MH.flatMap((d) => MH.filter((n) => d + n <= HN).map((n) => [d, n])); const P = ['i32', 'i32'], R = ['i32']; const all = fl([I.i32(0), I.i32(0), I.tget(1), I.i32(HN), I.tfill(0)]);
  for (const [nm, ref] of [['null', I.ref_null('funcref')], ['function', fl([I.i32(1), I.tget(1)])]]) { yield { key: `huge:fill ${nm}`, params: P, results: R, body: (e) => fl([all, I.get(0), ref, I.get(1), I.tfill(0), I.call(e.hash)]), args: pairs.map(([d, n]) => a2(d, n)) };
    for (const [d, n] of pairs) yield { key: `huge:fill ${nm} ${d} ${n} const`, results: R, body: (e) => fl([all, I.i32(d), ref, I.i32(n), I.tfill(0), I.call(e.hash)]) };
    yield { key: `huge:set ${nm}`, params: ['i32'], results: R, body: (e) => fl([all, I.get(0), ref, I.tset(0), I.call(e.hash)]), args: MH.filter((d) => d < HN).map((d) => [V.i32(d)]) }; for (const d of MH) if (d < HN) yield { key: `huge:set ${nm} ${d} const`, results: R, body: (e) => fl([all, I.i32(d), ref, I.tset(0), I.call(e.hash)]) }; }
  yield { key: 'huge:call', params: ['i32'], results: R, body: (e) => fl([all, I.get(0), I.call_indirect(e.ty, 0)]), args: MH.filter((d) => d < HN).map((d) => [V.i32(d)]) };
}
export async function plan(tier) { return [...bitsPlan('C07'), ...magPlan('C07'), ...variants.flatMap((v) => [0, 1, 2, 3].map((i) => ({ fam: 'huge', i, v }))), ...variants.flatMap((v) => [0, 1, 2, 3].map((i) => ({ fam: 'large', i, v }))), ...(await plan0(tier))]; }
export async function run(job) {
  if (job.bits) return bitsRun(job);
  if (job.mag) return magRun('C07', job);
  if (job.fam === 'large' || job.fam === 'huge') { const huge = job.fam === 'huge'; const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; let k = 0; const L = []; for (const p of huge ? hugePrograms() : largePrograms()) { if (p.args) { const part = p.args.filter((_, q) => q % 4 === job.i); L.push({ ...p, key: `${p.key}:${job.i}:${job.v}`, args: part }); } else if (k++ % 4 === job.i) L.push({ ...p, key: `${p.key}:${job.v}` }); } const todo = L.filter((p) => !job.only || job.only === p.key); runBatch(todo, { wasm: wasmPath(job.v), chunk: 200, setup: huge ? hugeSetup : largeSetup }, res); res.nontrivial = res.evals; return { job, ...res }; }
  const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; let P = []; const f = FAM[job.fam]; const opt = { results: f.res, nest: 2, maxStack: 4 };
  const dopt = { wasm: wasmPath(job.v), chunk: /tab|ref|ext/.test(job.fam) ? 60 : 400, setup };
  const flush = () => { if (P.length) runBatch(P, dopt, res); P = []; };
  for (const p of bodies(A, f.toks, job.depth, opt, job.prefix, stateAfter(A, job.prefix, opt))) {
    if (job.prefix.length && p.length < 2) continue; const key = `${job.fam}:${p.join(' ')}:${job.v}`; if (job.only && job.only !== key) continue;
    // the body is a function (i32, funcref, externref) with one funcref local; a driver calls it with a live reference, then with null
    const refres = f.res[0] === 'funcref'; const post = refres ? I.ref_is_null() : [];
    P.push({ key, params: ['i32'], results: refres ? ['i32'] : f.res, helpers: [{ params: ['i32', 'funcref', 'externref'], results: f.res, locals: /^ref/.test(job.fam) && p.some((t) => /r2|rs2/.test(t)) ? ['funcref'] : [], body: (e) => fl(p.map((t, i) => emit(A[t], i, e))) }],
      body: (e) => fl([I.get(0), I.i32(2), I.tget(2), I.ref_null('externref'), I.call(e.f[0]), post]), args: [[V.i32(1)]] }); res.nontrivial++;
    if (P.length >= 400) flush();
  }
  flush(); return { job, ...res };
}
