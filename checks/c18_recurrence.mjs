// C18: space does not grow with time. Guests that run for ever are built from every
// bounded nesting; the interpreter's state is captured (by its own checkpoint) at the head
// of consecutive turns. Where the guest's state recurs, the interpreter's must recur too:
// the reachable states then form a lasso, which settles every later turn. What an image
// does not hold (its heap) is watched over a long run.
import { I, Mod, OPS, LOADS, STORES } from '../lib/asm.mjs';
import { wasmPath } from '../lib/build.mjs';
import { Lab, show } from '../lib/ckpt.mjs';
import { Chiwawa, V } from '../lib/host.mjs';
import { Host } from '../lib/wasi.mjs';
import { sgFew } from '../lib/between.mjs';
import * as watch from '../lib/watch.mjs';

const LV = ['tco-fat', 'legacy', 'tco-obs-fat', 'legacy-obs']; export const variants = ['tco', ...LV];
const fl = (b) => b.flat(Infinity); const op = (n) => I.op(n); const WS = 'wasi_snapshot_preview1';
const WRAP = ['block', 'vblock', 'loop', 'if', 'else', 'call', 'table', 'multi', 'rec'];
const paths = (d) => { const r = [[]]; let l = [[]]; for (let i = 0; i < d; i++) { l = l.flatMap((p) => WRAP.map((w) => [...p, w])); r.push(...l); } return r; };
// labels inside the innermost function of a path, innermost first
const labels = (ws) => { let ls = [{ k: 'turn', n: 0 }]; for (const w of ws) { if (['call', 'table', 'multi', 'rec'].includes(w)) ls = [{ k: 'fn', n: w === 'multi' ? 2 : 0 }]; else if (w === 'loop') ls = [{ k: 'loop', n: 0 }, { k: 'out', n: 0 }, ...ls]; else ls = [{ k: 'blk', n: w === 'vblock' ? 1 : 0 }, ...ls]; } return ls; };
const leaves = (ws) => { const ls = labels(ws); const r = ['none', 'call', 'grow', 'wasi']; ls.forEach((l, d) => { r.push('br ' + d, 'br_if ' + d); }); if (ls.length > 1) r.push('br_table'); if (ls[ls.length - 1].k === 'fn') r.push('return'); return r; };
// g0: turn counter modulo 6 (the guest's own state recurs every 6 turns)
export function guest(ws, leaf, cond) {
  const m = new Mod(); const y = m.importFunc(WS, 'sched_yield', [], ['i32']); m.memory(1, 1); m.table('funcref', 8); const ty = m.type([], []); const g = m.global('i32', true, I.i32(0)); const tab = [];
  const turn = (k) => fl([I.gget(g), I.i32(k), op('i32.rem_u')]); const leafFn = m.func({ params: ['i32', 'i64'], results: ['i64', 'i32'], locals: ['f64', 'f32', 'funcref', 'externref'], body: [I.i32(0), I.tget(0), I.set(4), I.f32(1), I.set(3), I.get(1), I.get(0), I.i32(1), op('i32.add')] });
  const vals = (n) => [[], [I.i32(4)], [I.i32(5), I.i64(6)]][n];
  const ls = labels(ws); const act = () => { if (leaf === 'none') return []; if (leaf === 'call') return fl([I.i32(1), I.i64(2), I.call(leafFn), I.drop(), I.drop()]); if (leaf === 'grow') return fl([I.i32(0), I.grow(), I.i32(1), I.grow(), I.drop(), I.drop()]); if (leaf === 'wasi') return fl([I.call(y), I.drop()]);
    if (leaf === 'return') return fl([vals(ls[ls.length - 1].n), I.return()]); if (leaf === 'br_table') { const n = ls[0].n; const same = ls.map((l, d) => [l, d]).filter(([l]) => l.n === n && l.k !== 'turn').map(([, d]) => d); if (!same.length) return []; return fl([vals(n), turn(6), I.br_table(same, same[0])]); }
    const [o, d] = leaf.split(' '); const l = ls[Number(d)]; if (o === 'br') return fl([vals(l.n), I.br(Number(d))]); return fl([vals(l.n), turn(3), I.br_if(Number(d)), Array(l.n).fill(0).map(() => I.drop())]); };
  // the leaf behind a condition lives in a block of its own only when it does not branch
  const leafCode = () => { if (!cond) return act(); const k = { 'br': 1, 'br_if': 1, 'br_table': 1, return: 1 }[leaf.split(' ')[0]]; if (!k) return fl([turn(2), I.if('', act())]); if (leaf === 'return') return fl([turn(2), I.if('', act())]); if (leaf === 'br_table') return act(); const [o, d] = leaf.split(' '); const l = ls[Number(d)]; return fl([turn(2), I.if('', o === 'br' ? fl([vals(l.n), I.br(Number(d) + 1)]) : fl([vals(l.n), turn(3), I.br_if(Number(d) + 1), Array(l.n).fill(0).map(() => I.drop())]))]); };
  // each function keeps a local per loop; noise: operands beneath, values dropped after
  const fns = []; const newFn = (sig) => { const f = m.func({ ...sig, body: [] }); const rec = { f, locals: [], np: (sig.params ?? []).length }; fns.push(rec); return rec; };
  const build = (k, fn) => { if (k === ws.length) return leafCode(); const w = ws[k];
    if (w === 'block') return I.block('', fl([build(k + 1, fn), I.nop()]));
    if (w === 'vblock') return fl([I.i32(8), I.block('i32', fl([build(k + 1, fn), I.i32(3)])), op('i32.add'), I.drop()]);
    if (w === 'if') return fl([turn(2), I.if('', build(k + 1, fn))]); if (w === 'else') return fl([turn(3), I.if('', I.nop(), build(k + 1, fn))]);
    if (w === 'loop') { const i = fn.np + fn.locals.length; fn.locals.push('i32'); return fl([I.i32(0), I.set(i), I.block('', I.loop('', fl([I.get(i), I.i32(1), op('i32.add'), I.tee(i), I.i32(3), op('i32.gt_u'), I.br_if(1), build(k + 1, fn), I.br(0)])))]); }
    if (w === 'call' || w === 'table') { const q = newFn({ params: [], results: [] }); q.body = fl([build(k + 1, q)]); if (w === 'call') return fl([I.i64(1), I.call(q.f), I.drop()]); tab.push(q.f); return fl([I.i32(tab.length - 1), I.call_indirect(ty)]); }
    if (w === 'multi') { const q = newFn({ params: ['i64', 'f64', 'i32'], results: ['i32', 'i64'] }); q.body = fl([build(k + 1, q), I.get(2), I.get(0)]); return fl([I.i64(7), I.f64(1.5), turn(4), I.call(q.f), I.drop(), I.drop()]); }
    if (w === 'rec') { const q = newFn({ params: ['i32'], results: [] }); q.body = fl([I.get(0), I.if('', fl([I.get(0), I.i32(1), op('i32.sub'), I.call(q.f)])), build(k + 1, q)]); return fl([I.i32(2), I.call(q.f)]); }
    throw new Error(w); };
  const main = newFn({ params: [], results: [] }); m.exportFunc('main', main.f);
  main.body = fl([I.loop('', fl([I.gget(g), I.i32(1), op('i32.add'), I.i32(6), op('i32.rem_u'), I.gset(g), I.call(y), I.drop(), build(0, main), I.br(0)]))]);
  for (const q of fns) m.setBody(q.f, q.body, q.locals); if (tab.length) m.elem(I.i32(0), tab); return m.build();
}
// ---- every instruction by itself in a long loop: no handler may hold on to the host's stack or heap
const TY = ['i32', 'i64', 'f32', 'f64']; const ONE = (t) => (t === 'i32' ? I.i32(5) : t === 'i64' ? I.i64(5) : t === 'f32' ? I.f32(5) : t === 'f64' ? I.f64(5) : I.ref_null(t));
// locals: 0 limit, 1 counter, 2.. one of each type; each entry leaves the stack as it was
const LI = { i32: 2, i64: 3, f32: 4, f64: 5, funcref: 6, externref: 7 };
export const LONG = (() => { const r = {}; const src = { const: (t) => ONE(t), local: (t) => I.get(LI[t]), reg: (t) => (t.endsWith('ref') ? [I.i32(1), I.tget(t === 'funcref' ? 0 : 1)] : [ONE(t), I.op(t[0] === 'i' ? t + '.clz' : t + '.abs')]) };
  for (const o of Object.values(OPS)) for (const [k, f] of Object.entries(src)) { r[`${o.name} ${k}`] = () => [o.in.map((t, i) => (/div|rem/.test(o.name) && i === 1 && k === 'local' ? ONE(t) : f(t))), op(o.name), I.drop()]; r[`${o.name} ${k} set`] = () => [o.in.map((t, i) => (/div|rem/.test(o.name) && i === 1 && k === 'local' ? ONE(t) : f(t))), op(o.name), I.set(LI[o.out[0]] + 6)]; }
  for (const o of Object.keys(LOADS)) for (const k of ['const', 'local']) r[`${o} ${k}`] = () => [src[k]('i32'), I.load(o), I.drop()];
  for (const o of Object.keys(STORES)) for (const k of Object.keys(src)) r[`${o} ${k}`] = () => [src[k]('i32'), src[k](o.slice(0, 3)), I.store(o)];
  for (const t of [...TY, 'funcref', 'externref']) for (const k of Object.keys(src)) { if (k === 'const' && t.endsWith('ref') && 0) continue; r[`local.set ${t} ${k}`] = () => [src[k](t), I.set(LI[t] + 6)]; r[`local.tee ${t} ${k}`] = () => [src[k](t), I.tee(LI[t] + 6), I.drop()]; r[`drop ${t} ${k}`] = () => [src[k](t), I.drop()]; r[`select ${t} ${k}`] = () => [src[k](t), src[k](t), I.i32(0), t.endsWith('ref') ? I.select_t(t) : I.select(), I.drop()]; r[`select_t ${t} ${k}`] = () => [src[k](t), src[k](t), src.reg('i32'), I.select_t(t), I.drop()]; r[`block result ${t} ${k}`] = () => [I.block(t, fl([src[k](t)])), I.drop()]; r[`br value ${t} ${k}`] = () => [I.block(t, fl([src[k](t), I.br(0)])), I.drop()]; r[`br_if value ${t} ${k}`] = () => [I.block(t, fl([src[k](t), I.get(1), I.i32(1), op('i32.and'), I.br_if(0)])), I.drop()]; r[`br_table value ${t} ${k}`] = () => [I.block(t, fl([I.block(t, fl([src[k](t), I.get(1), I.i32(1), op('i32.and'), I.br_table([0], 1)]))])), I.drop()]; r[`if result ${t} ${k}`] = () => [I.get(1), I.i32(1), op('i32.and'), I.if(t, fl([src[k](t)]), fl([src[k](t)])), I.drop()]; r[`call ${t} ${k}`] = (e) => [src[k](t), I.call(e.id[t]), I.drop()]; r[`call_indirect ${t} ${k}`] = (e) => [src[k](t), I.i32(2 + Object.keys(LI).indexOf(t)), I.call_indirect(e.ty[t]), I.drop()]; if (t.endsWith('ref')) { r[`ref.is_null ${t} ${k}`] = () => [src[k](t), I.ref_is_null(), I.drop()]; const q = t === 'funcref' ? 0 : 1; r[`table.set ${t} ${k}`] = () => [I.i32(0), src[k](t), I.tset(q)]; r[`table.fill ${t} ${k}`] = () => [I.i32(0), src[k](t), I.i32(1), I.tfill(q)]; r[`table.get ${t} ${k}`] = () => [src[k]('i32'), I.i32(1), op('i32.and'), I.tget(q), I.drop()]; } else { r[`global.set ${t} ${k}`] = () => [src[k](t), I.gset(TY.indexOf(t))]; r[`global.get ${t}`] = () => [I.gget(TY.indexOf(t)), I.drop()]; } }
  Object.assign(r, { nop: () => [I.nop()], block: () => [I.block('', [])], loop: () => [I.loop('', [])], if: () => [I.get(1), I.i32(1), op('i32.and'), I.if('', [])], 'if else': () => [I.get(1), I.i32(1), op('i32.and'), I.if('', [], [])], br: () => [I.block('', I.br(0))], 'br out': () => [I.block('', I.block('', I.block('', I.br(2))))], br_table: () => [I.block('', fl([I.get(1), I.br_table([0, 0], 0)]))], call: (e) => [I.call(e.nop)], 'return in call': (e) => [I.call(e.ret)], 'wasi': (e) => [I.call(e.y), I.drop()], 'memory.size': () => [I.size(), I.drop()], 'memory.grow 0': () => [I.i32(0), I.grow(), I.drop()], 'memory.grow refused': () => [I.i32(9), I.grow(), I.drop()], 'memory.copy': () => [I.i32(8), I.i32(16), I.i32(4), I.mem_copy()], 'memory.fill': () => [I.i32(8), I.i32(16), I.i32(4), I.mem_fill()], 'memory.init': () => [I.i32(8), I.i32(0), I.i32(2), I.mem_init(0)], 'data.drop': () => [I.data_drop(1)] });
  // every way out of a block, if, loop or function of every signature of up to two values, over values left beneath
  const ty = (t) => (t === 'ref' ? 'funcref' : t); const fl2 = (...b) => b.flat(Infinity);
  for (const [P, R] of sgFew) { if (P.length + R.length > 2) continue; const ps = P.map(ty), rs = R.map(ty); const vals = (l) => l.map((t) => src.reg(t)); const eat = ps.map(() => I.drop()), after = rs.map(() => I.drop()); const odd = [I.get(1), I.i32(1), op('i32.and')]; const junk = ['i32', 'i64', 'f32', 'f64', 'funcref'].map((t) => src.reg(t));
    const bt = (e) => ({ idx: e.m.type(ps, rs) }); const B = (out, body) => { r[`sig ${P}>${R} ${out}`] = (e) => fl2(vals(ps), body(e), after); };
    B('end', (e) => I.block(bt(e), fl2(eat, vals(rs)))); B('br', (e) => I.block(bt(e), fl2(eat, junk, vals(rs), I.br(0)))); B('br_if', (e) => I.block(bt(e), fl2(eat, vals(rs), odd, I.br_if(0), after, vals(rs)))); B('br_if over', (e) => I.block(bt(e), fl2(eat, junk, vals(rs), odd, I.br_if(0), after, junk.map(() => I.drop()), vals(rs))));
    B('br_table', (e) => I.block(bt(e), fl2(eat, I.block({ idx: e.m.type([], rs) }, fl2(junk, vals(rs), odd, I.br_table([0, 1], 1))), after, vals(rs)))); B('outer', (e) => I.block(bt(e), fl2(eat, junk, I.block('', fl2(vals(rs), I.br(1))), I.unreachable()))); B('if', (e) => fl2(odd, I.if(bt(e), fl2(eat, vals(rs)), fl2(eat, vals(rs))))); B('if br', (e) => fl2(odd, I.if(bt(e), fl2(eat, junk, vals(rs), I.br(0)), fl2(eat, vals(rs)))));
    B('loop', (e) => fl2(I.i32(2), I.set(14), I.loop(bt(e), fl2(eat, I.get(14), I.i32(1), op('i32.sub'), I.tee(14), I.if('', fl2(vals(ps), I.br(1))), vals(rs)))));
    const F = (out, body, table) => { r[`sig ${P}>${R} ${out}`] = (e) => { const f = e.m.func({ params: ps, results: rs, body: fl2(body) }); if (table) e.m.elem(I.i32(9), [f]); return fl2(vals(ps), table ? [I.i32(9), I.call_indirect(e.m.type(ps, rs))] : I.call(f), after); }; }; const fv = (l) => l.map((t) => (t.endsWith('ref') ? [I.i32(1), I.tget(0)] : [ONE(t), op(t[0] === 'i' ? t + '.clz' : t + '.abs')])); const fj = fv(['i32', 'i64', 'f32', 'f64', 'funcref']);
    F('fn', fv(rs)); F('fn return', [fj, fv(rs), I.return()]); F('fn br', [fj, I.block('', fl2(fv(rs), I.br(1))), I.unreachable()]); F('fn br_if', [fj, fv(rs), I.i32(1), op('i32.clz'), I.br_if(0), I.unreachable()]); F('fn br_table', [fj, I.loop('', fl2(fv(rs), I.i32(1), I.br_table([1], 1))), I.unreachable()]); F('fn table', fv(rs), true); F('fn return table', [fj, fv(rs), I.return()], true); }
  return r; })();
const TURNS = 120000;
export function longModule(name) {
  const m = new Mod(); const y = m.importFunc(WS, 'sched_yield', [], ['i32']); m.memory(1, 2); TY.forEach((t) => m.global(t, true, ONE(t))); m.table('funcref', 10); m.table('externref', 10); m.dataPassive([1, 2, 3]); m.dataPassive([1]);
  const e = { m, y, id: {}, ty: {} }; for (const t of Object.keys(LI)) { e.id[t] = m.func({ params: [t], results: [t], body: [I.get(0)] }); e.ty[t] = m.type([t], [t]); } e.nop = m.func({ body: [] }); e.ret = m.func({ body: [I.i32(1), I.if('', I.return())].flat() }); m.elem(I.i32(2), Object.values(e.id));
  const L = ['i32', ...Object.keys(LI), ...Object.keys(LI), 'i32']; const step = fl([I.get(1), I.i32(1), op('i32.add'), I.tee(1), I.get(0), op('i32.lt_u'), I.br_if(0)]);
  m.func({ params: ['i32'], results: ['i32'], locals: L, name: 'main', body: [I.loop('', [...fl(LONG[name](e)), ...step]), I.get(1)].flat() });
  const bytes = m.build(); if (!WebAssembly.validate(bytes)) throw new Error('invalid ' + name); return bytes;
}
function longRun(job) {
  const res = { evals: 0, nontrivial: 0, states: 0, transitions: 0, traces: 0, outcomes: {}, violations: [], samples: [] }; const bump = (k) => { res.outcomes[k] = (res.outcomes[k] ?? 0) + 1; }; const names = Object.keys(LONG);
  for (let s = job.from; s < job.to && s < names.length; s++) {
    if (job.flags && names[s].startsWith('sig ')) continue; const turns = names[s].startsWith('sig ') ? TURNS / 3 : TURNS; const key = `long:${names[s]}:${job.v}${job.flags ? ':stats' : ''}`; if (job.only && job.only !== key) continue; watch.setKey(key);
    const bytes = longModule(names[s]);
    const c = new Chiwawa(wasmPath(job.v), new Host()); const l = c.load(bytes); if (l.st !== 'ok') { res.violations.push({ key, detail: l }); continue; }
    let r = c.call('main', [V.i32(2000)], job.flags); const at = r.st === 'ok' ? c.x.memory.buffer.byteLength : 0; if (r.st === 'ok') r = c.call('main', [V.i32(turns)], job.flags); res.evals++; res.traces++; res.states++; res.transitions++;
    if (r.st !== 'ok' || Number(r.vals[0].v) !== turns) { bump('bad'); res.violations.push({ key, detail: { expected: `${turns} turns`, got: show(r) } }); continue; }
    if (c.x.memory.buffer.byteLength > at) { bump('bad'); res.violations.push({ key, detail: { expected: `${at} bytes of heap`, got: c.x.memory.buffer.byteLength } }); continue; }
    bump('long');
  }
  return { job, ...res };
}
const MARK = 'sched_yield'; class Stop extends WebAssembly.RuntimeError {}
export const meta = {
  level: 'model_checking', technique: 'explicit-state: real interpreter states (checkpoint images) at consecutive turns, closed by state recurrence (lasso)',
  rule: 'one execution = one turn head of one endless guest, its state captured by the real checkpoint, or one long run whose heap is measured; a guest passes when the state at some turn equals the state one period later (so all later turns repeat it) and the heap stops growing; non-trivial = captured states',
  bounds: (t) => [`every nesting of up to ${t === 'thorough' ? 3 : 2} of {${WRAP.join(' ')}} inside an endless loop, around every leaf: branch, conditional branch to every label, br_table, return, calls, WASI call, memory.grow; the leaf bare and behind a condition`, 'guest state period 6 turns; states captured at turns 3..16', `heap watched over ${t === 'thorough' ? 60000 : 12000} turns`, `${Object.keys(LONG).filter((n) => !n.startsWith('sig ')).length} single instructions (every one supported, by operand source), each in a loop of ${TURNS} turns, with and without statistics, and ${Object.keys(LONG).filter((n) => n.startsWith('sig ')).length} ways out of blocks, ifs, loops and functions of every signature of up to two values of five types, ${TURNS / 3} turns: neither the stack of the host nor the heap may grow`],
  assumptions: ['the heap of the interpreter is observed as the size of its linear memory'],
};
export async function plan(tier) { const jobs = []; const n = paths(tier === 'thorough' ? 3 : 2).length; const c = tier === 'thorough' ? 6 : 4; for (const v of LV) for (let i = 0; i < Object.keys(LONG).length; i += 40) jobs.push({ long: true, v, from: i, to: i + 40, flags: v.includes('obs') ? 2 : 0 }); for (const v of ['tco', 'legacy']) for (let i = 0; i < n; i += c) jobs.push({ v, from: i, to: Math.min(n, i + c), D: tier === 'thorough' ? 3 : 2, turns: tier === 'thorough' ? 60000 : 12000 }); return jobs; }
export async function run(job) {
  if (job.long) return longRun(job);
  const res = { evals: 0, nontrivial: 0, states: 0, transitions: 0, traces: 0, outcomes: {}, violations: [], samples: [] }; const bump = (k) => { res.outcomes[k] = (res.outcomes[k] ?? 0) + 1; }; const w = wasmPath(job.v);
  for (const ws of paths(job.D).slice(job.from, job.to)) for (const leaf of leaves(ws)) for (const cond of [0, 1]) {
    const key = `${ws.join('>') || '-'}:${leaf}${cond ? ':cond' : ''}:${job.v}`; if (job.only && job.only !== key) continue; watch.setKey(key);
    const bytes = guest(ws, leaf, cond); if (!WebAssembly.validate(bytes)) { bump('invalid'); throw new Error('invalid ' + key); }
    const lab = new Lab(w, w, bytes); const bad = (d) => { bump('bad'); res.violations.push({ key, detail: d }); };
    // heads of the turns: the first sched_yield after each turn of g0
    const heads = []; { const h = new Host(); const c = lab.start(h); c.poll = () => 0; let n = 0; h.hook = (name) => { if (name === MARK) { n++; heads.push(c.pollCount); if (n > 400) throw new Stop('enough'); } return undefined; }; const r = c.call('main', [], 1); if (r.st !== 'trap' || r.msg !== 'enough') { bad({ expected: 'runs for ever', got: show(r) }); continue; } }
    // turn heads differ from other yields by the image itself: take images at successive yields until one recurs
    const seen = new Map(); let found = null; let sizes = []; const cuts = [...new Set(heads)].slice(2, leaf === 'wasi' ? 120 : 17);
    for (const p of cuts) { const x = lab.cut({ name: 'main' }, p + 1); res.evals++; res.nontrivial++; if (!x.image) { found = { expected: 'an image', got: show(x.r) }; break; } const k = Buffer.from(x.image).toString('latin1'); sizes.push(x.image.length); if (seen.has(k)) { found = true; break; } seen.set(k, p); res.states++; res.transitions++; }
    if (found !== true) { bad(found ?? { expected: `the state recurs within ${cuts.length} turns`, image_sizes: sizes }); continue; }
    // heap
    { const h = new Host(); const c = lab.start(h); let n = 0, at = 0, end = 0; h.hook = (name) => { if (name === MARK) { n++; if (n === 1000) at = c.x.memory.buffer.byteLength; if (n === job.turns) { end = c.x.memory.buffer.byteLength; throw new Stop('enough'); } } return undefined; }; const r = c.call('main', [], 0); res.evals++; res.traces++; if (r.st !== 'trap' || r.msg !== 'enough') { bad({ expected: 'runs for ever', got: show(r) }); continue; } if (end > at) { bad({ expected: `${at} bytes of heap`, got: end, turns: job.turns }); continue; } }
    bump('recurs'); if (!res.samples.length) res.samples.push({ guest: key, states_before_recurrence: seen.size, image_bytes: sizes[0] });
  }
  return { job, ...res };
}
