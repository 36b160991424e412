// C21: an instance serves any history of calls, and instances are separate. Every sequence of
// calls (returning, failing, growing, writing) on one, two or three instances living in one
// process, linked or not, is compared call by call with V8.
import { I, Mod } from '../lib/asm.mjs';
import { Chiwawa, Host, V, jsToVal, sameVals } from '../lib/host.mjs';
import { wasmPath } from '../lib/build.mjs';
import * as watch from '../lib/watch.mjs';

export const variants = ['tco', 'legacy'];
const fl = (b) => b.flat(Infinity); const op = (n) => I.op(n); const WS = 'wasi_snapshot_preview1';
// ---- the module called: name -> [params, results]
const SIG = { add: [['i32'], ['i32']], get: [[], ['i32', 'i64', 'f64']], put: [['i32', 'i64'], []], grow: [['i32'], ['i32']], fail: [['i32'], ['i32']], deep: [['i32'], ['i32']], tab: [['i32'], ['i32']], tset: [['i32', 'i32'], []], init: [['i32'], ['i32']], drop: [[], []], say: [['i32'], ['i32']], wide: [['f32', 'i64', 'i32', 'f64'], ['f64', 'i32', 'i64', 'f32']] };
function body(m, imp = {}) { // imp: names whose work is done by an imported function
  const w = m.importFunc(WS, 'fd_write', ['i32', 'i32', 'i32', 'i32'], ['i32']); const far = {}; for (const [n, mod] of Object.entries(imp)) far[n] = m.importFunc(mod, n, ...SIG[n]);
  m.memory(1, 4); m.table('funcref', 6, 8); const ty = m.type(['i32'], ['i32']); const g = m.global('i32', true, I.i32(10)), h = m.global('i64', true, I.i64(20)), d = m.global('f64', true, I.f64(0.5)); m.dataCount = true; m.data(I.i32(64), [...Buffer.from('abc')]); m.datas.push([1, 3, 7, 8, 9]);
  const F = (n, b, locals = []) => { const [p, r] = SIG[n]; if (far[n] !== undefined) return m.func({ params: p, results: r, body: fl([p.map((_, i) => I.get(i)), I.call(far[n])]), name: n }); return m.func({ params: p, results: r, locals, body: fl(b), name: n }); };
  const add = F('add', [I.gget(g), I.get(0), op('i32.add'), I.gset(g), I.gget(g)]);
  F('get', [I.gget(g), I.gget(h), I.gget(d)]);
  F('put', [I.get(0), I.get(1), I.store('i64.store'), I.get(0), I.load('i64.load8_u'), I.gget(h), op('i64.add'), I.gset(h)]);
  F('grow', [I.get(0), I.grow(), I.size(), I.i32(16), op('i32.shl'), op('i32.or')]);
  const fail = F('fail', [I.gget(g), I.i32(1), op('i32.add'), I.gset(g), I.i32(8), I.get(0), I.store('i32.store8'), I.get(0), I.if('', I.unreachable()), I.i32(5)]);
  const deep = F('deep', [I.block('i32', [I.get(0), I.if('', [I.get(0), I.i32(1), op('i32.sub'), I.call(fail + 1), I.drop()], [I.i32(1), I.call(fail), I.drop()]), I.i32(3)])]); if (deep !== fail + 1) throw new Error('order');
  F('tab', [I.i32(7), I.get(0), I.call_indirect(ty)]);
  F('tset', [I.get(0), I.get(1), I.tget(0), I.tset(0)]);
  F('init', [I.get(0), I.i32(0), I.i32(3), I.mem_init(1), I.get(0), I.load('i32.load16_u', 1)]);
  F('drop', [I.data_drop(1), I.gget(d), I.f64(2), op('f64.mul'), I.gset(d)]);
  F('say', [I.i32(0), I.i32(64), I.store('i32.store'), I.i32(4), I.get(0), I.store('i32.store'), I.i32(1), I.i32(0), I.i32(1), I.i32(16), I.call(w)]);
  F('wide', [I.get(3), I.get(2), I.get(1), I.get(0)]);
  m.elem(I.i32(0), [add, fail, deep]); const sub = m.func({ params: ['i32'], results: ['i32'], body: fl([I.get(0), I.gget(g), op('i32.sub')]) }); m.elem(I.i32(4), [sub, far.add ?? add]); return m;
}
// an instance with nothing of its own: it only passes calls on
function bare(mod) { const m = new Mod(); const far = Object.entries(SIG).map(([n, [p, r]]) => [n, p, r, m.importFunc(mod, n, p, r)]); for (const [n, p, r, f] of far) m.func({ params: p, results: r, body: fl([p.map((_, i) => I.get(i)), I.call(f)]), name: n }); return m; }
const SOLO = body(new Mod()).build();
// linked: the functions named are those of another instance; its memory, globals and tables change, not the importer's
const LINKS = { none: {}, add: { add: 'm0' }, state: { put: 'm0', get: 'm0', grow: 'm0', add: 'm0' }, fail: { fail: 'm0', deep: 'm0' }, tab: { tab: 'm0', tset: 'm0', wide: 'm0' }, say: { say: 'm0', init: 'm0', drop: 'm0' }, all: Object.fromEntries(Object.keys(SIG).map((n) => [n, 'm0'])), bare: null };
// a module with nothing of its own except what it forwards, for a chain of three
const LINKM = Object.fromEntries(Object.entries(LINKS).map(([k, l]) => [k, (l ? body(new Mod(), l) : bare('m0')).build()])); const LINK2 = (k) => (LINKS[k] ? body(new Mod(), Object.fromEntries(Object.keys(LINKS[k]).map((n) => [n, 'm1']))) : bare('m1')).build();
const CALLS = [['add', [V.i32(3)]], ['get', []], ['put', [V.i32(24), V.i64(-2)]], ['grow', [V.i32(1)]], ['fail', [V.i32(1)]], ['fail', [V.i32(0)]], ['deep', [V.i32(2)]], ['tab', [V.i32(0)]], ['tab', [V.i32(3)]], ['tab', [V.i32(5)]], ['tab', [V.i32(9)]], ['tset', [V.i32(3), V.i32(4)]], ['tset', [V.i32(0), V.i32(5)]], ['init', [V.i32(32)]], ['drop', []], ['say', [V.i32(2)]], ['wide', [V.f32(0x40490fdb), V.i64(-3), V.i32(9), V.f64(0x3ff8000000000000n)]]];
const SHORT = [0, 3, 4, 6, 7, 11, 13, 15, 2]; // for pairs of instances
const name = ([n, a]) => n + (a.length ? '(' + a.map((x) => Number(BigInt.asIntN(64, x.v))).join(',') + ')' : '');
const seqs = (n, d) => { let l = [[]]; for (let i = 0; i < d; i++) l = l.flatMap((s) => Array.from({ length: n }, (_, k) => [...s, k])); return l; };
const DEPTH = { quick: { one: 4, two: 3, link: 3, chain: 2 }, thorough: { one: 5, two: 4, link: 4, chain: 3 } };
export const meta = {
  level: 'exploration', rule: 'one execution = one sequence of calls on the instances of one process; after every call compared with V8 (a call that ends the process ends the history): result or failure, results, and the memory, globals, tables of every instance, and the output; non-trivial = sequences not cut short',
  bounds: (t) => { const D = DEPTH[t]; return [`one instance: every sequence of ${D.one} of ${CALLS.length} calls {${CALLS.map(name).join(' ')}}`, `two instances of one module: every interleaving of ${D.two} of ${SHORT.length} calls each way`, `an instance which imports functions of another (${Object.keys(LINKS).join(', ')}): every sequence of ${D.link} of ${CALLS.length} calls x target, and a chain of three instances: every sequence of ${D.chain}`]; },
  assumptions: ['V8 implements instances and linking of functions', 'memories, tables and globals cannot be imported (refused by chiwawa)', 'the state after a call that ends the process is left to C06'],
};
export async function plan(tier) {
  const jobs = []; const D = DEPTH[tier]; const n = CALLS.length;
  for (const v of variants) { for (let a = 0; a < n; a++) for (let b = 0; b < n; b++) jobs.push({ fam: 'one', v, d: D.one, pre: [a, b] }); for (let a = 0; a < SHORT.length * 2; a++) jobs.push({ fam: 'two', v, d: D.two, pre: [a] }); for (const k of Object.keys(LINKS)) if (k !== 'none') { for (let a = 0; a < n * 2; a++) jobs.push({ fam: 'link', v, d: D.link, k, pre: [a] }); for (let a = 0; a < n; a++) jobs.push({ fam: 'chain', v, d: D.chain, k, pre: [a] }); } }
  return jobs;
}
const modc = new Map(); const mod = (b) => { if (!modc.has(b)) modc.set(b, new WebAssembly.Module(b)); return modc.get(b); };
export async function run(job) {
  const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; const bump = (k) => { res.outcomes[k] = (res.outcomes[k] ?? 0) + 1; };
  const bytes = job.fam === 'one' ? [SOLO] : job.fam === 'two' ? [SOLO, SOLO] : job.fam === 'link' ? [SOLO, LINKM[job.k]] : [SOLO, LINKM[job.k], LINK2(job.k)];
  const hosts = () => new Host(); let C = null;
  // an alphabet letter is (instance, call)
  const letters = job.fam === 'one' ? CALLS.map((c) => [0, c]) : job.fam === 'two' ? [0, 1].flatMap((i) => SHORT.map((k) => [i, CALLS[k]])) : job.fam === 'link' ? [1, 0].flatMap((i) => CALLS.map((c) => [i, c])) : CALLS.map((c) => [2, c]);
  const go = (seq) => {
    const key = `${job.fam}${job.k ? ':' + job.k : ''}:${seq.map((x) => (bytes.length > 1 && job.fam !== 'chain' ? letters[x][0] + '.' : '') + name(letters[x][1])).join(' ')}:${job.v}`; if (job.only && job.only !== key) return; watch.setKey(key); res.evals++;
    const bad = (d) => { bump('bad'); if (res.violations.length < 40) res.violations.push({ key, detail: d }); };
    // V8
    const rh = hosts(); const R = []; const ext = {}; for (const b of bytes) { let inst; const host = rh; inst = new WebAssembly.Instance(mod(b), { [WS]: host.imports(() => inst.exports['memory'] ?? R.mem), ...ext }); R.push(inst); ext['m' + (R.length - 1)] = inst.exports; }
    const ch = hosts(); if (!C || C.dead) C = new Chiwawa(wasmPath(job.v), ch); else { C.x.mc_drop(); ch.setFile('guest.wasm', SOLO); Object.assign(C.host, { out: [], err: [] }); }
    const c = C; for (const b of bytes) { const l = c.load(b); if (l.st !== 'ok') { bad({ expected: 'instance', got: l.st, msg: l.msg }); return; } c.x.mc_keep(); }
    let nt = seq.length > 1;
    for (let s = 0; s < seq.length; s++) {
      const [i, [n, a]] = letters[seq[s]]; let exp; try { let r = R[i].exports[n](...a.map(toJs)); r = SIG[n][1].length === 0 ? [] : SIG[n][1].length === 1 ? [r] : [...r]; exp = { st: 'ok', vals: r.map((x, k) => jsToVal(x, SIG[n][1][k])) }; } catch (e) { if (!(e instanceof WebAssembly.RuntimeError)) throw e; exp = { st: 'err' }; }
      c.x.mc_select(i); const got = c.call(n, a, 0); const at = `call ${s + 1}, ${i}.${name([n, a])}`; const gs = got.st === 'trap' ? 'err' : got.st;
      if (gs !== exp.st || (exp.st === 'ok' && !sameVals(exp.vals, got.vals))) { bad({ at, expected: exp.st === 'ok' ? exp.vals.map(V.show) : exp.st, got: got.st === 'ok' ? got.vals.map(V.show) : got.st, msg: got.msg }); return; }
      if (got.st === 'trap') { bump('process ended'); return s; }
      for (let k = 0; k < bytes.length; k++) { c.x.mc_select(k); const E = R[k].exports; if (!E.memory) continue; if (c.x.mc_mem_len() !== E.memory.buffer.byteLength) { bad({ at, instance: k, expected: `${E.memory.buffer.byteLength} bytes`, got: c.x.mc_mem_len() }); return; }
        const p = c.x.mc_mem_ptr(); const x = Buffer.from(c.x.memory.buffer, p, 128), y = Buffer.from(E.memory.buffer, 0, 128); if (Buffer.compare(x, y)) { bad({ at, instance: k, expected: y.toString('hex'), got: x.toString('hex') }); return; }
        const gl = c.globals(); const eg = [V.i32(E.g0.value), V.i64(E.g1.value), jsToVal(E.g2.value, 'f64')]; if (!sameVals(gl, eg)) { bad({ at, instance: k, expected: eg.map(V.show), got: gl.map(V.show) }); return; }
        const t = c.tables()[0].map((v) => (v.v === 0xffffffffn ? 0 : 1)).join(''); const et = Array.from({ length: E.t0.length }, (_, q) => (E.t0.get(q) ? 1 : 0)).join(''); if (t !== et) { bad({ at, instance: k, expected: et, got: t }); return; } }
      if (c.host.stdout() !== rh.stdout()) { bad({ at, expected: rh.stdout(), got: c.host.stdout() }); return; }
    }
    if (nt) res.nontrivial++; bump('as on V8'); if (!res.samples.length) res.samples.push({ calls: key });
  };
  // a call that ends the process ends the history: what would follow it is not run
  let dead = null; for (const t of seqs(letters.length, job.d - job.pre.length)) { const q = [...job.pre, ...t]; if (dead && dead.every((x, i) => x === q[i])) continue; const e = go(q); dead = e === undefined ? null : q.slice(0, e + 1); }
  return { job, ...res };
}
const f64 = new DataView(new ArrayBuffer(8)); const toJs = (v) => { if (v.t === 0x7f) return Number(BigInt.asIntN(32, v.v)); if (v.t === 0x7e) return BigInt.asIntN(64, v.v); if (v.t === 0x7d) { f64.setUint32(0, Number(v.v)); return f64.getFloat32(0); } f64.setBigUint64(0, v.v); return f64.getFloat64(0); };
