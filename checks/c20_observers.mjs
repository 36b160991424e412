// C20: watching a guest does not change it. The same guests run in the plain build and in
// the build with statistics and tracing, with every combination of the two switched on,
// uninterrupted and cut by a checkpoint, and images cross between the builds.
import { I, Mod, OPS, LOADS, STORES } from '../lib/asm.mjs';
import { wasmPath } from '../lib/build.mjs';
import { Lab, show } from '../lib/ckpt.mjs';
import { Ref, V } from '../lib/host.mjs';
import { Host } from '../lib/wasi.mjs';
import { A, FAM, PROGS, PARAMS, LOCALS, ARGS, setup, emit, progModule } from '../lib/corpus.mjs';
import { bodies, shards, stateAfter } from '../lib/gen.mjs';
import { runCli } from '../lib/cli.mjs';
import { LONG, longModule } from './c18_recurrence.mjs';
import * as watch from '../lib/watch.mjs';

const NT = ['i32', 'i64', 'f32', 'f64']; const AT = { i32: 0, i64: 1, f32: 2, f64: 3 };
const MISC = {
  ...Object.fromEntries(NT.flatMap((t) => [['global.get ' + t, [I.gget(AT[t]), I.set(AT[t])]], ['global.set ' + t, [I.get(AT[t]), I.gset(AT[t])]], ['select ' + t, [I.get(AT[t]), I.get(AT[t]), I.get(0), I.select(), I.set(AT[t])]]])),
  'select funcref': [I.get(4), I.get(4), I.get(0), I.select_t('funcref'), I.set(4)],
  'memory.size': [I.size(), I.set(0)], 'memory.grow': [I.i32(0), I.grow(), I.set(0)], 'memory.copy': [I.i32(0), I.i32(8), I.i32(2), I.mem_copy()], 'memory.fill': [I.i32(0), I.i32(8), I.i32(2), I.mem_fill()], 'memory.init': [I.i32(0), I.i32(0), I.i32(2), I.mem_init(0)], 'data.drop': [I.data_drop(0)],
  'table.get': [I.i32(0), I.tget(0), I.set(4)], 'table.set': [I.i32(0), I.get(4), I.tset(0)], 'table.fill': [I.i32(0), I.get(4), I.i32(1), I.tfill(0)], 'ref.is_null': [I.get(4), I.ref_is_null(), I.set(0)],
  'call direct': [I.call(0)], call_indirect: [I.i32(0), I.call_indirect(0)], return: [I.return()], unreachable: [I.unreachable()],
  'br out': [I.block('', [I.br(0)])], 'br_if taken': [I.block('', [I.get(0), I.br_if(0)])], 'br_if not': [I.block('', [I.get(0), I.op('i32.eqz'), I.br_if(0)])], br_table: [I.block('', [I.get(0), I.br_table([0], 0)])], block: [I.block('', [])], loop: [I.loop('', [])], if: [I.get(0), I.if('', [])],
};
export const variants = ['tco', 'legacy', 'tco-obs', 'legacy-obs', 'cli-tco', 'cli-legacy', 'cli-tco-obs', 'cli-legacy-obs'];
// ---- the command: guests which say something and end in every way
const END = { returns: [I.i32(5)], exits: [I.i32(7), I.call(1), I.i32(0)], traps: [I.unreachable()] };
function cmdGuest(end, turns = 3) {
  const m = new Mod(); const W = 'wasi_snapshot_preview1'; const wr = m.importFunc(W, 'fd_write', ['i32', 'i32', 'i32', 'i32'], ['i32']), ex = m.importFunc(W, 'proc_exit', ['i32'], []); if (ex !== 1) throw new Error('order'); m.memory(1); m.table('funcref', 2); const ty = m.type(['i32'], ['i32']); const g = m.global('i64', true, I.i64(5));
  const f = m.func({ params: ['i32'], results: ['i32'], body: [I.get(0), I.i32(3), I.op('i32.mul')] }); m.elem(I.i32(0), [f]); m.data(I.i32(64), [...Buffer.from('said\n')]);
  m.func({ results: ['i32'], locals: ['i32', 'f64'], name: 'main', body: [I.i32(turns), I.set(0), I.loop('', [I.i32(32), I.get(0), I.store('i32.store'), I.i32(32), I.load('i32.load8_u'), I.call(f), I.i32(0), I.call_indirect(ty), I.drop(), I.gget(g), I.i64(1), I.op('i64.add'), I.gset(g), I.get(1), I.f64(1.5), I.op('f64.add'), I.set(1), I.get(0), I.i32(1), I.op('i32.sub'), I.tee(0), I.br_if(0)]), I.i32(0), I.i32(64), I.store('i32.store'), I.i32(4), I.i32(5), I.store('i32.store'), I.i32(1), I.i32(0), I.i32(1), I.i32(16), I.call(wr), I.drop(), END[end]].flat(Infinity) }); return m.build();
}
// opens, closes and moves files; the descriptors it gets are its result (one digit each)
function openGuest(seq) { const m = new Mod(); const W = 'wasi_snapshot_preview1'; const o = m.importFunc(W, 'path_open', ['i32', 'i32', 'i32', 'i32', 'i32', 'i64', 'i64', 'i32', 'i32'], ['i32']), cl = m.importFunc(W, 'fd_close', ['i32'], ['i32']), rn = m.importFunc(W, 'fd_renumber', ['i32', 'i32'], ['i32']); m.memory(1); m.data(I.i32(64), [...Buffer.from('f.txt')]);
  const add = (x) => [I.gget(0), I.i64(16n), I.op('i64.mul'), x, I.op('i64.extend_i32_u'), I.op('i64.add'), I.gset(0)]; m.global('i64', true, I.i64(0n)); const T = { open: () => [add([I.i32(3), I.i32(0), I.i32(64), I.i32(5), I.i32(1), I.i64(0x1fffffffn), I.i64(0x1fffffffn), I.i32(0), I.i32(0), I.call(o)]), add([I.i32(0), I.load('i32.load')])], close: () => add([I.i32(0), I.load('i32.load'), I.call(cl)]), 'close 4': () => add([I.i32(4), I.call(cl)]), 'move to 2': () => add([I.i32(0), I.load('i32.load'), I.i32(2), I.call(rn)]) };
  m.func({ results: ['i64'], name: 'main', body: [seq.map((t) => T[t]()), I.gget(0)].flat(Infinity) }); return m.build(); }
const FILED = ['open', 'close 4', 'open,close,open']; // with the trace in a file, itself an open descriptor: a known finding
const OPENS = (() => { const T = ['open', 'close', 'close 4', 'move to 2']; const l2 = T.flatMap((a) => T.map((b) => [a, b])); return [...T.map((a) => [a]), ...l2, ...T.flatMap((a) => l2.map((b) => [a, ...b]))]; })();
const ALLEV = ['store', 'load', 'call', 'branch'], ALLRS = ['pc', 'regs', 'locals', 'globals', 'memory']; const CLASS = { store: /store/, load: /load/, call: /^call(_indirect)?$/, branch: /^br(_if|_table)?$/ }, FIELD = { pc: 'PC', regs: 'Regs', locals: 'Locals', globals: 'Globals' };
const subsets = (l) => Array.from({ length: 1 << l.length }, (_, b) => l.filter((_, i) => b >> i & 1));
const traceLines = (raw) => [...raw.matchAll(/\[([^\n]*Instr:[^\n]*)\]\n/g)].map((q) => Object.fromEntries(q[1].split(' | ').map((y) => [y.slice(0, y.indexOf(':')), y.slice(y.indexOf(':') + 1)])));
// ---- the values in the trace: the same functions, in V8 with a report of locals and globals after each change
const VTOK = {
  'i32 const': (k) => [I.i32(7), I.set(0), k.main], 'i32 tee': (k) => [I.get(0), I.i32(1), I.op('i32.add'), I.tee(0), k.main, I.drop()], 'i64': (k) => [I.get(1), I.i64(-3), I.op('i64.mul'), I.set(1), k.main], 'f32': (k) => [I.get(2), I.f32(1.5), I.op('f32.add'), I.set(2), k.main], 'f64': (k) => [I.get(3), I.f64(0.25), I.op('f64.sub'), I.set(3), k.main],
  'ref': (k) => [I.i32(0), I.tget(0), I.set(4), k.main], 'g32': (k) => [I.get(0), I.gset(0), k.main], 'g64': (k) => [I.gget(1), I.get(1), I.op('i64.add'), I.gset(1), k.main], 'gf32': (k) => [I.get(2), I.gset(2), k.main], 'gf64': (k) => [I.f64(-0.5), I.gset(3), k.main],
  'call': (k) => [I.get(0), I.call(k.h1), k.main, I.set(0), k.main], 'call f64': (k) => [I.get(3), I.call(k.h2), k.main], 'indirect': (k) => [I.i32(5), I.i32(0), I.call_indirect(k.ty), k.main, I.drop()], 'if': (k) => [I.get(0), I.i32(1), I.op('i32.and'), I.if('', [I.get(1), I.i64(1), I.op('i64.add'), I.set(1), k.main]), I.get(0), I.i32(2), I.op('i32.xor'), I.set(0), k.main],
  'loop': (k) => [I.loop('', [I.get(0), I.i32(1), I.op('i32.shr_u'), I.tee(0), k.main, I.br_if(0)])], 'memory': () => [I.i32(8), I.get(0), I.store('i32.store'), I.i32(8), I.load('i32.load16_s'), I.drop()], 'deep': (k) => [I.i32(3), I.call(k.h3), k.main],
};
function valueGuest(seq, watched) {
  const m = new Mod(); const G = ['i32', 'i64', 'f32', 'f64']; const gs = G.map((_, i) => I.gget(i)); const snap = {}; const L = { main: ['i32', 'i64', 'f32', 'f64', 'i32'], h1: ['i32', 'i64'], h2: ['f64'], h3: ['i32', 'i32'] };
  for (const [n, l] of Object.entries(L)) { if (!watched) { snap[n] = []; continue; } const f = m.importFunc('r', n, [...l, ...G], []); snap[n] = [l.map((t, i) => (n === 'main' && i === 4 ? [I.get(4), I.ref_is_null()] : I.get(i))), gs, I.call(f)]; }
  m.memory(1); m.table('funcref', 1); [I.i32(11), I.i64(-12), I.f32(0.5), I.f64(2.5)].forEach((x, i) => m.global(G[i], true, x)); const base = watched ? 4 : 0; const k = { main: snap.main, h1: base, h2: base + 1, h3: base + 2, ty: m.type(['i32'], ['i32']) };
  m.func({ params: ['i32'], results: ['i32'], locals: ['i64'], body: [snap.h1, I.get(0), I.op('i64.extend_i32_s'), I.set(1), snap.h1, I.get(0), I.i32(2), I.op('i32.mul'), I.tee(0), snap.h1].flat(Infinity) });
  m.func({ params: ['f64'], body: [snap.h2, I.get(0), I.f64(1), I.op('f64.add'), I.gset(3), snap.h2].flat(Infinity) });
  m.func({ params: ['i32'], locals: ['i32'], body: [snap.h3, I.get(0), I.if('', [I.get(0), I.set(1), snap.h3, I.get(0), I.i32(1), I.op('i32.sub'), I.call(k.h3), snap.h3, I.get(0), I.gset(0), snap.h3])].flat(Infinity) });
  m.elem(I.i32(0), [k.h1]); m.func({ params: ['i32', 'i64'], locals: ['f32', 'f64', 'funcref'], name: 'main', body: [snap.main, seq.map((t) => VTOK[t](k))].flat(Infinity) }); return m.build();
}
const spell = { i32: (x) => `I32(${x})`, i64: (x) => `I64(${x})`, f32: (x) => `F32(${x})`, f64: (x) => `F64(${x})` };
function valueStates(bytes, args) { // what V8 reports, as the trace writes it, without repetition
  const out = []; const G = ['i32', 'i64', 'f32', 'f64']; const L = { main: ['i32', 'i64', 'f32', 'f64', 'ref'], h1: ['i32', 'i64'], h2: ['f64'], h3: ['i32', 'i32'] };
  const r = Object.fromEntries(Object.entries(L).map(([n, l]) => [n, (...a) => { const s = `[${l.map((t, i) => (t === 'ref' ? (a[i] ? 'RefNull' : 'FuncAddr') : spell[t](Object.is(a[i], -0) ? '-0' : a[i])))}] [${G.map((t, i) => spell[t](Object.is(a[l.length + i], -0) ? '-0' : a[l.length + i]))}]`; if (out[out.length - 1] !== s) out.push(s); }]));
  new WebAssembly.Instance(new WebAssembly.Module(bytes), { r }).exports.main(...args); return out;
}
// ---- the registers in the trace: values computed and still needed are in them, in order, by type
const RTOK = { i32: (i) => [[I.get(0), I.i32(100 + i), I.op('i32.add')], 106 + i], i64: (i) => [[I.get(1), I.i64(-200 - i), I.op('i64.add')], -205 - i], f32: (i) => [[I.get(2), I.f32(i + 0.5), I.op('f32.add')], i + 2.5], f64: (i) => [[I.get(3), I.f64(i + 0.25), I.op('f64.add')], i + 4.25] };
function regsGuest(seq) {
  const m = new Mod(); const G = Object.keys(RTOK); G.forEach((t, i) => m.global(t, true, I[t](0))); m.func({ body: [] });
  m.func({ params: G, name: 'main', body: [seq.map((t, i) => RTOK[t](i)[0]), I.call(0), seq.map((t) => I.gset(G.indexOf(t))).reverse()].flat(Infinity) }); return m.build();
}
const regsOf = (s) => { if (s === '[]') return {}; const out = {}; const q = /^\{(.*)\}$/.exec(s); if (!q || !/^[IF](32|64)\[r0:[^\]]*\](, [IF](32|64)\[r0:[^\]]*\])*$/.test(q[1])) return null; for (const y of q[1].matchAll(/([IF]\d\d)\[([^\]]*)\]/g)) { const l = y[2].split(',').map((z) => /^r(\d+):(.*)$/.exec(z)); if (out[y[1]] || l.some((z, i) => !z || Number(z[1]) !== i)) return null; out[y[1]] = l.map((z) => Number(z[2])); } return out; };
const FLAGS = { off: 0, stats: 2, trace: 4, 'stats+trace': 6 };
export const meta = {
  level: 'exploration', rule: 'one execution = one guest run by the build with statistics and tracing under one combination of the two (or cut, and its image carried to or from the plain build), compared with the plain build: outcome, results, memory, globals, tables, output; non-trivial = at least one of the two is on, or a cut',
  bounds: (t) => [...Object.entries(FAM).map(([k, f]) => `${k}: every valid body of <= ${(t === "thorough" ? f.q : f.q - 1)} tokens over {${f.toks.join(' ')}} x ${Object.keys(FLAGS).join(', ')}`), `programs {${Object.keys(PROGS).join(' ')}}: uncut, and cut at every ${t === 'thorough' ? '' : '5th '}poll with the image crossing plain>observed and observed>plain`, `values: every sequence of <= ${t === 'thorough' ? 4 : 3} of {${Object.keys(VTOK).join(', ')}}: the locals and globals in the trace, in every frame, are those V8 reports`, `regs: every sequence of <= ${t === 'thorough' ? 6 : 4} values of 4 types beneath a call: all of them are in the registers of the trace`, 'reports: loops of 0..3 turns x 0..2 stores x 0..2 loads x direct and indirect calls x every event class x every subset of resources', 'the table of counts of guests with 0..50 kinds of instructions in four distributions: order, shares, remainder', `the command: guests which return, exit and trap x every event class and resource subset in three spellings x --stats x output to stderr and to a file; builds without the features: a warning only; a checkpoint on the way: the parts of the trace and of the counts add up to those of the uncut run`, `every instruction (${Object.keys(OPS).length + 23} numeric and memory ones, ${Object.keys(MISC).length} others): its name in the trace, its count, its event class`],
  assumptions: ['the statistics report and the trace lines themselves are left out of the compared output'],
};
const mkHost = () => new Host({ args: ['chiwawa', 'x'], env: ['A=b'], stdin: [49, 50, 51, 52, 53, 54, 55, 56] }); const ARGV = ['g.wasm', 'one'];
const NL = Object.keys(LONG);
const tidy = (s) => s.replace(/=== Execution Statistics ===\n[^]*?\n=======================\n/g, '').replace(/\[(PC:\d+ \| )?Instr:[^\n]*\]\n/g, '');
export async function plan(tier) { const jobs = []; const T = tier === 'thorough'; for (const v of ['tco', 'legacy']) { jobs.push({ fam: 'opens', v }, { fam: 'regs', v, tier }, { fam: 'values', v, pre: [] }); for (const a of Object.keys(VTOK)) for (const b of Object.keys(VTOK)) jobs.push({ fam: 'values', v, pre: [a, b], tier }); } for (const v of ['tco', 'legacy']) for (let i = 0; i < NL.length; i += 50) jobs.push({ fam: 'forms', v, i }); for (const end of Object.keys(END)) for (const v of ['tco', 'legacy']) { jobs.push({ fam: 'cmd', v, end }); for (const v2 of ['tco', 'legacy']) jobs.push({ fam: 'cmdcut', v, v2, end }); } for (const v of ['tco', 'legacy']) { for (const [k, f] of Object.entries(FAM)) { const D = T ? f.q : f.q - 1; const o = { results: f.res, nest: f.nest ?? 1, maxStack: 4 }; jobs.push({ fam: k, v, depth: 1, prefix: [] }); for (const p of shards(A, f.toks, 2, D, o)) jobs.push({ fam: k, v, depth: D, prefix: p }); } for (const k of Object.keys(PROGS)) jobs.push({ fam: 'prog', v, k, step: T ? 1 : 5 }); jobs.push({ fam: 'report', v }); } return jobs; }
export async function run(job) {
  const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; const bump = (k) => { res.outcomes[k] = (res.outcomes[k] ?? 0) + 1; };
  const plain = wasmPath(job.v), obs = wasmPath(job.v + '-obs');
  const done = (key, bad, oc, nt, sample) => { res.evals++; if (nt) res.nontrivial++; bump(bad ? 'bad' : oc); if (bad) { if (res.violations.length < 60) res.violations.push({ key, detail: bad }); } else if (!res.samples.length && sample) res.samples.push({ guest: key, outcome: sample }); };
  const alone = (lab, g, flags, ck) => { const h = mkHost(); const c = lab.start(h); let n = 0; c.poll = () => { n++; return 0; }; const r = c.call(g.name, g.args ?? [], flags | ck); return { r, n, state: c.dead ? null : lab.state(c), err: tidy(h.stderr()), raw: h.stderr() + h.stdout() }; };
  const both = (bytes) => [new Lab(plain, plain, bytes, { host: mkHost, argv: ARGV }), new Lab(obs, obs, bytes, { host: mkHost, argv: ARGV })];
  const explore = (P, O, key, g, results) => {
    const a = new Ref(P.mod ??= new WebAssembly.Module(P.bytes), mkHost()).call(g.name, g.args, results); if (a.st === 'trap' && /memory access out of bounds/.test(a.msg)) { bump('oob-skipped'); return; }
    const u = alone(P, g, 0, 0); for (const [fn, fb] of Object.entries(FLAGS)) for (const ck of [0, 1]) { const kk = `${key}:${fn}${ck ? ':cr' : ''}:${job.v}`; if (job.only && job.only !== kk) continue; watch.setKey(kk); done(kk, P.diff(u, alone(O, g, fb, ck)), fn, fb, show(u.r)); }
  };
  if (job.fam === 'cmd') { // the command line of the observing builds, and of the plain ones
    const b = cmdGuest(job.end); const go = (v, args, files = {}) => { const h = new Host({ files: { 'g.wasm': b, ...files } }); return { ...runCli(v, h, ['g.wasm', '--invoke', 'main', ...args]), h }; };
    const v0 = 'cli-' + job.v, plainV = job.v, obsV = job.v + '-obs'; const ref = go(plainV, []); const full = go(obsV, ['--trace']); const all = traceLines(full.stderr); const ended = (r) => `${r.st} ${r.code} ${JSON.stringify(r.stdout.replace(/=== Execution Statistics ===\n[^]*?\n=======================\n/g, ''))}`;
    const put = (what, bad) => { const k = `cmd:${job.end}:${what}:${v0}`; if (!job.only || job.only === k) done(k, bad, 'cmd', 1); }; const same = (r) => (ended(r) === ended(ref) ? null : { expected: ended(ref), got: ended(r) });
    put('trace', same(full) ?? (all.length > 40 && ['PC', 'Instr', 'Regs', 'Locals', 'Globals'].every((f) => all.every((l) => f in l)) ? null : { expected: 'all instructions with all fields', got: all.length }));
    for (const o of [['--stats'], ['--trace'], ['--stats', '--trace'], ['--trace', '--trace-events', 'store', '--trace-output', 'x.log']]) { const r = go(plainV, o); const w = ['stats', 'trace'].filter((x) => o.includes('--' + x)); put('plain ' + o.join(' '), same(r) ?? (w.every((x) => new RegExp(`--${x} .*ignored`).test(r.stderr)) && !traceLines(r.stderr).length && !r.h.file('x.log') ? null : { expected: 'a warning, and nothing else', got: r.stderr.slice(0, 300) })); }
    const exp = (ev, rs) => all.filter((l) => !ev || ev.some((e) => CLASS[e].test(l.Instr))).map((l) => Object.fromEntries(Object.entries(l).filter(([f]) => f === 'Instr' || !rs || rs.some((x) => FIELD[x] === f))));
    const EVS = [null, ...subsets(ALLEV).filter((x) => x.length)], RSS = [null, ...subsets(ALLRS).filter((x) => x.length)];
    for (const ev of EVS) for (const rs of RSS) {
      if (ev && rs && ev.length > 1 && rs.length > 1 && rs.length < 5) continue; const style = (ev?.length ?? 0) + (rs?.length ?? 0); const many = (n, l) => (!l ? [] : style % 3 === 0 ? [n, ...l] : style % 3 === 1 ? [n, l.join(',')] : l.flatMap((x) => [n, x.toUpperCase()]));
      const o = ['--trace', ...(style % 2 ? ['--stats'] : []), ...many('--trace-events', ev), ...many('--trace-resource', rs)]; const r = go(obsV, o); const got = traceLines(r.stderr); put(o.join(' '), same(r) ?? (JSON.stringify(got) === JSON.stringify(exp(ev, rs)) ? null : { expected: exp(ev, rs).slice(0, 2), got: got.slice(0, 2) }));
      if (!rs || rs.length === 1) { const q = go(obsV, [...o, '--trace-output', 't.log'], { 't.log': new Uint8Array(5000).fill(65) }); const file = q.h.file('t.log'); put(o.join(' ') + ' to a file', same(q) ?? (traceLines(q.stderr).length === 0 && file && Buffer.from(file).toString() === (r.stderr.match(/\[[^\n]*Instr:[^\n]*\]\n/g) ?? []).join('') ? null : { expected: 'the lines in the file only', got: [traceLines(q.stderr).length, Buffer.from(file ?? []).toString().slice(0, 200)] })); }
    }
    { const s = go(obsV, ['--stats']); const tot = Number(/Total instructions executed: (\d+)/.exec(s.stdout + s.stderr)?.[1] ?? -1); put('stats', same(s) ?? (job.end === 'returns' && tot !== all.length ? { expected: all.length, got: tot } : null)); }
    for (const d of ['no/dir/t.log']) { const h = new Host({ files: { 'g.wasm': b } }); h.hook = (n, a, m) => { if (n === 'path_open' && Buffer.from(m.sl(a[2], a[3])).toString().includes('t.log')) return 44; }; const r = { ...runCli(obsV, h, ['g.wasm', '--invoke', 'main', '--trace', '--trace-output', d]), h }; put('output which cannot be opened', same(r)); }
    return { job, ...res };
  }
  if (job.fam === 'opens') { // the descriptors a guest is given
    for (const seq of OPENS) { const b = openGuest(seq); const go = (v, args) => { const h = new Host({ files: { 'g.wasm': b } }); const r = runCli(v, h, ['g.wasm', '--invoke', 'main', ...args]); return `${r.st} ${r.code} ${/Result: [^\n]*/.exec(r.stdout)?.[0]}`; }; const ref = go(job.v, []);
      for (const o of [['--stats'], ['--trace'], ['--trace', '--stats', '--trace-events', 'call'], ['--cr'], ...(FILED.includes(seq.join()) ? [['--trace', '--trace-output', 't.log']] : [])]) { const kk = `opens:${seq.join('; ')}:${o.join(' ')}:cli-${job.v}`; if (job.only && job.only !== kk) continue; watch.setKey(kk); const x = go(job.v + '-obs', o); done(kk, x === ref ? null : { expected: ref, got: x }, 'opens', 1); } }
    return { job, ...res };
  }
  if (job.fam === 'cmdcut') { // the trace of a stopped and continued run is the trace of the run
    // no statistics are printed when the guest exits or traps
    const b = cmdGuest(job.end, 400); const v = job.v + '-obs', V2 = job.v2 + '-obs'; for (const o of [['--trace', '--trace-events', 'call'], ['--trace', '--trace-resource', 'pc'], ['--trace', '--trace-resource', 'globals'], ...(job.end === 'returns' ? [['--stats']] : [])]) {
      const kk = `cmdcut:${job.end}:${o.join(' ')}:${v}>${V2}`; if (job.only && job.only !== kk) continue; watch.setKey(kk); const u = runCli(v, new Host({ files: { 'g.wasm': b } }), ['g.wasm', '--invoke', 'main', '--cr', ...o]);
      const h = new Host({ files: { 'g.wasm': b, 'checkpoint.trigger': new Uint8Array(0) } }); const x = runCli(v, h, ['g.wasm', '--invoke', 'main', '--cr', ...o]); const img = h.file('checkpoint.bin'); if (!img) { done(kk, { expected: 'an image', got: x.stdout.slice(0, 200) }, '', 1); continue; }
      const y = runCli(V2, new Host({ files: { 'g.wasm': b, 'checkpoint.bin': img.slice() } }), ['g.wasm', '--restore', 'checkpoint.bin', '--cr', ...o]); const L = (r) => traceLines(r.stderr).map((l) => JSON.stringify(l)); const T = (r) => Number(/Total instructions executed: (\d+)/.exec(r.stdout + r.stderr)?.[1] ?? NaN);
      const a = L(u), c = [...L(x), ...L(y)]; let i = 0; while (i < a.length && a[i] === c[i]) i++; done(kk, o[0] === '--stats' ? (T(x) > 0 && T(x) + T(y) === T(u) ? null : { expected: T(u), got: [T(x), T(y)] }) : a.length && i === a.length && a.length === c.length ? null : { expected: `${a.length} lines`, got: c.length, at: i, of: L(x).length, wanted: a.slice(i - 1, i + 2), lines: c.slice(i - 1, i + 2) }, 'parts', 1);
    }
    return { job, ...res };
  }
  if (job.fam === 'forms') { // a loop around every instruction and every way out: same result, and as many lines and counts as instructions
    for (const name of NL.slice(job.i, job.i + 50)) {
      const bytes = longModule(name); const [P, O] = both(bytes); const g = { name: 'main', args: [V.i32(3)] }; const u = alone(P, g, 0, 1), ex = u.n - (/call|fn/.test(name) && !/return/.test(name) ? 4 : 1); // (reaching the end of a function offers a stop, too, but is no instruction; not relied on)
      for (const [fn, fb] of Object.entries(FLAGS)) { const kk = `forms:${name}:${fn}:${job.v}`; if (job.only && job.only !== kk) continue; watch.setKey(kk); const x = alone(O, g, fb, 1); let bad = P.diff(u, x); const tot = Number(/Total instructions executed: (\d+)/.exec(x.raw)?.[1] ?? -1), lines = traceLines(x.raw).length;
        if (!bad && x.n !== u.n) bad = { polls: u.n, got: x.n }; if (!bad && fb & 2 && tot !== ex && tot !== u.n) bad = { executed: ex, counted: tot }; if (!bad && fb & 4 && lines !== ex && lines !== u.n) bad = { executed: ex, lines }; done(kk, bad, fn, fb, show(u.r)); }
    }
    return { job, ...res };
  }
  if (job.fam === 'values') { // the locals and globals in the trace are those of the executed function
    const T = Object.keys(VTOK); for (const c of job.tier === 'thorough' ? T.flatMap((a) => [[a], ...T.map((b) => [a, b])]) : [[], ...T.map((a) => [a])]) {
      const seq = job.pre.concat(c); const kk = `values:${seq.join('; ')}:${job.v}`; if (job.only && job.only !== kk) continue; watch.setKey(kk); const exp = valueStates(valueGuest(seq, true), [6, -5n]); const lab = new Lab(obs, obs, valueGuest(seq, false), { host: mkHost, argv: ARGV });
      const x = alone(lab, { name: 'main', args: [V.i32(6), V.i64(-5)] }, 4, 0); const got = []; for (const l of traceLines(x.raw)) { const q = `${l.Locals} ${l.Globals}`; if (got[got.length - 1] !== q) got.push(q); } let i = 0; while (i < exp.length && exp[i] === got[i]) i++;
      done(kk, x.r.st === 'ok' && i === exp.length && i === got.length ? null : { expected: exp.slice(i, i + 2), got: got.slice(i, i + 2), at: i, of: exp.length, lines: got.length, st: x.r.st }, 'values', 1, show(x.r));
    }
    return { job, ...res };
  }
  if (job.fam === 'regs') { // every sequence of types: the values beneath a call
    const T = Object.keys(RTOK); const all = [[]]; for (let i = 0; i < all.length; i++) if (all[i].length < (job.tier === 'thorough' ? 6 : 4)) for (const t of T) all.push([...all[i], t]);
    for (const seq of all) {
      const kk = `regs:${seq.join(',')}:${job.v}`; if (job.only && job.only !== kk) continue; watch.setKey(kk); const lab = new Lab(obs, obs, regsGuest(seq), { host: mkHost, argv: ARGV }); const x = alone(lab, { name: 'main', args: [V.i32(6), V.i64(-5), V.f32(0x40000000), V.f64(0x4010000000000000n)] }, 4, 0);
      const ls = traceLines(x.raw), l = ls.find((y) => y.Instr === 'call'); let bad = null; const R = ls.map((y) => regsOf(y.Regs)); if (!l || R.includes(null)) bad = { lines: ls.slice(0, 3) };
      else { const r = regsOf(l.Regs); for (const t of T) { const e = seq.map((y, i) => (y === t ? RTOK[t](i)[1] : null)).filter((y) => y !== null); let k = 0; for (const y of r[t.toUpperCase()] ?? []) if (y === e[k]) k++; if (k < e.length) bad = { type: t, expected: e, got: l.Regs }; } }
      done(kk, x.r.st === 'ok' && !bad ? null : { ...bad, st: x.r.st }, 'regs', 1, show(x.r));
    }
    return { job, ...res };
  }
  if (job.fam === 'report') { // what the observers report
    const EV = { store: 1, load: 2, call: 4, branch: 8 }, RS = { Regs: 1, Locals: 2, Globals: 4, PC: 8 }; const CLS = { store: /store/, load: /load/, call: /^call(_indirect)?$/, branch: /^br(_if|_table)?$/ };
    // a guest whose numbers of stores, loads, calls and conditional branches are known
    const mk = (n, st, ld, ca, ci) => { const m = new Mod(); m.memory(1); m.table('funcref', 2); const ty = m.type(['i32'], ['i32']); m.global('i64', true, I.i64(5)); const f = m.func({ params: ['i32'], results: ['i32'], body: [I.get(0), I.i32(1), I.op('i32.add')] }); m.elem(I.i32(0), [f]); const rep = (k, x) => Array.from({ length: k }, (_, i) => x(i)).flat(Infinity); m.func({ params: ['i32'], results: ['i32'], locals: ['i32', 'f64'], name: 'main', body: [I.get(0), I.if('', [I.loop('', [...rep(st, (i) => [I.i32(8 * i), I.get(0), I.store(i ? 'i32.store' : 'i32.store8')]), ...rep(ld, (i) => [I.i32(8 * i), I.load(i ? 'i32.load16_u' : 'i32.load'), I.set(1)]), ...rep(ca, () => [I.get(1), I.call(f), I.set(1)]), ...rep(ci, () => [I.get(1), I.i32(0), I.call_indirect(ty), I.set(1)]), I.get(0), I.i32(1), I.op('i32.sub'), I.tee(0), I.br_if(0)].flat(Infinity))].flat(Infinity)), I.get(1)] }); return m.build(); };
    const lines = (x) => [...x.raw.matchAll(/\[([^\n]*Instr:[^\n]*)\]\n/g)].map((q) => Object.fromEntries(q[1].split(' | ').map((y) => [y.slice(0, y.indexOf(':')), y.slice(y.indexOf(':') + 1)])));
    // every instruction by its name: once in the trace, once in the counts, in its event class and no other
    const one = { ...Object.fromEntries(Object.entries(OPS).map(([n, o]) => [n, [o.in.map((t) => I.get(AT[t])), I.op(n), I.drop()]])), ...Object.fromEntries(Object.keys(LOADS).map((n) => [n, [I.get(AT.i32), I.load(n, 0), I.drop()]])), ...Object.fromEntries(Object.entries(STORES).map(([n, o]) => [n, [I.get(AT.i32), I.get(AT[o.t]), I.store(n, 0)]])), ...MISC };
    for (const [nm, body] of Object.entries(one)) {
      const name = nm.replace(/ .*/, ''); const key = `name:${nm}:${job.v}`; if (job.only && !job.only.startsWith(key)) continue; watch.setKey(key);
      const mod = (b) => { const m = new Mod(); m.memory(1, 2); m.table('funcref', 4, 8); const ty = m.type([], []); for (const t of NT) m.global(t, true, I.cst(t, 0)); m.dataCount = true; m.datas.push([1, 2, 9, 8]); const f = m.func({ body: [] }); m.elem(I.i32(0), [f]); if (m.type([], []) !== ty) throw new Error('type'); m.func({ params: NT, locals: ['funcref', 'externref'], name: 'main', body: b.flat(Infinity) }); return m.build(); };
      const bytes = mod(body); new WebAssembly.Module(bytes); const [, O] = both(bytes); const g = { name: 'main', args: [V.i32(3), V.i64(5), V.f32(2), V.f64(4)] };
      const all = lines(alone(O, g, 4, 0)), s = alone(O, g, 2, 0); const row = (x) => Number(new RegExp(`^  ${x.replaceAll('.', '\\.')}: +(\\d+)`, 'm').exec(s.raw)?.[1] ?? 0); const n = all.filter((l) => l.Instr === name).length;
      const put = (x, bad) => { const k = `${key}:${x}`; if (!job.only || job.only === k) done(k, bad, 'names', 1); };
      put('trace', n === 1 ? null : { expected: name + ' once', got: all.map((l) => l.Instr) }); if (name !== 'unreachable') put('count', row(name) === n ? null : { expected: n, got: row(name) });
      for (const [ev, bit] of Object.entries(EV)) { const got = lines(alone(O, g, 4 | bit << 4, 0)); const exp = all.filter((l) => CLS[ev].test(l.Instr)); put(ev, JSON.stringify(got) === JSON.stringify(exp) ? null : { expected: exp.map((l) => l.Instr), got: got.map((l) => l.Instr) }); }
    }
    // the table of counts: the 20 most frequent in descending order, their shares, and how many more there are
    const pick = Object.keys(OPS).filter((n) => !/div|rem|trunc/.test(n)); for (let K = 0; K <= 50; K++) for (const shape of [0, 1, 2, 3]) {
      const key = `top:${K},${shape}:${job.v}`; if (job.only && job.only !== key) continue; watch.setKey(key); const times = (i) => [1, 1 + i, K - i, 1 + i % 3][shape];
      const m = new Mod(); m.memory(1); m.func({ params: NT, name: 'main', body: pick.slice(0, 2 * K).filter((_, i) => i % 2 === 0).map((n, i) => Array.from({ length: times(i) }, () => [OPS[n].in.map((t) => I.get(AT[t])), I.op(n), I.drop()])).flat(Infinity) });
      const [, O] = both(m.build()); const g = { name: 'main', args: [V.i32(3), V.i64(5), V.f32(2), V.f64(4)] }; const names = {}; for (const l of lines(alone(O, g, 4, 0))) names[l.Instr] = (names[l.Instr] ?? 0) + 1; const all = Object.entries(names), tot = all.reduce((a, [, n]) => a + n, 0);
      const raw = alone(O, g, 2, 0).raw; const rows = [...raw.matchAll(/^  (\S+): +(\d+) \( *([\d.]+)%\)$/mg)].map((x) => [x[1], +x[2], x[3]]); const more = Number(/^  \.\.\. and (\d+) more$/m.exec(raw)?.[1] ?? 0); const best = all.map(([, n]) => n).sort((a, b) => b - a).slice(0, 20); let bad = null;
      if (JSON.stringify(rows.map((x) => x[1])) !== JSON.stringify(best) || new Set(rows.map((x) => x[0])).size !== rows.length || rows.some(([n, c]) => names[n] !== c)) bad = { expected: best, got: rows.map(([n, c]) => `${n} ${c} of ${names[n]}`) }; else if (more !== all.length - rows.length) bad = { expected: `${all.length - rows.length} more`, got: more }; else if (rows.some(([, c, q]) => Math.abs(c / tot * 100 - q) > 0.0501)) bad = { shares: rows }; else if (tot !== Number(/Total instructions executed: (\d+)/.exec(raw)?.[1] ?? -1)) bad = { total: tot };
      done(key, bad, 'top', 1);
    }
    for (const n of [0, 1, 2, 3]) for (const st of [0, 1, 2]) for (const ld of [0, 1, 2]) for (const ca of [0, 1]) for (const ci of [0, 1]) {
      const key = `report:${n}x(${st} stores, ${ld} loads, ${ca} calls, ${ci} indirect):${job.v}`; if (job.only && !job.only.startsWith(key)) continue; watch.setKey(key); const [, O] = both(mk(n, st, ld, ca, ci)); const g = { name: 'main', args: [V.i32(n)] }; const want = { store: n * st, load: n * ld, call: n * (ca + ci), branch: n };
      const s = alone(O, g, 2, 0), all = lines(alone(O, g, 4, 0)), tot = Number(/Total instructions executed: (\d+)/.exec(s.raw)?.[1] ?? -1); const row = (nm) => Number(new RegExp(`^  ${nm.replace('.', '\\.')}: +(\\d+)`, 'm').exec(s.raw)?.[1] ?? 0);
      const k = (x) => `${key}:${x}`; const put = (x, bad) => { if (!job.only || job.only === k(x)) done(k(x), bad, 'report', 1); };
      put('total', tot === all.length && tot > 0 ? null : { expected: `${all.length} traced instructions, as many counted`, got: tot });
      const names = {}; for (const l of all) names[l.Instr] = (names[l.Instr] ?? 0) + 1; put('rows', Object.keys(names).length <= 20 && Object.entries(names).some(([a, b]) => row(a) !== b) ? { expected: names, got: Object.fromEntries(Object.keys(names).map((a) => [a, row(a)])) } : null);
      for (const [ev, bit] of Object.entries(EV)) { const sub = all.filter((l) => CLS[ev].test(l.Instr)); put(ev, sub.length === want[ev] ? null : { expected: want[ev], got: sub.length }); const only = lines(alone(O, g, 4 | bit << 4, 0)); put(ev + ' only', JSON.stringify(only) === JSON.stringify(sub) ? null : { expected: `${sub.length} lines`, got: only.length }); }
      { const two = lines(alone(O, g, 4 | 9 << 4, 0)); const sub = all.filter((l) => CLS.store.test(l.Instr) || CLS.branch.test(l.Instr)); put('store,branch', JSON.stringify(two) === JSON.stringify(sub) ? null : { expected: sub.length, got: two.length }); }
      for (let r = 1; r < 16; r++) { const got = lines(alone(O, g, 4 | r << 8, 0)); const exp = all.map((l) => Object.fromEntries(Object.entries(l).filter(([f]) => f === 'Instr' || r & (RS[f] ?? 16)))); put('resources ' + r, JSON.stringify(got) === JSON.stringify(exp) ? null : { expected: exp[0], got: got[0] }); }
      { // the values shown: the counter local runs down by one per turn; the last line shows the final locals
        const ctr = all.filter((l) => CLS.branch.test(l.Instr) && /^\[I32\(-?\d+\),I32\(-?\d+\),F64/.test(l.Locals)).map((l) => Number(/I32\((-?\d+)\)/.exec(l.Locals)[1])); put('locals', JSON.stringify(ctr) === JSON.stringify(Array.from({ length: n }, (_, i) => n - 1 - i)) ? null : { expected: `${n} turns counting down`, got: ctr }); put('globals', all.every((l) => l.Globals === '[I64(5)]') ? null : { expected: '[I64(5)]', got: all.find((l) => l.Globals !== '[I64(5)]')?.Globals }); }
    }
    return { job, ...res };
  }
  if (job.fam === 'prog') {
    const p = PROGS[job.k]; const bytes = progModule(job.k); const [P, O] = both(bytes); const g = { name: 'main', args: p.args }; explore(P, O, 'prog:' + job.k, { ...g, results: [] }, []);
    const u = alone(P, g, 0, 1), uo = alone(O, g, 0, 1); if (u.n !== uo.n) done(`prog:${job.k}:polls:${job.v}`, { expected: `${u.n} checkpoint instants`, got: uo.n }, '', 1);
    for (let k = 1; k <= u.n; k += job.step) for (const [name, from, fFlag, wasm, tFlag] of [['plain>obs', P, 0, obs, 6], ['obs>plain', O, 6, plain, 0], ['obs>obs', O, 2, obs, 4]]) {
      const kk = `prog:${job.k}:cut@${k}:${name}:${job.v}`; if (job.only && job.only !== kk) continue; watch.setKey(kk);
      const h = mkHost(); const c = from.start(h); c.poll = (i) => (i === k ? 1 : 0); const r = c.call('main', g.args, fFlag | 1); const img = r.st === 'ckpt' ? h.file('checkpoint.bin')?.slice() : null; if (!img) { done(kk, { expected: 'an image', got: show(r) }, '', 1); continue; }
      const L = wasm === plain ? P : O; const h2 = mkHost(); h2.files = h.files; h2.err = h.err; h2.out = h.out; h2.inpos = h.inpos; h2.clock = h.clock; h2.rnd = h.rnd; const d = L.b; d.fresh(h2); d.load(bytes, ARGV); d.poll = () => 0; const r2 = d.restore(img, tFlag | 1); done(kk, P.diff(u, { r: r2, state: d.dead || r2.st === 'rejected' ? null : P.state(d), err: tidy(h2.stderr()) }), name, 1);
    }
    return { job, ...res };
  }
  const f = FAM[job.fam]; const opt = { results: f.res, nest: f.nest ?? 1, maxStack: 4 }; let Q = [];
  const flush = () => { if (!Q.length) return; const m = new Mod(); const env = setup(m); Q.forEach((p, i) => m.func({ params: PARAMS, results: f.res, locals: LOCALS, body: emit(p, env), name: 'p' + i })); const bytes = m.build(); const [P, O] = both(bytes); Q.forEach((p, i) => explore(P, O, `${job.fam}:${p.join(' ')}`, { name: 'p' + i, args: ARGS }, f.res)); Q = []; };
  for (const p of bodies(A, f.toks, job.depth, opt, job.prefix, stateAfter(A, job.prefix, opt))) { if (job.prefix.length && p.length < 2) continue; Q.push(p); if (Q.length >= 40) flush(); }
  flush(); return { job, ...res };
}
