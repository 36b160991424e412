// C08: instantiation. Every module of several enumerated families is instantiated in a
// fresh interpreter and in V8: same verdict, and the same memory, tables, globals, exports.
import { I, Mod, u, str, T } from '../lib/asm.mjs';
import { V, Chiwawa, Ref, Host, sameVal, sameVals, jsToVal } from '../lib/host.mjs';
import { wasmPath } from '../lib/build.mjs';
import { FULL } from '../lib/vals.mjs';
import { runCli } from '../lib/cli.mjs';
import { SPEC } from '../lib/wspec.mjs';
import * as watch from '../lib/watch.mjs';

export const variants = ['tco', 'legacy', 'cli-tco', 'cli-legacy'];
const DISP = ['tco', 'legacy'];
const fl = (b) => b.flat(Infinity);
// ---- data segments: [kind, offset, length]
const DOPT = []; for (const k of [0, 2]) for (const [o, ls] of [[0, [0, 1, 4]], [2, [3]], [65533, [3, 4]], [65536, [0, 1]], [65537, [0]], [-1, [0, 1]]]) for (const l of ls) if (k === 0 || o === 2 || o === 65533) DOPT.push([k, o, l]);
DOPT.push([1, 0, 0], [1, 0, 3], [0, 0, 4, 0], [0, 1, 2, 0], [2, 2, 3, 255], [1, 0, 3, 0]); // a fourth entry: every byte the same
const DSM = [[0, 0, 4], [0, 2, 3], [2, 1, 5], [0, 65533, 3], [0, 65533, 4], [1, 0, 3], [0, 3, 0], [0, 1, 3, 0], [2, 0, 2, 255]];
const segBytes = (n, k, same) => Array.from({ length: n }, (_, i) => same ?? 0x10 * (k + 1) + i);
const dseg = ([k, o, l, same], n) => (k === 1 ? [1, ...u(l), ...segBytes(l, n, same)] : [...(k === 0 ? [0] : [2, 0]), ...I.i32(o), 0x0b, ...u(l), ...segBytes(l, n, same)]);
// ---- element segments: [encoding 0..7, table, offset, funcs] ; -1 = null (expression encodings only)
const EOPT = []; for (const e of [0, 2, 4, 6]) for (const tb of e === 2 || e === 6 ? [0, 1] : [0]) for (const [o, fs] of [[0, [0]], [0, [1, 0, 2]], [2, [1, 2]], [3, [1]], [3, []], [4, []], [2, []], [-1, [0]]]) EOPT.push([e, tb, o, fs]);
for (const e of [4, 6]) EOPT.push([e, 0, 0, [-1]], [e, 0, 0, [1, -1, 0]]); for (const e of [1, 3, 5, 7]) EOPT.push([e, 0, 0, [0, 1]], [e, 0, 0, []]);
const ESM = [[0, 0, 0, [0, 1]], [0, 0, 1, [2, 2]], [2, 1, 0, [1]], [2, 1, 1, [0, 2]], [1, 0, 0, [0]], [0, 0, 2, [0, 1]], [4, 0, 0, [2, 0]]];
function eseg([e, tb, o, fs], base) {
  const ex = (f) => (f < 0 ? [0xd0, 0x70, 0x0b] : [0xd2, ...u(base + f), 0x0b]); const idx = [...u(fs.length), ...fs.flatMap((f) => u(base + f))]; const exs = [...u(fs.length), ...fs.flatMap(ex)]; const off = [...I.i32(o), 0x0b];
  return [[0, ...off, ...idx], [1, 0, ...idx], [2, ...u(tb), ...off, 0, ...idx], [3, 0, ...idx], [4, ...off, ...exs], [5, 0x70, ...exs], [6, ...u(tb), ...off, 0x70, ...exs], [7, 0x70, ...exs]][e];
}
const NAMES = ['', 'a', 'memory2', 'é', '日本語', 'x'.repeat(300), 'a b\n', '_start', '__indirect_function_table', '\u{1F600}'];
function cases(fam, tier) {
  const C = []; const T3 = tier === 'thorough';
  if (fam === 'data') { for (const a of DOPT) { C.push([a]); for (const b of DOPT) C.push([a, b]); } for (const a of DSM) for (const b of DSM) for (const c of DSM) { C.push([a, b, c]); if (T3) for (const d of DSM) C.push([a, b, c, d]); } }
  if (fam === 'elem') { for (const a of EOPT) { C.push([a]); for (const b of EOPT) C.push([a, b]); } for (const a of ESM) for (const b of ESM) for (const c of ESM) { C.push([a, b, c]); if (T3) for (const d of ESM) C.push([a, b, c, d]); } }
  if (fam === 'global') { for (const t of ['i32', 'i64', 'f32', 'f64']) for (const m of [0, 1]) for (const v of FULL[t]) C.push([[t, m, String(v)]]); const few = [['i32', 1, '7'], ['i64', 0, '9'], ['f32', 1, '1069547520'], ['f64', 0, '4609434218613702656'], ['ref', 1, '0']]; for (const a of few) for (const b of few) { C.push([a, b]); for (const c of few) C.push([a, b, c]); } }
  if (fam === 'limits') { const L = [[0], [0, 0], [0, 1], [1], [1, 1], [1, 3], [2, 2], [3], [17], [2, 65536]]; for (const a of [null, ...L]) for (const b of [null, [0], [0, 0], [0, 4], [1], [3, 5], [10, 10], [70]]) C.push([a, b]); }
  if (fam === 'export') { for (let imp = 0; imp <= 3; imp++) for (const n of NAMES) for (let f = 0; f < 3 + imp; f++) C.push([imp, n, f]); for (const n of NAMES) for (const k of [1, 2, 3]) C.push([0, n, -k]); }
  if (fam === 'layout') { for (let nt = 0; nt <= 3; nt++) for (let ni = 0; ni <= 2; ni++) for (let nf = 0; nf <= 4; nf++) for (const cs of [0, 1, 2, 3]) for (const dc of [0, 1]) C.push([nt, ni, nf, cs, dc]); }
  if (fam === 'start') { const E = START.length; for (const pos of [0, 1]) { C.push([pos]); for (let a = 0; a < E; a++) { C.push([pos, a]); for (let b = 0; b < E; b++) { C.push([pos, a, b]); for (let c = 0; c < E; c++) { C.push([pos, a, b, c]); if (T3) for (let d = 0; d < E; d++) C.push([pos, a, b, c, d]); } } } } }
  if (fam === 'wasi') return wasiCases(T3); if (fam === 'link') return linkCases();
  return C;
}
// ---- start function: every sequence of effects, run by the command itself before the invoked export
const START = [() => fl([I.gget(0), I.i32(10), I.op('i32.mul'), I.i32(1), I.op('i32.add'), I.gset(0)]), () => fl([I.i32(40), I.i32(40), I.load('i32.load'), I.i32(3), I.op('i32.add'), I.store('i32.store')]), (w) => fl([I.i32(1), I.i32(0), I.i32(1), I.i32(60), I.call(w), I.drop()]), () => fl([I.i32(1), I.grow(), I.drop()]), (w, f) => I.call(f), () => I.unreachable(), () => fl([I.i32(7), I.call(1)])];
function startMod([pos, ...es], asStart) {
  const m = new Mod(); m.importFunc('wasi_snapshot_preview1', 'fd_write', ['i32', 'i32', 'i32', 'i32'], ['i32']); m.importFunc('wasi_snapshot_preview1', 'proc_exit', ['i32'], []);
  m.memory(1); m.global('i32', true, I.i32(1)); m.data(I.i32(0), [50, 0, 0, 0, 2, 0, 0, 0]); m.data(I.i32(50), [65, 66]); const help = 2 + (pos ? 0 : 1), st = pos ? 3 : 2;
  const H = () => m.func({ body: fl([I.gget(0), I.i32(5), I.op('i32.add'), I.gset(0)]) }), S = () => m.func({ body: fl([es.map((e) => START[e](0, help))]), name: asStart ? undefined : '__start' });
  if (pos) { H(); S(); } else { S(); H(); } if (asStart) m.start(st);
  m.func({ results: ['i32'], body: fl([I.gget(0), I.i32(1000), I.op('i32.mul'), I.i32(40), I.load('i32.load'), I.op('i32.add'), I.size(), I.i32(1000000), I.op('i32.mul'), I.op('i32.add')]), name: 'f' }); return m.build();
}
function runStart(job, res, bump) {
  for (const cs of cases('start', job.tier).slice(job.from, job.to)) {
    const key = `start:${JSON.stringify(cs)}:${job.v}`; if (job.only && job.only !== key) continue; watch.setKey(key);
    const rh = new Host(), ref = new Ref(new WebAssembly.Module(startMod(cs, false)), rh); let a = ref.call('__start', [], []), val = null; if (a.st === 'ok') { a = ref.call('f', [], ['i32']); val = Number(BigInt.asIntN(32, a.vals[0].v)); }
    const h = new Host({ files: { 'g.wasm': startMod(cs, true) } }); const b = runCli(job.v, h, ['g.wasm', '--invoke', 'f']); res.evals++; res.nontrivial++; bump('start: ' + a.st);
    const exp = rh.stdout() + (val === null ? '' : `Result: Num(I32(${val}))\n`); let bad = null;
    if (b.stdout !== exp) bad = { stdout: b.stdout, expected: exp, st: b.st, stderr: b.stderr.slice(0, 200) };
    else if (a.st === 'exit' && (b.st !== 'exit' || b.code !== a.code)) bad = { expected: 'exit ' + a.code, got: b.st, code: b.code };
    else if (a.st === 'trap' && !(b.st === 'trap' || b.code !== 0)) bad = { expected: 'trap', got: b.st, code: b.code };
    if (bad) res.violations.push({ key, detail: bad });
  }
}
// ---- imports: a WASI function exists under its own name, in its own module, with its own type and no other
const SIGS = { ...Object.fromEntries(Object.entries(SPEC).map(([n, ps]) => [n, [ps.flatMap((p) => (p === 'W' ? ['i64'] : p === 'q' ? ['i32', 'i32', 'i32'] : 'PBciAE'.includes(p) ? ['i32', 'i32'] : ['i32'])), ['i32']]])), proc_exit: [['i32'], []] };
const TYS = ['i32', 'i64', 'f32', 'f64'];
function wrongTypes([ps, rs], T3) {
  const L = []; const other = (t) => (T3 ? TYS.filter((x) => x !== t) : [t === 'i32' ? 'i64' : 'i32', 'f32']);
  ps.forEach((t, i) => { for (const o of other(t)) L.push([ps.map((x, j) => (j === i ? o : x)), rs]); L.push([ps.filter((_, j) => j !== i), rs]); }); for (const o of T3 ? TYS : ['i32', 'i64']) L.push([[...ps, o], rs], [[o, ...ps], rs]);
  L.push([[], rs], [ps, []], [ps, ['i32']], [ps, ['i64']], [ps, ['i32', 'i32']], [[], []]); if (ps.length > 1) L.push([ps.slice().reverse(), rs]);
  const same = JSON.stringify([ps, rs]); return [...new Map(L.map((x) => [JSON.stringify(x), x]))].filter(([k]) => k !== same).map(([, x]) => x);
}
const P1 = 'wasi_snapshot_preview1', MODS = ['wasi_unstable', 'wasi_snapshot_preview', 'wasi_snapshot_preview11', 'Wasi_snapshot_preview1', ' wasi_snapshot_preview1', 'wasi_snapshot_preview1\0', '', 'env', 'wasi', 'm0', 'wasi_snapshot_preview2'];
const nearNames = (n) => [n.slice(0, -1), n + '_', n + ' ', n.toUpperCase(), n[0].toUpperCase() + n.slice(1), '', n.replace('_', '-'), n + '\0', '_' + n, n.replace(/_/g, '')].filter((x) => !SIGS[x]);
// the other import (a right one) stands before or after; the import in question is used or not
function wasiMod([mod, name, [ps, rs], after, used]) {
  const m = new Mod(); const right = () => m.importFunc(P1, 'fd_write', ['i32', 'i32', 'i32', 'i32'], ['i32']); let w, x; if (after) { w = right(); x = m.importFunc(mod, name, ps, rs); } else { x = m.importFunc(mod, name, ps, rs); w = right(); }
  m.memory(1); m.data(I.i32(0), [50, 0, 0, 0, 2, 0, 0, 0]); m.data(I.i32(50), [65, 66]); const say = fl([I.i32(1), I.i32(0), I.i32(1), I.i32(60), I.call(w), I.drop()]);
  m.func({ body: fl([say, used ? [ps.map((t) => I.cst(t, 0n)), I.call(x), rs.map(() => I.drop())] : [], say]), name: '_start' }); return m.build();
}
function wasiCases(T3) {
  const C = []; for (const [n, sig] of Object.entries(SIGS)) {
    C.push([P1, n, sig, 0, 0, 1], [P1, n, sig, 1, 0, 1]); const bad = (mod, name, t) => { for (const after of [0, 1]) for (const used of [0, 1]) C.push([mod, name, t, after, used, 0]); };
    for (const t of wrongTypes(sig, T3)) bad(P1, n, t); for (const x of nearNames(n)) bad(P1, x, sig); for (const x of MODS) bad(x, n, sig);
  } return C;
}
function runWasi(job, res, bump) {
  for (const cs of wasiCases(job.tier === 'thorough').slice(job.from, job.to)) {
    const [mod, name, [ps, rs], after, used, ok] = cs; const key = `wasi:${JSON.stringify(mod)}.${JSON.stringify(name)}(${ps})->(${rs}):${after ? 'after' : 'before'}:${used ? 'used' : 'unused'}:${job.v}`; if (job.only && job.only !== key) continue; watch.setKey(key);
    const r = runCli(job.v, new Host({ files: { 'g.wasm': wasiMod(cs) } }), ['g.wasm']); res.evals++; res.nontrivial++; bump(ok ? 'import of a function there is' : 'import of a function there is not');
    const failed = r.st === 'trap' || r.code !== 0; if (ok ? r.stdout !== 'ABAB' || failed : r.stdout !== '' || !failed) res.violations.push({ key, detail: { expected: ok ? 'linked' : 'refused before anything runs', stdout: r.stdout, st: r.st, code: r.code, stderr: r.stderr.slice(0, 160) } });
  }
}
// functions of another instance: linked if the export is a function of exactly the type declared
const LT = [[[], []], [['i32'], []], [[], ['i32']], [['i32'], ['i32']], [['i64'], ['i32']], [['i32'], ['i64']], [['f32'], ['i32']], [['i32', 'i32'], ['i32']], [['i32', 'i64'], ['i32']], [['i64', 'i32'], ['i32']], [['i32'], ['i32', 'i32']], [['i32'], ['i32', 'i64']], [['i32'], ['i64', 'i32']], [['f64'], ['f64']], [['funcref'], []], [['externref'], []], [[], ['funcref']], [[], ['externref']]];
const LPROV = (() => { const m = new Mod(); m.memory(1); m.table('funcref', 2, undefined, 'table'); m.global('i32', false, I.i32(5), 'global'); LT.forEach(([p, r], i) => m.func({ params: p, results: r, body: fl(r.map((t, j) => (t.endsWith('ref') ? I.ref_null(t) : I.cst(t, BigInt(10 * i + j + 1))))), name: 'e' + i })); return m.build(); })();
function linkMod([mod, name, t, pos]) { const m = new Mod(); const right = () => m.importFunc('m0', 'e2', [], ['i32']); let f; if (pos) f = right(); const [p, r] = LT[t]; m.importFunc(mod, name, p, r); if (!pos) f = right(); m.func({ results: ['i32'], body: fl([I.call(f), I.i32(1000), I.op('i32.add')]), name: 'f' }); return m.build(); }
function linkCases() { const C = []; for (const pos of [0, 1]) { LT.forEach((_, e) => LT.forEach((_, t) => C.push(['m0', 'e' + e, t, pos]))); for (const n of ['memory', 'table', 'global', 'absent', 'e', 'e02', 'E2', '']) LT.forEach((_, t) => C.push(['m0', n, t, pos])); for (const mod of ['m1', 'm', '', 'M0', 'm00']) for (const t of [0, 2]) C.push([mod, 'e' + t, t, pos]); } return C; }
function runLink(job, res, bump) {
  const w = wasmPath(job.v); let c = null; const prov = new WebAssembly.Instance(new WebAssembly.Module(LPROV)).exports;
  for (const cs of linkCases().slice(job.from, job.to)) {
    const key = `link:${cs[0]}.${cs[1]} as (${LT[cs[2]][0]})->(${LT[cs[2]][1]}):${cs[3]}:${job.v}`; if (job.only && job.only !== key) continue; watch.setKey(key); const host = new Host(); if (c) c.fresh(host); else c = new Chiwawa(w, host);
    const a = c.load(LPROV); if (a.st !== 'ok') throw new Error('provider ' + a.msg); c.x.mc_keep(); const b = linkMod(cs); let ref = null; try { ref = new WebAssembly.Instance(new WebAssembly.Module(b), { m0: prov }).exports; } catch (e) { if (!(e instanceof WebAssembly.LinkError || e instanceof TypeError)) throw e; }
    const l = c.load(b); res.evals++; res.nontrivial++; bump(ref ? 'linked' : 'not linked'); let bad = null;
    if (!ref) { if (l.st === 'ok') bad = { expected: 'refused', got: 'linked' }; } else if (l.st !== 'ok') bad = { expected: 'linked', got: l.st, msg: l.msg }; else { const x = c.call('f', []); if (x.st !== 'ok' || !sameVals([V.i32(ref.f())], x.vals)) bad = { expected: ref.f(), got: x.vals ? x.vals.map(V.show) : x.st }; }
    if (bad) { res.violations.push({ key, detail: bad }); } if (c.dead) c = null;
  }
}
function build(fam, c) {
  const m = new Mod(); let base = 0; const calls = [];
  const imports = (n) => { const im = [['sched_yield', []], ['fd_close', ['i32']], ['proc_exit', ['i32']]]; for (let i = 0; i < n; i++) m.importFunc('wasi_snapshot_preview1', im[i][0], im[i][1], im[i][0] === 'proc_exit' ? [] : ['i32']); };
  const three = () => [0, 1, 2].map((k) => m.func({ results: ['i32'], body: I.i32(100 + k), name: 'f' + k }));
  if (fam === 'data') { m.memory(1, 2); three(); m.dataCount = true; c.forEach((d, n) => m.datas.push(dseg(d, n))); c.forEach((d, n) => { m.func({ params: ['i32'], name: 'init' + n, body: fl([I.i32(100), I.i32(0), I.get(0), I.mem_init(n)]) }); calls.push(['init' + n, [V.i32(d[0] === 1 ? d[2] : 0)], []]); }); }
  if (fam === 'elem') { imports(1); base = 1; m.memory(1); m.table('funcref', 3, undefined, 't0'); m.table('funcref', 3, undefined, 't1'); three(); c.forEach((e) => m.elemRaw(eseg(e, base))); }
  if (fam === 'global') { m.memory(1); c.forEach(([t, mu, v], i) => { const ty = t === 'ref' ? 'funcref' : t; m.global(ty, !!mu, t === 'ref' ? I.ref_null('funcref') : I.cst(t, BigInt(v)), 'x' + i); if (t !== 'ref') { m.func({ results: [ty], body: I.gget(i), name: 'get' + i }); calls.push(['get' + i, [], [ty]]); } }); }
  if (fam === 'limits') { const [mm, tt] = c; if (mm) { m.memory(mm[0], mm[1]); m.func({ results: ['i32'], body: I.size(), name: 'size' }); m.func({ params: ['i32'], results: ['i32'], body: fl([I.get(0), I.grow()]), name: 'grow' }); calls.push(['size', [], ['i32']]); for (const d of [0, 1, 1, 2, 65536]) calls.push(['grow', [V.i32(d)], ['i32']], ['size', [], ['i32']]); } if (tt) { m.table('funcref', tt[0], tt[1], 't0'); } three(); }
  if (fam === 'export') { const [imp, n, f] = c; imports(imp); m.memory(1); m.table('funcref', 2, undefined, 'tt'); m.global('i32', false, I.i32(5), 'gg'); three(); if (f >= 0) { m.exportFunc(n, f); if (f >= imp) calls.push([n, [], ['i32']]); } else m.exports.push([...str(n), -f, 0]); for (const k of [0, 1, 2]) calls.push(['f' + k, [], ['i32']]); calls.push(['absent', [], ['i32']]); }
  if (fam === 'layout') { const [nt, ni, nf, cs, dc] = c; for (let i = 0; i < nt; i++) m.types.push([0x60, 1, 0x7e, 0]); imports(ni); m.memory(1); for (let i = 0; i < nf; i++) { m.func({ params: i % 2 ? ['i32'] : [], results: ['i64'], body: I.i64(1000 + i), name: 'f' + i }); calls.push(['f' + i, i % 2 ? [V.i32(1)] : [], ['i64']]); } if (dc) { m.dataCount = true; m.datas.push([1, 2, 5, 6]); } m.custom = cs; }
  let b = m.build();
  if (m.custom) { // custom sections before, between and after the others
    const cus = (n) => { const body = [...str(n), 1, 2, 3, 0xff]; return [0, ...u(body.length), ...body]; }; const out = [...b.slice(0, 8)]; let o = 8; if (m.custom & 1) out.push(...cus('first'));
    while (o < b.length) { let p = o + 1, n = 0, sh = 0; for (;;) { const x = b[p++]; n += (x & 127) * 2 ** sh; sh += 7; if (!(x & 128)) break; } out.push(...b.slice(o, p + n)); o = p + n; if (m.custom & 2) out.push(...cus('name')); }
    b = Uint8Array.from(out);
  }
  return { bytes: b, calls };
}
const FAMS = ['data', 'elem', 'global', 'limits', 'export', 'layout', 'start', 'wasi', 'link'];
export const meta = {
  level: 'exploration', rule: 'one execution = one module definition instantiated in a fresh interpreter instance and in V8, then every listed export called; compared: accepted or failed, whole memory and its size, every table entry, every global, results of the calls; non-trivial = distinct modules',
  bounds: (t) => [`data: every sequence of 1..2 segments over ${DOPT.length} (kind, offset, length) choices and of 3${t === 'thorough' ? '..4' : ''} over ${DSM.length}`, `elem: every sequence of 1..2 segments over ${EOPT.length} (encoding 0..7, table, offset, functions) choices and of 3${t === 'thorough' ? '..4' : ''} over ${ESM.length}`, 'global: every type x mutability x boundary bit pattern; every sequence of 1..3 over 5 declarations', 'limits: 11 memory x 8 table limits, with growth', 'export: 0..3 imported functions x 10 names x every function / table / memory / global', `start: every sequence of up to ${t === 'thorough' ? 4 : 3} of ${START.length} effects (global, memory, output, growth, call, trap, exit) in the start function, run through the command line`, 'layout: extra types, imports, functions, custom sections between all sections, data count', 'wasi: every WASI import x every wrong type, name and module name, through the command line', 'link: functions of other instances x 18 types, right and wrong'],
  assumptions: ['V8 implements WebAssembly instantiation', 'memory, table and global imports, and reference-typed results at the embedding boundary, are outside chiwawa\'s feature set'],
};
export async function plan(tier) { const jobs = []; for (const v of DISP) for (const fam of FAMS) { const n = cases(fam, tier).length; for (let i = 0; i < n; i += 150) jobs.push({ fam, v, from: i, to: Math.min(n, i + 150), tier }); } return jobs; }
export async function run(job) {
  const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; const bump = (k) => { res.outcomes[k] = (res.outcomes[k] ?? 0) + 1; }; { const own = { start: runStart, wasi: runWasi, link: runLink }[job.fam]; if (own) { own(job, res, bump); return { job, ...res }; } } const w = wasmPath(job.v); let c = null;
  for (const cs of cases(job.fam, job.tier).slice(job.from, job.to)) {
    const key = `${job.fam}:${JSON.stringify(cs)}:${job.v}`; if (job.only && job.only !== key) continue; watch.setKey(key);
    const { bytes, calls } = build(job.fam, cs); let mod; try { mod = new WebAssembly.Module(bytes); } catch (e) { if (job.fam === 'export') continue; throw new Error(key + ' ' + e.message); } // a duplicate export name is not a module
    const host = new Host(); let ref = null, why = ''; try { ref = new Ref(mod, new Host()); } catch (e) { if (!(e instanceof WebAssembly.RuntimeError)) throw e; why = e.message; }
    if (c) c.fresh(host); else c = new Chiwawa(w, host); const l = c.load(bytes); res.evals++; res.nontrivial++; let bad = null;
    if (!ref) { bump('instantiation fails'); if (l.st === 'ok') bad = { expected: 'instantiation fails: ' + why, got: 'ok' }; } else if (l.st !== 'ok') bad = { expected: 'instantiated', got: l.st, msg: l.msg }; else {
      bump('instantiated');
      const look = () => {
        if (ref.x.memory) { const x = ref.memBytes(), y = c.memBytes(); if (x.length !== y.length) return { memorySize: [x.length, y.length] }; if (Buffer.compare(x, y)) { let q = 0; while (x[q] === y[q]) q++; return { memoryAt: q, expected: Buffer.from(x.subarray(q, q + 8)).toString('hex'), got: Buffer.from(y.subarray(q, q + 8)).toString('hex') }; } }
        const ts = c.tables(); const nimp = job.fam === 'elem' ? 1 : 0;
        for (let t = 0; ref.x['t' + t]; t++) { const tb = ref.x['t' + t]; if (!ts[t] || ts[t].length !== tb.length) return { table: t, expected: tb.length, got: ts[t]?.length }; for (let i = 0; i < tb.length; i++) { const f = tb.get(i); let e = 0xffffffffn; if (f) { e = -1n; for (let k = 0; k < 3; k++) if (ref.x['f' + k] === f) e = BigInt(nimp + k); } if (ts[t][i].v !== e) return { table: t, entry: i, expected: String(e), got: String(ts[t][i].v) }; } }
        const gs = c.globals(); for (let g = 0; ref.x['x' + g]; g++) { const e = jsToVal(ref.x['x' + g].value, job.fam === 'global' ? ({ ref: 'funcref' }[cs[g][0]] ?? cs[g][0]) : 'i32'); if (!gs[g] || !sameVal(e, gs[g])) return { global: g, expected: V.show(e), got: gs[g] && V.show(gs[g]) }; }
        return null;
      };
      bad = look();
      for (const [n, args, rs] of calls) {
        if (bad) break; const absent = typeof ref.x[n] !== 'function'; const b = c.call(n, args);
        if (absent) { if (b.st !== 'noexport') bad = { call: n, expected: 'no such export', got: b.st }; continue; }
        const a = ref.call(n, args, rs);
        if (a.st !== (b.st === 'err' ? 'trap' : b.st) || (a.st === 'ok' && !sameVals(a.vals, b.vals))) bad = { call: n, expected: a.vals?.map(V.show) ?? a.st, got: b.vals?.map(V.show) ?? b.st, msg: b.msg }; if (c.dead) break;
      }
      if (!bad && !c.dead) bad = look();
    }
    if (bad) res.violations.push({ key, detail: bad }); else if (res.samples.length < 1) res.samples.push({ module: key, verdict: ref ? 'instantiated' : why });
  }
  return { job, ...res };
}
