// C19: what is not a valid module is refused. Valid modules are damaged in every enumerated
// way (each byte to each value, each cut, each arrangement of sections), and every sequence
// of instructions is offered as a body; V8's validation is the reference verdict.
import { I, Mod, u, str, T } from '../lib/asm.mjs';
import { Chiwawa, Host } from '../lib/host.mjs';
import { wasmPath } from '../lib/build.mjs';
import { runCli } from '../lib/cli.mjs';
import { LENS, PLACES, CNAMES, SITES, LEADS, CUSTOMS, customs, around, ints, sizes, consts, names, limits } from '../lib/inv.mjs';
import * as watch from '../lib/watch.mjs';

export const variants = ['tco', 'cli-tco', 'cli-legacy'];
const fl = (b) => b.flat(Infinity);
// ---- base modules
const BASE = {
  all: () => { const m = new Mod(); m.importFunc('wasi_snapshot_preview1', 'fd_close', ['i32'], ['i32']); m.memory(1, 2); m.table('funcref', 2, 4, 't'); m.global('i32', true, I.i32(7)); m.global('i64', false, I.i64(-1)); m.elem(I.i32(0), [1, 2]); m.dataCount = true; m.datas.push([1, 2, 9, 8]); m.data(I.i32(5), [1, 2, 3]); m.func({ params: ['i32'], results: ['i32'], locals: ['i64'], body: fl([I.get(0), I.if('i32', I.i32(1), fl([I.get(0), I.i32(3), I.op('i32.add')]))]), name: 'f' }); m.func({ body: fl([I.i32(0), I.i32(0), I.i32(1), I.mem_init(0), I.i32(1), I.gset(0)]) }); m.start(2); return m.build(); },
  control: () => { const m = new Mod(); m.memory(1); m.func({ params: ['i32'], results: ['i32'], body: fl([I.block(undefined, fl([I.loop(undefined, fl([I.get(0), I.br_if(1), I.br(0)]))])), I.block('i32', fl([I.i32(5), I.get(0), I.br_table([0, 0], 0)]))]), name: 'f' }); return m.build(); },
  calls: () => { const m = new Mod(); m.memory(1); m.table('funcref', 3, undefined, 't'); const a = m.func({ params: ['i64', 'f32'], results: ['f64', 'i32'], body: fl([I.get(0), I.op('f64.convert_i64_s'), I.i32(2)]) }); m.elem(I.i32(0), [a]); m.func({ results: ['i32'], body: fl([I.i64(5), I.f32(1), I.call(a), I.set(0), I.drop(), I.get(0), I.drop(), I.i64(6), I.f32(2), I.i32(0), I.call_indirect(m.type(['i64', 'f32'], ['f64', 'i32'])), I.set(0), I.drop(), I.get(0)]), locals: ['i32'], name: 'f' }); return m.build(); },
  memory: () => { const m = new Mod(); m.memory(1); m.func({ results: ['i64'], body: fl([I.i32(8), I.i64(5), I.store('i64.store', 16), I.i32(8), I.load('i32.load8_s', 1), I.drop(), I.i32(1), I.grow(), I.drop(), I.size(), I.drop(), I.i32(8), I.load('i64.load', 16)]), name: 'f' }); return m.build(); },
};
const sections = (b) => { const r = []; let o = 8; while (o < b.length) { let p = o + 1, n = 0, sh = 0; for (;;) { const x = b[p++]; n += (x & 127) * 2 ** sh; sh += 7; if (!(x & 128)) break; } r.push(b.slice(o, p + n)); o = p + n; } return r; };
// ---- every body over these instructions: one i32 parameter, one i64 local, results i32
const TOK = { c: [0x41, 5], C: [0x42, 5], g: [0x20, 0], G: [0x20, 1], s: [0x21, 0], S: [0x21, 1], t: [0x22, 0], add: [0x6a], Add: [0x7c], wrap: [0xa7], drop: [0x1a], sel: [0x1b], nop: [0x01], un: [0x00], ret: [0x0f], br0: [0x0c, 0], br1: [0x0c, 1], bri: [0x0d, 0], blk: [0x02, 0x40], blki: [0x02, 0x7f], loop: [0x03, 0x40], iff: [0x04, 0x40], ifi: [0x04, 0x7f], els: [0x05], end: [0x0b], call: [0x10, 0], ld: [0x28, 2, 0], st: [0x36, 2, 0], gg: [0x23, 0], gs: [0x24, 0], badl: [0x20, 9], badg: [0x23, 9], badf: [0x10, 9], al: [0x28, 3, 0] };
const NAMES = Object.keys(TOK); const CORE = ['c', 'C', 'g', 'add', 'drop', 'un', 'br0', 'bri', 'blki', 'loop', 'ifi', 'els', 'end'];
function body(toks) { const m = new Mod(); m.memory(1); m.global('i32', true, I.i32(0)); m.func({ params: ['i32'], results: ['i32'], locals: ['i64'], body: toks.flatMap((t) => TOK[t]), name: 'f' }); return m.build(); }
const seqs = (al, d, pre) => { const r = []; const rec = (l) => { if (l.length === d) { r.push(l); return; } for (const t of al) rec([...l, t]); }; rec(pre); return r; };
export const meta = {
  level: 'exploration', rule: 'one execution = one byte string offered as a module: where V8 says it is not a valid module, chiwawa must refuse it (error or abnormal end before anything runs); a valid body over the listed instructions must be accepted; non-trivial = not valid',
  bounds: (t) => [`${Object.keys(BASE).length} modules with every section kind: every truncation, every byte set to every value${t === 'thorough' ? ', every pair of neighbouring bytes over 12 values' : ''}, every deletion, duplication and exchange of sections`, `bodies: every sequence of up to ${t === 'thorough' ? 4 : 3} of ${NAMES.length} instructions and of ${t === 'thorough' ? 6 : 5} of ${CORE.length}, well-typed or not`, 'anything before, behind and between the sections (each byte value in '+LENS.length+' lengths up to 65536, byte order marks, script and archive headers, a second module), every version of 16 bits out of 800', 'sizes, counts and identifiers of every section off by up to 300 and in up to 7 bytes; integers at '+PLACES.length+' places written in 1 to 11 bytes with every last byte', `constant expressions: every sequence of up to ${t === 'thorough' ? 3 : 2} of ${CNAMES.length} instructions at ${SITES.length} places`, 'names: every string of up to three (export names: four) of '+LEADS.length+' bytes; '+CUSTOMS.length+' custom sections with every content of up to two of 17 bytes; limits of memories and tables: 12 flags x pairs of 22 magnitudes', 'the command reading a module through faults: every host call before the guest runs x 4 errors; every pair of a short read and a later error or short read', 'the command itself: every truncation of each module, and a module which is not valid only in its last function'],
  assumptions: ['V8 validates modules as WebAssembly defines; its implementation limits and post-2.0 features (where V8 refuses or accepts beyond the 2.0 rules) are left out, recognised by its message'],
};
const DEPTH = { quick: [3, 5], thorough: [4, 6] };
export async function plan(tier) {
  const jobs = []; const [da, dc] = DEPTH[tier];
  for (const k of Object.keys(BASE)) { const n = BASE[k]().length; for (let i = 0; i < n; i += 8) jobs.push({ fam: 'byte', k, from: i, to: Math.min(n, i + 8), tier }); jobs.push({ fam: 'cut', k }, { fam: 'sect', k }, { fam: 'cli', k }); }
  for (let d = 0; d < 2; d++) jobs.push({ fam: 'body', al: 'all', d, pre: [] }); for (let d = 2; d <= da; d++) for (const a of NAMES) jobs.push({ fam: 'body', al: 'all', d, pre: [a] }); for (let d = 4; d <= dc; d++) for (const a of CORE) for (const b of CORE) jobs.push({ fam: 'body', al: 'core', d, pre: [a, b] });
  for (const k of Object.keys(BASE)) { for (let i = 0; i <= 256; i++) if (k === 'all' || i % 17 === 0 || i === 256) jobs.push({ fam: 'around', k, part: i }); jobs.push({ fam: 'size', k }); }
  for (const k of PLACES) jobs.push({ fam: 'int', k }); for (const k of SITES) for (const imp of [false, true]) jobs.push({ fam: 'const', k, imp, d: tier === 'thorough' ? 3 : 2 }); for (const l of LEADS) jobs.push({ fam: 'name', l }); for (const n of CUSTOMS) for (const k of ['calls', 'memory']) jobs.push({ fam: 'custom', k, n }); for (const k of ['memory', 'table']) jobs.push({ fam: 'limits', k });
  for (const v of ['tco', 'legacy']) for (const n of [1, 40, 3000]) jobs.push({ fam: 'io', v, n });
  return jobs;
}
const verdict = (b) => { if (WebAssembly.validate(b)) return { ok: true }; try { new WebAssembly.Module(b); return { ok: true }; } catch (e) { return { ok: false, msg: e.message }; } };
const LIMIT = /internal limit|implementation limit|larger than implementation|enable with --experimental/i;
export async function run(job) {
  const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; const bump = (k) => { res.outcomes[k] = (res.outcomes[k] ?? 0) + 1; }; let c = null;
  const offer = (key, bytes, must) => {
    if (job.only && job.only !== key) return; watch.setKey(key); const v = verdict(bytes); if (!c) c = new Chiwawa(wasmPath('tco'), new Host()); if (c.dead) c.fresh(new Host()); const l = c.load(bytes); res.evals++; if (l.st === 'trap' || l.st === 'exit') c.dead = true;
    if (v.ok) { bump(l.st === 'ok' ? 'valid, accepted' : 'valid, refused'); if (must && l.st !== 'ok') res.violations.push({ key, detail: { valid: true, got: l.st, msg: l.msg } }); return; }
    if (LIMIT.test(v.msg)) { bump('beyond a limit of V8'); return; } res.nontrivial++; bump(l.st === 'ok' ? 'INVALID ACCEPTED' : 'invalid, refused');
    if (l.st === 'ok') res.violations.push({ key, detail: { invalid: v.msg.replace(/^WebAssembly.Module\(\): /, '').slice(0, 160), got: 'accepted' } }); else if (res.samples.length < 1) res.samples.push({ key, reference: v.msg.slice(0, 120), chiwawa: (l.msg ?? l.st).slice(0, 120) });
  };
  if (job.fam === 'body') { for (const s of seqs(job.al === 'all' ? NAMES : CORE, job.d, job.pre)) offer('body:' + s.join('.'), body(s), true); return { job, ...res }; }
  if (job.fam === 'io') { // the file is read through faults: an error, or the module as it is
    const m = new Mod(); m.importFunc('wasi_snapshot_preview1', 'fd_write', ['i32', 'i32', 'i32', 'i32'], ['i32']); m.memory(1); m.func({ body: fl([I.i32(1), I.i32(0), I.i32(1), I.i32(32), I.call(0), I.drop()]), name: '_start' }); for (let i = 0; i < job.n; i++) m.func({ params: ['i32'], results: ['i32'], body: fl([I.get(0), I.i32(i), I.op('i32.add')]) }); m.data(I.i32(64), [...Buffer.from('hello')]); m.data(I.i32(0), [64, 0, 0, 0, 5, 0, 0, 0]); const bytes = m.build();
    const go = (faults) => { let i = 0, ran = false; const names = []; const h = new Host({ files: { 'g.wasm': bytes } }); h.hook = (name, a, q, f) => { if (name === 'fd_write' || name === 'proc_exit') { ran ||= a[0] === 1; return undefined; } if (ran) return undefined; const k = faults[i++]; names.push(name); if (k === undefined) return undefined; if (typeof k === 'number') return k; if (name !== 'fd_read') return undefined; const n = q.r32(a[1] + 4); q.w32(a[1] + 4, k === '1' ? Math.min(n, 1) : k === 'tail' ? Math.max(1, Math.min(n, bytes.length) - 24) : (n >> 1) || n); const r = f(a[0], a[1], 1, a[3]); q.w32(a[1] + 4, n); return r; }; const r = runCli(job.v, h, ['g.wasm']); return { r, names }; };
    const ref = go({}); if (ref.r.stdout !== 'hello') { res.violations.push({ key: `io:${job.n}:${job.v}`, detail: { expected: 'hello', got: ref.r.stdout, stderr: ref.r.stderr.slice(0, 200) } }); return { job, ...res }; }
    const judge = (key, faults) => { if (job.only && job.only !== key) return null; watch.setKey(key); const x = go(faults); res.evals++; res.nontrivial++; const same = x.r.stdout === 'hello' && x.r.st === 'exit' && x.r.code === 0; const refused = x.r.stdout === '' && !(x.r.st === 'exit' && x.r.code === 0); bump(same ? 'fault: module run whole' : refused ? 'fault: refused' : 'bad'); if (!same && !refused) res.violations.push({ key, detail: { faults, host_calls: x.names, stdout: x.r.stdout, st: x.r.st, code: x.r.code } }); return x; };
    for (let i = 0; i < ref.names.length; i++) for (const e of [29, 8, 27, 6]) judge(`io:${job.n}:${ref.names[i]}@${i}:errno${e}:${job.v}`, { [i]: e });
    const rd = ref.names.indexOf('fd_read'); for (const s of ['1', 'half', 'tail']) for (let i = rd; i < rd + 6; i++) { judge(`io:${job.n}:short ${s}@${i}:${job.v}`, { [i]: s }); for (const s2 of ['1', 'half', 'tail', 29, 8, 27, 6]) for (let j = i + 1; j < i + 6; j++) judge(`io:${job.n}:short ${s}@${i},${typeof s2 === 'number' ? 'errno' : 'short '}${s2}@${j}:${job.v}`, { [i]: s, [j]: s2 }); }
    return { job, ...res };
  }
  const all = (g) => { for (const [k, bytes, must] of g) offer(k, bytes, must); return { job, ...res }; };
  if (job.fam === 'int') return all(ints(job.k)); if (job.fam === 'const') return all(consts(job.k, job.d, job.imp)); if (job.fam === 'name') return all(names(job.l)); if (job.fam === 'limits') return all(limits(job.k));
  const b = BASE[job.k]();
  if (['around', 'size', 'custom'].includes(job.fam)) { const tag = (g) => (function* () { for (const [k, ...r] of g) yield [`${job.fam}:${job.k}:${k}`, ...r]; })(); return all(tag(job.fam === 'custom' ? customs(b, sections(b), job.n) : job.fam === 'around' ? around(b, sections(b), job.part) : sizes(b, sections(b)))); }
  if (job.fam === 'byte') { for (let i = job.from; i < job.to; i++) { for (let x = 0; x < 256; x++) if (x !== b[i]) { const d = b.slice(); d[i] = x; offer(`byte:${job.k}:${i}:${x}`, d); } if (job.tier === 'thorough') for (const x of [0, 1, 2, 5, 0x0b, 0x40, 0x60, 0x7f, 0x80, 0xfc, 0xff, 0x10]) for (const y of [0, 1, 2, 5, 0x0b, 0x40, 0x60, 0x7f, 0x80, 0xfc, 0xff, 0x10]) if (i + 1 < b.length) { const d = b.slice(); d[i] = x; d[i + 1] = y; offer(`byte2:${job.k}:${i}:${x}:${y}`, d); } } }
  if (job.fam === 'cut') for (let i = 0; i < b.length; i++) offer(`cut:${job.k}:${i}`, b.slice(0, i));
  if (job.fam === 'sect') { const s = sections(b); const H = b.slice(0, 8); const mk = (l) => Uint8Array.from([...H, ...l.flatMap((x) => [...x])]); const n = s.length; const cus = Uint8Array.from([0, ...u(3), ...str('x'), 1]);
    for (let i = 0; i < n; i++) { offer(`sect:${job.k}:del${i}`, mk(s.filter((_, q) => q !== i))); for (let j = 0; j <= n; j++) { offer(`sect:${job.k}:dup${i},${j}`, mk([...s.slice(0, j), s[i], ...s.slice(j)])); offer(`sect:${job.k}:cus${i},${j}`, mk([...s.slice(0, j), cus, ...s.slice(j)].filter((_, q) => q !== i))); } for (let j = 0; j < n; j++) if (i !== j) { const t = s.slice(); [t[i], t[j]] = [t[j], t[i]]; offer(`sect:${job.k}:swap${i},${j}`, mk(t)); const w = s.filter((_, q) => q !== i && q !== j); offer(`sect:${job.k}:del${i},${j}`, mk(w)); } } }
  if (job.fam === 'cli') { // through the command: nothing runs, and the command says so
    const bad = (key, bytes) => { if (job.only && job.only !== key) return; if (WebAssembly.validate(bytes)) return; watch.setKey(key); const h = new Host({ files: { 'g.wasm': bytes } }); const r = runCli('tco', h, ['g.wasm', '--invoke', 'f', '--params', 'I32(1)']); res.evals++; res.nontrivial++; bump('command: exit ' + (r.st === 'exit' ? (r.code ? 'nonzero' : 0) : r.st)); if (r.stdout !== '' || (r.st === 'exit' && r.code === 0)) res.violations.push({ key, detail: { stdout: r.stdout, st: r.st, code: r.code } }); };
    for (let i = 0; i < b.length; i++) bad(`cli:${job.k}:cut${i}`, b.slice(0, i)); for (let i = 8; i < b.length; i++) { const d = b.slice(); d[i] ^= 0xff; bad(`cli:${job.k}:flip${i}`, d); }
    for (const [n, t] of [['type', [0x42, 1, 0x1a, 0x42, 1, 0x45]], ['underflow', [0x6a]], ['index', [0x10, 99, 0x41, 0]], ['local', [0x20, 99]]]) { const m = new Mod(); m.importFunc('wasi_snapshot_preview1', 'fd_write', ['i32', 'i32', 'i32', 'i32'], ['i32']); m.memory(1); m.data(I.i32(0), [16, 0, 0, 0, 2, 0, 0, 0]); m.func({ params: ['i32'], results: ['i32'], body: fl([I.i32(1), I.i32(0), I.i32(1), I.i32(32), I.call(0)]), name: 'f' }); m.func({ results: ['i32'], body: t }); bad(`cli:last:${n}:${job.k}`, m.build()); }
  }
  return { job, ...res };
}
