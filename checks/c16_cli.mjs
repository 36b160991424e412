// C16: the command line. The command itself is run, as a process in an in-memory world, on
// every enumerated command line; a guest writes down exactly what it was given.
import { I, Mod } from '../lib/asm.mjs';
import { Host } from '../lib/host.mjs';
import { runCli } from '../lib/cli.mjs';
import * as watch from '../lib/watch.mjs';

export const variants = ['cli-tco', 'cli-legacy'];
const DISP = ['tco', 'legacy']; const fl = (b) => b.flat(Infinity); const WS = 'wasi_snapshot_preview1';
// ---- guest that writes its argument count and the argument strings
function argsGuest() { const m = new Mod(); m.importFunc(WS, 'args_sizes_get', ['i32', 'i32'], ['i32']); m.importFunc(WS, 'args_get', ['i32', 'i32'], ['i32']); m.importFunc(WS, 'fd_write', ['i32', 'i32', 'i32', 'i32'], ['i32']); m.memory(1);
  m.func({ name: '_start', body: fl([I.i32(0), I.i32(4), I.call(0), I.drop(), I.i32(16), I.i32(4096), I.call(1), I.drop(), I.i32(8), I.i32(0), I.store('i32.store'), I.i32(12), I.i32(4), I.store('i32.store'), I.i32(1), I.i32(8), I.i32(1), I.i32(2048), I.call(2), I.drop(), I.i32(8), I.i32(4096), I.store('i32.store'), I.i32(12), I.i32(4), I.load('i32.load'), I.store('i32.store'), I.i32(1), I.i32(8), I.i32(1), I.i32(2048), I.call(2), I.drop()]) }); return m.build(); }
// words of --app-args: split at spaces outside double quotes, quotes removed, empty words dropped
function words(s) { const r = []; let w = '', q = false; for (const c of s) { if (c === '"') q = !q; else if (c === ' ' && !q) { if (w) r.push(w); w = ''; } else w += c; } if (w) r.push(w); return r; }
const AL = ['a', ' ', '"', 'é', '-'];
const strings = (d) => { const r = ['']; let last = ['']; for (let i = 0; i < d; i++) { last = last.flatMap((s) => AL.map((c) => s + c)); r.push(...last); } return r; };
const MORE = ['--database test.db --iterations 1000', '--version', '"a b" "c d"', 'x="1 2" y', '-- -x --', "'a b'", 'a\\ b', 'a\tb', '日本語 "\u{1F600} z"', 'a  b   c', '--app-args x', '"unclosed  quote'];
const FILES = ['g.wasm', 'd/g.wasm', './g.wasm', 'é.wasm', 'a b.wasm'];
// ---- typed parameters
const ty = { I32: 'i32', I64: 'i64', F32: 'f32', F64: 'f64' }; const dv = new DataView(new ArrayBuffer(8));
const le = (t, x) => { if (t === 'I32') dv.setInt32(0, Number(x), true); else if (t === 'I64') dv.setBigInt64(0, BigInt(x), true); else if (t === 'F32') dv.setFloat32(0, x, true); else dv.setFloat64(0, x, true); return Buffer.from(new Uint8Array(dv.buffer, 0, t === 'I32' || t === 'F32' ? 4 : 8)).toString('hex'); };
const num = (s) => (s === 'inf' ? Infinity : s === '-inf' ? -Infinity : s === 'NaN' ? NaN : Number(s));
const VALS = { I32: ['0', '1', '-1', '2147483647', '-2147483648', '42'], I64: ['0', '-1', '9223372036854775807', '-9223372036854775808', '4294967296', '100'], F32: ['0', '-0', '1.5', '-2.25', 'inf', '-inf', '3.4028235e38', '1e-45', '0.1', '16777217'], F64: ['0', '-0', '0.1', 'inf', '-inf', '1.7976931348623157e308', '5e-324', '-123456789.25', '9007199254740993'] };
// decimals at, just below and just above the middle of two neighbouring floats: [type, text, value]
const DEC = (n, k) => { const t = n.toString().padStart(k + 1, '0'); return t.slice(0, -k) + '.' + t.slice(-k); }; // n / 10^k
const MID = ['F32', 'F64'].flatMap((t) => { const b = t === 'F32' ? 24n : 53n; const r = []; for (const k of [0n, 1n, 2n, 3n, 1n << 10n, (1n << (b - 1n)) - 2n]) for (const sg of ['', '-']) { // 1 + (2k+1)/2^b, between 1 + 2k/2^b and 1 + (2k+2)/2^b
  const lo = 1 + Number(2n * k) / 2 ** Number(b), hi = 1 + Number(2n * k + 2n) / 2 ** Number(b); const N = ((1n << b) + 2n * k + 1n) * 5n ** b; const f = sg ? -1 : 1; const K = Number(b); r.push([t, sg + DEC(N * 10n - 1n, K + 1), f * lo], [t, sg + DEC(N * 10n + 1n, K + 1), f * hi], [t, sg + DEC(N, K), f * (k % 2n ? hi : lo)]); } return r; });
const FLAT = Object.entries(VALS).flatMap(([t, vs]) => vs.map((v) => [t, v])); // every power of two and its neighbours, every exponent of a float with the mantissas of least, next and greatest value
const pow2 = (n) => { const r = []; for (let k = 0; k < n; k++) for (const d of [-1n, 0n, 1n]) for (const s of [1n, -1n]) { const v = s * ((1n << BigInt(k)) + d); if (v >= -(1n << BigInt(n - 1)) && v < 1n << BigInt(n - 1)) r.push(String(v)); } return [...new Set(r)]; };
const f32s = () => { const r = []; const d = new DataView(new ArrayBuffer(4)); for (let e = 0; e < 255; e++) for (const m of [0, 1, 0x2aaaaa, 0x7fffff]) { d.setUint32(0, (e << 23) | m | (m & 2 ? 0x80000000 : 0)); const v = d.getFloat32(0); r.push(Object.is(v, -0) ? '-0' : String(v)); } return r; };
const f64s = (step) => { const r = []; const d = new DataView(new ArrayBuffer(8)); for (let e = 0; e < 2047; e += step) for (const m of [0n, 1n, 0x5555555555555n, 0xfffffffffffffn]) { d.setBigUint64(0, (BigInt(e) << 52n) | m | ((m & 4n) << 61n)); r.push(String(d.getFloat64(0))); } return r; };
const SWEEP = (T) => [...pow2(32).map((v) => ['I32', v]), ...pow2(64).map((v) => ['I64', v]), ...f32s().map((v) => ['F32', v]), ...f64s(T ? 1 : 4).map((v) => ['F64', v])];
const over = (al, d) => { const r = ['']; let l = ['']; for (let i = 0; i < d; i++) { l = l.flatMap((s) => [...al].map((c) => s + c)); r.push(...l); } return r; };
// texts of a value: a plain decimal must be taken as what it says; anything else may be refused, but never taken for another value
const TEXT = (T) => [...over('019-+.xe_ ', T ? 4 : 3).flatMap((x) => Object.keys(ty).map((t) => [t, x])), ...over('10.e-', T ? 6 : 4).flatMap((x) => [['F32', x], ['F64', x]]), ...['0x10', '1e400', '1e-400', '-1e400', '1e39', 'infinity', '-INF', 'nan', '+inf', '1_000', '٣', '１', '1f', '4294967295', '4294967296', '18446744073709551615', '2147483648', '-2147483649', '9223372036854775808', '-9223372036854775809', '0'.repeat(300) + '7', '7' + '0'.repeat(300), '0.' + '0'.repeat(300) + '7'].flatMap((x) => Object.keys(ty).map((t) => [t, x]))];
function textOf(t, x) { // [value or null, must it be accepted]
  if (t[0] === 'I') { if (!/^[+-]?[0-9]+$/.test(x)) return [null, false]; const v = BigInt(x.replace(/^\+/, '')); const n = t === 'I32' ? 31n : 63n; return v >= -(1n << n) && v < 1n << n ? [String(v), x[0] !== '+'] : [null, false]; }
  if (/^[+-]?(inf|infinity|nan)$/i.test(x)) return [/nan/i.test(x) ? 'NaN' : x[0] === '-' ? '-inf' : 'inf', x === 'inf' || x === '-inf'];
  if (!/^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)(e[+-]?[0-9]+)?$/i.test(x)) return [null, false]; return [x, /^-?[0-9]+(\.[0-9]+)?(e-?[0-9]+)?$/.test(x)];
}
const AROUND = ['', ' ', 'x', 'I32', 'F64', '(', ')', '(1)', 'I64(2)', '-', '"', "'", '\t']; // before and after a parameter
const NAMES = over('ab', 3).slice(1); // each names a function of its own
const FEW = [['I32', '7'], ['I64', '-8'], ['F32', '0.5'], ['F64', '-0.25']];
// guest: writes "run" and then its parameters' bytes, returns the last one
function paramGuest(sig, extra = {}) { const m = new Mod(); m.importFunc(WS, 'fd_write', ['i32', 'i32', 'i32', 'i32'], ['i32']); m.memory(1); const ps = sig.map((t) => ty[t]); let o = 3; const st = []; ps.forEach((t, k) => { st.push(I.i32(64 + o), I.get(k), I.store(t + '.store')); o += t.endsWith('32') ? 4 : 8; }); m.data(I.i32(64), [...Buffer.from('run')]); m.data(I.i32(0), [64, 0, 0, 0, o & 255, o >> 8, 0, 0]);
  m.func({ params: ps, results: ps.slice(-1), body: fl([st, I.i32(1), I.i32(0), I.i32(1), I.i32(32), I.call(0), I.drop(), ps.length ? I.get(ps.length - 1) : []]), name: extra.name ?? 'f' }); if (extra.more) extra.more(m); return m.build(); }
// guest: writes its arguments and then its two parameters, returns the first
function bothGuest() { const m = new Mod(); m.importFunc(WS, 'args_sizes_get', ['i32', 'i32'], ['i32']); m.importFunc(WS, 'args_get', ['i32', 'i32'], ['i32']); m.importFunc(WS, 'fd_write', ['i32', 'i32', 'i32', 'i32'], ['i32']); m.memory(1);
  const w = (p, n) => [I.i32(8), p, I.store('i32.store'), I.i32(12), n, I.store('i32.store'), I.i32(1), I.i32(8), I.i32(1), I.i32(2048), I.call(2), I.drop()];
  m.func({ name: 'f', params: ['i32', 'f64'], results: ['i32'], body: fl([I.i32(0), I.i32(4), I.call(0), I.drop(), I.i32(16), I.i32(4096), I.call(1), I.drop(), w(I.i32(0), I.i32(4)), w(I.i32(4096), [I.i32(4), I.load('i32.load')]), I.i32(3000), I.get(0), I.store('i32.store'), I.i32(3004), I.get(1), I.store('f64.store'), w(I.i32(3000), I.i32(12)), I.get(0)]) }); m.func({ name: '_start', body: I.unreachable() }); return m.build(); }
const sigs = (d) => { const r = [[]]; let l = [[]]; for (let i = 0; i < d; i++) { l = l.flatMap((s) => Object.keys(ty).map((t) => [...s, t])); r.push(...l); } return r; };
const BADP = ['I32()', 'I32(x)', 'I32(99999999999)', 'I32(-2147483649)', 'i32(1)', '1', 'V128(1)', 'I32', 'I32 1', 'I64(1.5)', 'I64(9223372036854775808)', 'F32(one)', 'F64()', 'I32(1', '(1)'];
export const meta = {
  level: 'exploration', rule: 'one execution = the command run once on one command line; compared with a model of the mapping: argument vector of the guest, parameter bytes, which export ran, printed result, exit status. non-trivial = all',
  bounds: (t) => [`--app-args: every string of up to ${t === 'thorough' ? 6 : 5} characters over ${JSON.stringify(AL.join(''))} and ${MORE.length} longer ones; ${FILES.length} file names; none at all`, `--params: every value of ${FLAT.length} alone and every ordered pair, every signature of up to 3 over four values; decimals at and beside the middle of neighbouring floats`, `values: every power of two and its neighbours, every${t === 'thorough' ? '' : ' (F64: every fourth)'} exponent of a float with four mantissas; texts: every string of up to ${t === 'thorough' ? 4 : 3} characters over digits, signs, point, x, e, _, space, and of up to ${t === 'thorough' ? 6 : 4} over 1 0 . e -; ${AROUND.length ** 2} surroundings; up to 300 parameters`, `every name of up to 3 characters over a b A against exports of every name over a b`, 'signature mismatch: every signature of up to 2 against every other sequence of up to 2 types; malformed parameters', '--invoke: every kind of export and absent names, long and short options, the default _start; every order of file, options and flags in every spelling'],
  assumptions: ['the printed result of a float is compared by value, NaN sign and payload are not printed'],
};
export async function plan(tier) {
  const jobs = []; const na = strings(tier === 'thorough' ? 6 : 5).length; const np = FLAT.length ** 2;
  for (const v of DISP) { for (let i = 0; i < na; i += 400) jobs.push({ fam: 'app', v, from: i, to: Math.min(na, i + 400), tier }); for (let i = 0; i < np; i += 120) jobs.push({ fam: 'pair', v, from: i, to: Math.min(np, i + 120) }); jobs.push({ fam: 'files', v }, { fam: 'one', v }, { fam: 'mid', v }, { fam: 'sig', v }, { fam: 'mismatch', v }, { fam: 'bad', v }, { fam: 'invoke', v }, { fam: 'around', v }, { fam: 'names', v }, { fam: 'many', v }); if (v === 'tco' || tier === 'thorough') for (let i = 0; i < 5; i++) jobs.push({ fam: 'order', v, i }); for (let i = 0; i < 8; i++) jobs.push({ fam: 'sweep', v, i, tier }, { fam: 'text', v, i, tier }); }
  return jobs;
}
const G = argsGuest(); const modc = new Map(); const pg = (sig) => { const k = sig.join(); if (!modc.has(k)) modc.set(k, paramGuest(sig)); return modc.get(k); };
const rtext = (t) => `Result: Num(${t}(`;
export async function run(job) {
  const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; const bump = (k) => { res.outcomes[k] = (res.outcomes[k] ?? 0) + 1; };
  const go = (key, bytes, args, judge, file = 'g.wasm') => { if (job.only && job.only !== key) return; watch.setKey(key); const h = new Host({ files: { [file]: bytes } }); const r = runCli(job.v, h, args); res.evals++; res.nontrivial++; bump(job.fam); const bad = judge(r); if (bad) res.violations.push({ key, detail: { args, ...bad, stdout: Buffer.from(r.stdout, 'latin1').toString('hex').slice(0, 200), stderr: r.stderr.slice(0, 200), exit: r.st === 'exit' ? r.code : r.st } }); else if (res.samples.length < 1) res.samples.push({ args, exit: r.code }); };
  const argv = (list) => (r) => { const b = Buffer.from(r.stdout, 'latin1'); const want = Buffer.concat([Buffer.from([list.length, 0, 0, 0]), ...list.map((x) => Buffer.from(x + '\0'))]); return r.st === 'exit' && r.code === 0 && Buffer.compare(b, want) === 0 ? null : { expected: list }; };
  const ran = (ps) => (r) => { const bytes = Buffer.from('run').toString('hex') + ps.map(([t, v]) => le(t, t[0] === 'I' ? v : num(v))).join(''); const b = Buffer.from(r.stdout, 'latin1').toString('hex'); if (r.st !== 'exit' || r.code !== 0 || !b.startsWith(bytes)) return { expected: bytes }; const tail = Buffer.from(b.slice(bytes.length), 'hex').toString(); if (!ps.length) return tail === '' ? null : { unexpected: tail }; const [t, v] = ps[ps.length - 1]; const want = rtext(t); if (!tail.startsWith(want) || !tail.endsWith('))\n')) return { expected: want, result: tail }; const got = tail.slice(want.length, -3); return (t[0] === 'I' ? got === v : Object.is(t === 'F32' ? Math.fround(num(got)) : num(got), t === 'F32' ? Math.fround(num(v)) : num(v))) ? null : { expected: v, result: tail }; };
  const refused = (r) => (r.stdout === '' && (r.st === 'trap' || r.code !== 0) ? null : { expected: 'refused, nothing run' });
  const P = (ps) => ps.map(([t, v]) => `${t}(${v})`).join(',');
  switch (job.fam) {
    case 'app': { const l = strings(job.tier === 'thorough' ? 6 : 5).slice(job.from, job.to); if (job.from === 0) l.push(...MORE); for (const s of l) go(`app:${JSON.stringify(s)}:${job.v}`, G, ['g.wasm', '--app-args', s], argv(['g.wasm', ...words(s)])); break; }
    case 'files': for (const f of FILES) { go(`files:${f}:${job.v}`, G, [f], argv([f]), f); go(`files:${f}:x:${job.v}`, G, [f, '--app-args', 'x y'], argv([f, 'x', 'y']), f); go(`files:eq:${f}:${job.v}`, G, ['--app-args=x y', f, '--cr'], argv([f, 'x', 'y']), f); } break;
    case 'mid': for (const [t, x, v] of MID) go(`mid:${t}(${x}):${job.v}`, pg([t]), ['g.wasm', '--invoke', 'f', '--params', `${t}(${x})`], (r) => { const want = Buffer.from('run').toString('hex') + le(t, v); return r.st === 'exit' && r.code === 0 && Buffer.from(r.stdout, 'latin1').toString('hex').startsWith(want) ? null : { expected: want }; }); break;
    case 'one': for (const p of FLAT) { go(`one:${p}:${job.v}`, pg([p[0]]), ['g.wasm', '--invoke', 'f', '--params', P([p])], ran([p])); go(`one:short:${p}:${job.v}`, pg([p[0]]), ['-i', 'f', '-p', P([p]), '--', 'g.wasm'], ran([p])); } break;
    case 'pair': for (let i = job.from; i < job.to; i++) { const ps = [FLAT[Math.floor(i / FLAT.length)], FLAT[i % FLAT.length]]; go(`pair:${P(ps)}:${job.v}`, pg(ps.map((x) => x[0])), ['g.wasm', '--invoke', 'f', '--params', P(ps)], ran(ps)); } break;
    case 'sig': for (const s of sigs(3)) { const ps = s.map((t, k) => { const q = FEW.find((x) => x[0] === t); return [t, t[0] === 'I' ? String(Number(q[1]) + k) : q[1]]; }); go(`sig:${s}:${job.v}`, pg(s), ['g.wasm', '--invoke', 'f', ...(s.length ? ['--params', P(ps)] : [])], ran(ps)); if (s.length > 1) go(`sig:sep:${s}:${job.v}`, pg(s), ['g.wasm', '--invoke', 'f', '--params', ...ps.map((x) => P([x]))], ran(ps)); } break;
    case 'mismatch': for (const s of sigs(2)) for (const g of sigs(2)) if (s.join() !== g.join()) { const ps = g.map((t) => FEW.find((x) => x[0] === t)); go(`mismatch:${s}<${g}:${job.v}`, pg(s), ['g.wasm', '--invoke', 'f', ...(g.length ? ['--params', P(ps)] : [])], refused); } break;
    case 'bad': for (const b of BADP) { for (const [s, l] of [[[], b], [['I32'], 'I32(1),' + b], [['I32'], b + ',I32(1)']]) go(`bad:surplus:${b}:${l}:${job.v}`, pg(s), ['g.wasm', '--invoke', 'f', '--params', l], refused); for (const s of [['I32'], ['I64'], ['F32'], ['F64'], ['I32', 'I32']]) { go(`bad:${b}:${s}:${job.v}`, pg(s), ['g.wasm', '--invoke', 'f', '--params', s.length === 1 ? b : b + ',I32(1)'], refused); if (s.length === 2) go(`bad:${b}:last:${job.v}`, pg(s), ['g.wasm', '--invoke', 'f', '--params', 'I32(1),' + b], refused); } } break;
    case 'invoke': {
      const names = ['f', '_start', 'main', 'F', 'é', 'a b', 'x'.repeat(64), 'memory2']; for (const n of names) { const b = paramGuest([], { name: n, more: (m) => { m.func({ name: 'other', body: I.unreachable() }); m.table('funcref', 1, undefined, 'tab'); m.global('i32', false, I.i32(1), 'glob'); } }); for (const ask of [...names, 'other2', 'tab', 'glob', 'memory', '']) go(`invoke:${n}<${ask}:${job.v}`, b, ['g.wasm', '--invoke', ask], ask === n ? ran([]) : refused); go(`invoke:${n}:default:${job.v}`, b, ['g.wasm'], n === '_start' ? ran([]) : refused); go(`invoke:${n}:trap:${job.v}`, b, ['g.wasm', '-i', 'other'], refused); }
      go(`invoke:nofile:${job.v}`, G, ['h.wasm'], refused); go(`invoke:nothing:${job.v}`, G, [], refused); go(`invoke:unknown:${job.v}`, G, ['g.wasm', '--nope'], refused); break;
    }
    case 'sweep': SWEEP(job.tier === 'thorough').forEach((p, i) => { if (i % 8 === job.i) go(`sweep:${p}:${job.v}`, pg([p[0]]), ['g.wasm', '--invoke', 'f', '--params', P([p])], ran([p])); }); break;
    case 'text': TEXT(job.tier === 'thorough').forEach(([t, x], i) => { if (i % 8 !== job.i) return; const [v, must] = textOf(t, x); const asIt = v === null ? null : ran([[t, t[0] === 'F' && v !== 'NaN' && !/inf/.test(v) ? (Object.is(Number(v), -0) ? '-0' : String(Number(v))).replace('-Infinity', '-inf').replace('Infinity', 'inf') : v]]); const isnan = v === 'NaN';
      go(`text:${t}:${JSON.stringify(x)}:${job.v}`, pg([t]), ['g.wasm', '--invoke', 'f', '--params', `${t}(${x})`], (r) => { const no = refused(r); if (!no) return must ? { expected: 'accepted' } : null; if (v === null) return no; return isnan ? null : asIt(r); }); }); break;
    case 'around': for (const a of AROUND) for (const b of AROUND) for (const [t, v] of [['I32', '5'], ['F64', '2.5']]) { const x = `${a}${t}(${v})${b}`; const plainText = x.trim() === `${t}(${v})`; go(`around:${JSON.stringify(x)}:${job.v}`, pg([t]), ['g.wasm', '--invoke', 'f', '--params=' + x], (r) => { const no = refused(r); return plainText ? (no && ran([[t, v]])(r)) : no; }); for (const [u] of Object.entries(ty)) if (u !== t) go(`around:${JSON.stringify(x)}:as ${u}:${job.v}`, pg([u]), ['g.wasm', '--invoke', 'f', '--params=' + x], refused); } break;
    case 'names': { // every function writes its own name; exported in one order, defined in another, some under two names
      const build = (rev) => { const m = new Mod(); m.importFunc(WS, 'fd_write', ['i32', 'i32', 'i32', 'i32'], ['i32']); m.memory(1); const l = rev ? [...NAMES].reverse() : NAMES; l.forEach((n, k) => { m.data(I.i32(64 + 8 * k), [...Buffer.from(n)]); m.func({ name: n, body: fl([I.i32(0), I.i32(64 + 8 * k), I.store('i32.store'), I.i32(4), I.i32(n.length), I.store('i32.store'), I.i32(1), I.i32(0), I.i32(1), I.i32(32), I.call(0), I.drop()]) }); }); m.func({ name: '_start', body: fl([I.unreachable()]) }); return m.build(); };
      for (const rev of [0, 1]) { const b = build(rev); for (const n of [...over('abA', 3).slice(1), 'aaaa', 'a ', ' a', 'a\u0301']) go(`names:${rev}:${JSON.stringify(n)}:${job.v}`, b, ['g.wasm', '--invoke', n], NAMES.includes(n) ? (r) => (r.st === 'exit' && r.code === 0 && r.stdout === n ? null : { expected: n }) : refused); } break;
    }
    case 'many': { // more and more parameters, given in one list, in several, or each on its own
      for (const n of [4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300]) for (const o of [0, 1, 2, 3]) { const ps = Array.from({ length: n }, (_, k) => { const t = Object.keys(ty)[(k * (o + 1) + o) % 4]; return [t, t[0] === 'I' ? String(1000 + k) : String(k) + '.5']; }); const b = paramGuest(ps.map((x) => x[0])); const h = n >> 1;
        for (const [w, args] of [['list', ['--params', P(ps)]], ['each', ['--params', ...ps.map((x) => P([x]))]], ['twice', ['--params', P(ps.slice(0, h)), '--params', P(ps.slice(h))]]]) go(`many:${n}:${o}:${w}:${job.v}`, b, ['g.wasm', '--invoke', 'f', ...args], ran(ps));
        for (const q of [ps.slice(1), ps.slice(0, -1), [...ps, ['I32', '1']]]) go(`many:${n}:${o}:not ${q.length}:${job.v}`, b, ['g.wasm', '--invoke', 'f', '--params', P(q)], refused); } break;
    }
    case 'order': { // every order and spelling of the options
      const b = bothGuest(); const perms = (l) => (l.length < 2 ? [l] : l.flatMap((x, i) => perms([...l.slice(0, i), ...l.slice(i + 1)]).map((r) => [x, ...r]))); const S = 'p "q r"'; const X = 'I32(7),F64(-0.25)'; const out = Buffer.concat([Buffer.from([3, 0, 0, 0]), Buffer.from('g.wasm\0p\0q r\0'), Buffer.from(le('I32', '7') + le('F64', -0.25), 'hex')]).toString('latin1');
      for (const inv of [[['--invoke', 'f'], ['--invoke=f'], ['-i', 'f'], ['-if'], ['-i=f']][job.i]]) for (const par of [['--params=' + X], ['-p' + X], ['-p=' + X], ['--params', ...X.split(',')], ['-p', X]]) for (const app of [['--app-args', S], ['--app-args=' + S], null]) for (const more of [null, ['--cr'], ['--stats']]) { if (more && app && app.length > 1) continue; const items = [['g.wasm'], inv, par, app, more].filter(Boolean);
        for (const o of perms(items)) { const at = o.indexOf(par); if (!par[0].includes('F64') && o[at + 1]?.[0] === 'g.wasm') continue; // a list of parameters takes what follows it
          const args = o.flat(); go(`order:${args.join(' ')}:${job.v}`, b, args, (r) => { const want = app ? out : Buffer.concat([Buffer.from([1, 0, 0, 0]), Buffer.from('g.wasm\0'), Buffer.from(out, 'latin1').subarray(-12)]).toString('latin1'); return r.st === 'exit' && r.code === 0 && r.stdout.startsWith(want) && /^Result: Num\(I32\(7\)\)\n/.test(r.stdout.slice(want.length)) ? null : { expected: Buffer.from(want, 'latin1').toString('hex') }; }); } }
      break;
    }
    default: throw new Error(job.fam);
  }
  return { job, ...res };
}
