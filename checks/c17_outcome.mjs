// C17: the outcome of a run. The command itself is run on every guest of a bounded family:
// nestings of control constructs around one ending (return, proc_exit, trap), each level
// writing before and after; also split in two processes by a checkpoint. V8 runs the same
// guest in the same in-memory world as the reference.
import { I, Mod } from '../lib/asm.mjs';
import { Host, Ref } from '../lib/host.mjs';
import { runCli } from '../lib/cli.mjs';
import * as watch from '../lib/watch.mjs';

export const variants = ['cli-tco', 'cli-legacy'];
const DISP = ['tco', 'legacy']; const fl = (b) => b.flat(Infinity); const WS = 'wasi_snapshot_preview1';
const WRAP = ['block', 'loop', 'if', 'call', 'table', 'many'];
const CODES = [0, 1, 2, 3, 7, 42, 125, 126, 127, 128, 254, 255, 256, 0x7fffffff, 0x80000000, 0xffffffff];
const TRAPS = { unreachable: () => I.unreachable(), div0: () => [I.i32(1), I.i32(0), I.op('i32.div_u'), I.drop()], overflow: () => [I.i64(-(2n ** 63n)), I.i64(-1), I.op('i64.div_s'), I.drop()], rem0: () => [I.i64(1), I.i64(0), I.op('i64.rem_s'), I.drop()], nan: () => [I.f32(NaN), I.op('i32.trunc_f32_s'), I.drop()], range: () => [I.f64(1e300), I.op('i64.trunc_f64_u'), I.drop()], init: () => [I.i32(0), I.i32(3), I.i32(1), I.mem_init(1)], null: (c) => [I.i32(c.nulls), I.call_indirect(c.ty)], sig: (c) => [I.i32(c.other), I.call_indirect(c.ty)], past: (c) => [I.i32(-1), I.call_indirect(c.ty)], tget: () => [I.i32(-1), I.tget(0), I.drop()] };
const ENDS = ['return', 'exit 0', 'exit 3', 'exit 255', ...Object.keys(TRAPS).map((t) => 'trap ' + t)]; const FEWENDS = ['return', 'exit 3', 'trap unreachable', 'trap null'];
const MODES = ['plain', 'cond', 'late']; // the ending stands bare, behind a condition, or runs on the second of two passes
// guest: wrappers ws around ending e; delay: nesting level at which a 3000-turn loop stands (null: none); at: 'main' or 'start'
export function guest({ ws, e, mode = 'plain', delay = null, at = 'main', ret = 'i32', ref = false }) {
  const m = new Mod(); const w = m.importFunc(WS, 'fd_write', ['i32', 'i32', 'i32', 'i32'], ['i32']); const ex = m.importFunc(WS, 'proc_exit', ['i32'], []); m.memory(1); m.table('funcref', 16); const ty = m.type([], []);
  const g = m.global('i32', true, I.i32(0)); const tab = []; const c = { ty, nulls: 15, other: 14 };
  let text = 64; const say = (fd, s) => { const o = text; const b = [...Buffer.from(s)]; text += b.length; m.data(I.i32(o), b); return [I.i32(16), I.i32(o), I.store('i32.store'), I.i32(20), I.i32(b.length), I.store('i32.store'), I.i32(fd), I.i32(16), I.i32(1), I.i32(32), I.call(w), I.drop()]; };
  const spin = () => [I.i32(0), I.gset(g), I.loop('', fl([I.gget(g), I.i32(1), I.op('i32.add'), I.gset(g), I.gget(g), I.i32(3000), I.op('i32.lt_u'), I.br_if(0)]))];
  const pass = m.global('i32', true, I.i32(0)); const bodies = [];
  const end = () => { const x = e === 'return' ? [] : e.startsWith('exit') ? [I.i32(Number(e.slice(5))), I.call(ex)] : TRAPS[e.slice(5)](c); if (mode === 'plain') return fl(x); if (mode === 'cond') return fl([I.gget(pass), I.op('i32.eqz'), I.if('', fl(x), say(1, '(no)'))]); return fl([I.gget(pass), I.if('', fl(x)), I.i32(1), I.gset(pass)]); };
  const level = (k) => { const mid = () => fl([delay === k ? spin() : [], k === ws.length ? end() : level(k + 1)]); const pre = say(1, `<a${k}>`), post = say(k % 2 ? 2 : 1, `<b${k}>`);
    if (k === 0) return fl([pre, mid(), post]);
    const t = ws[k - 1]; let b;
    if (t === 'block') b = I.block('', mid()); else if (t === 'if') b = [I.i32(k), I.if('', mid(), say(1, '<no>'))];
    else if (t === 'loop') { const n = m.global('i32', true, I.i32(0)); b = [I.i32(0), I.gset(n), I.loop('', fl([say(2, `<l${k}>`), mid(), I.gget(n), I.i32(1), I.op('i32.add'), I.gset(n), I.gget(n), I.i32(2), I.op('i32.lt_u'), I.br_if(0)]))]; }
    else { const f = m.func({ params: t === 'many' ? ['i64', 'f64'] : [], results: t === 'many' ? ['i32', 'i64'] : [], body: [] }); bodies.push([f, fl([mid(), t === 'many' ? [I.i32(5), I.get(0)] : []])]);
      if (t === 'call') b = I.call(f); else if (t === 'many') b = [I.i64(9), I.f64(1.5), I.call(f), I.drop(), I.drop()]; else { tab.push(f); b = [I.i32(tab.length - 1), I.call_indirect(ty)]; } }
    return fl([pre, b, post]); };
  const whole = level(0); const odd = m.func({ params: ['f32'], results: ['f32'], body: I.get(0) }); for (const [f, b] of bodies) m.setBody(f, b);
  const other = say(1, '<main>'); const rv = { i32: I.i32(-7), i64: I.i64(2n ** 40n), f64: I.f64(0.5) }[ret] ?? [];
  if (at === 'start') { const s = m.func({ body: whole, name: ref ? 'start' : undefined }); if (!ref) m.start(s); m.func({ results: ret ? [ret] : [], body: fl([other, rv]), name: 'main' }); m.func({ body: other, name: '_start' }); }
  else { m.func({ results: ret ? [ret] : [], body: fl([whole, rv]), name: 'main' }); m.func({ body: whole, name: '_start' }); }
  if (tab.length) m.elem(I.i32(0), tab); m.elem(I.i32(14), [odd]); m.dataPassive([1, 2, 3]); const dp = m.datas.pop(); m.datas.splice(1, 0, dp); if (m.datas[1] !== dp) throw new Error('data 1'); return m.build();
}
export const meta = {
  level: 'exploration', rule: 'one execution = the command run on one guest with one set of options, or as two processes joined by a checkpoint; exit status, both output streams and the result line compared with the guest run by V8 in the same world; non-trivial = the guest ends in an exit, a trap, or after a restore',
  bounds: (t) => [`every nesting of up to ${t === 'thorough' ? 4 : 3} of {${WRAP.join(' ')}} around every ending: return, proc_exit (${CODES.length} codes at depth 0 and 1, three elsewhere), ${Object.keys(TRAPS).length} traps (deepest level: one of each kind)`, `the ending bare, behind a condition, and in the second pass of a loop`, 'invoked as the default _start, as an export with no result and with an i32/i64/f64 result, from the start function; with no options, --cr, --stats, --cr --stats --app-args', 'with a checkpoint at every nesting level and a restore in a new process, same and other dispatcher'],
  assumptions: ['a program ended by a trap reports any non-zero status'],
};
const paths = (d) => { const r = [[]]; let l = [[]]; for (let i = 0; i < d; i++) { l = l.flatMap((p) => WRAP.map((w) => [...p, w])); r.push(...l); } return r; };
export async function plan(tier) { const jobs = []; const D = tier === 'thorough' ? 4 : 3; const n = paths(D).length; for (let i = 0; i < n; i += tier === 'thorough' ? 16 : 12) jobs.push({ from: i, to: Math.min(n, i + (tier === 'thorough' ? 16 : 12)), D, tier }); jobs.push({ codes: true }); return jobs; }
const OPTS = [[], ['--cr'], ['--stats'], ['--cr', '--stats', '--app-args', 'x']];
const marks = (s) => (s.match(/<[^>]*>|\(no\)/g) ?? []).join('');
export async function run(job) {
  const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; const bump = (k) => { res.outcomes[k] = (res.outcomes[k] ?? 0) + 1; };
  const reference = (g, inv) => { const h = new Host(); const r = new Ref(guest({ ...g, ref: true }), h); let x = g.at === 'start' ? r.call('start', [], []) : { st: 'ok' }; if (x.st === 'ok') x = r.call(inv, [], inv === 'main' && g.ret ? [g.ret] : []); return { x, out: h.stdout(), err: h.stderr() }; };
  const rtext = (g, inv) => (inv === 'main' && g.ret ? { i32: 'Result: Num(I32(-7))\n', i64: 'Result: Num(I64(1099511627776))\n', f64: 'Result: Num(F64(0.5))\n' }[g.ret] : '');
  const judge = (g, inv, ref, r, out, err) => { const want = ref.out + (ref.x.st === 'ok' ? rtext(g, inv) : ''); if (out !== want) return { expected: want, got: out }; if (marks(err) !== marks(ref.err)) return { expected_stderr: ref.err, got: err.slice(0, 300) }; const code = r.st === 'exit' ? r.code >>> 0 : -1; if (ref.x.st === 'ok') return code === 0 ? null : { expected: 'status 0', got: code }; if (ref.x.st === 'exit') return code === ref.x.code >>> 0 ? null : { expected: 'status ' + (ref.x.code >>> 0), got: code }; return code !== 0 ? null : { expected: 'a failing status', got: code }; };
  const name = (g) => `${g.at === 'start' ? 'start:' : ''}${g.ws.join('>') || '-'}:${g.e}:${g.mode}${g.ret !== 'i32' ? ':' + (g.ret || 'void') : ''}`;
  const rec = (key, ref, bad, extra) => { res.evals++; if (ref.x.st !== 'ok' || extra) res.nontrivial++; bump(bad ? 'bad' : extra ? extra + ', ' + ref.x.st : ref.x.st); if (bad && res.violations.length < 60) res.violations.push({ key, detail: bad }); else if (!res.samples.length) res.samples.push({ key, reference: ref.x.st, stdout: ref.out.slice(0, 120) }); };
  const once = (g, v, inv, opts) => { const key = `${name(g)}:${inv}:${opts.join(' ') || 'no options'}:${v}`; if (job.only && job.only !== key) return; watch.setKey(key); const ref = reference(g, inv); const h = new Host({ files: { 'g.wasm': guest(g) } }); const r = runCli(v, h, ['g.wasm', ...(inv === '_start' ? [] : ['--invoke', inv]), ...opts]); rec(key, ref, judge(g, inv, ref, r, r.stdout, r.stderr)); };
  const twice = (g, v, v2, inv) => { const key = `${name(g)}:${inv}:checkpoint at level ${g.delay}:${v}>${v2}`; if (job.only && job.only !== key) return; watch.setKey(key); const ref = reference(g, inv); const b = guest(g); const a = ['g.wasm', ...(inv === '_start' ? [] : ['--invoke', inv])]; const h = new Host({ files: { 'g.wasm': b, 'checkpoint.trigger': new Uint8Array(0) } }); const r = runCli(v, h, [...a, '--cr']); const img = h.file('checkpoint.bin');
    const M = '\nExecution stopped for checkpoint.\n'; if (r.st !== 'exit' || r.code !== 0 || !img || !r.stdout.endsWith(M.slice(1))) return rec(key, ref, { expected: 'stopped for the checkpoint, status 0', got: `${r.st} ${r.code} ${(r.stdout + r.stderr).slice(-200)}` }, 'restored');
    const h2 = new Host({ files: { 'g.wasm': b, 'i.bin': img.slice() } }); const r2 = runCli(v2, h2, [...a, '--restore', 'i.bin', '--cr']); const out = marks(r.stdout) + marks(r2.stdout) + (r2.stdout.match(/Result: .*\n$/)?.[0] ?? ''); rec(key, ref, /Result:/.test(r.stdout) ? { expected: 'no result before the restore' } : judge(g, inv, ref, r2, out, r.stderr + r2.stderr), 'restored'); };
  if (job.codes) { const all = [...new Set([...Array(256).keys(), ...CODES])]; for (const v of DISP) for (const e of all) for (const ws of [[], ['call'], ['loop', 'table']]) once({ ws, e: 'exit ' + e, mode: 'plain', ret: 'i32', at: 'main' }, v, '_start', []); return { job, ...res }; }
  for (const ws of paths(job.D).slice(job.from, job.to)) for (const v of DISP) {
    const deep = ws.length >= 3; const T = job.tier === 'thorough';
    for (const e of deep && !T ? FEWENDS : ENDS) for (const mode of deep && !T ? ['cond', 'late'] : MODES) { if (mode === 'late' && !ws.includes('loop')) continue; const g = { ws, e, mode, ret: 'i32', at: 'main' };
      once(g, v, deep ? 'main' : '_start', []); if (ws.length <= 1 || T) for (const o of OPTS) for (const inv of ['_start', 'main']) if (o.length || inv === 'main') once(g, v, inv, o);
      if (ws.length <= 2) once({ ...g, at: 'start' }, v, 'main', []); if (!ws.length) for (const ret of ['', 'i64', 'f64']) once({ ...g, ret }, v, 'main', []); }
    if (ws.length <= (T ? 3 : 2)) for (const e of FEWENDS) for (const mode of ['cond', 'late']) { if (mode === 'late' && !ws.includes('loop')) continue; for (let d = 0; d <= ws.length; d++) for (const v2 of DISP) twice({ ws, e, mode, delay: d, ret: 'i32', at: 'main' }, v, v2, d % 2 ? 'main' : '_start'); }
  }
  return { job, ...res };
}
