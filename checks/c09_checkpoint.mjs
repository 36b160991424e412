// C09: a checkpoint is transparent. Every guest of the corpus is cut at EVERY point the
// dispatcher polls; the image is restored in a new process, which must finish exactly as
// the uncut run: results or trap, memory, globals, tables and output.
import { Mod } from '../lib/asm.mjs';
import { V } from '../lib/host.mjs';
import { wasmPath } from '../lib/build.mjs';
import { Ref } from '../lib/host.mjs';
import { Lab, show } from '../lib/ckpt.mjs';
import { Host } from '../lib/wasi.mjs';
import { A, FAM, PROGS, PARAMS, LOCALS, ARGS, setup, emit, progModule } from '../lib/corpus.mjs';
import { bodies, shards, stateAfter } from '../lib/gen.mjs';
import { IX, dests, ixModule, ixArgs, OUTS, sgFew, sgModule } from '../lib/between.mjs';
import { KINDS, guests } from '../lib/states.mjs';
import * as watch from '../lib/watch.mjs';

export const variants = ['tco', 'legacy'];
export const meta = {
  level: 'fault_enumeration', rule: 'one execution = one guest cut at one poll by the real checkpoint, its image restored in a new process and run to the end, compared with the uncut run (outcome, results, whole memory, globals, tables, output); non-trivial = distinct (guest, poll) points',
  bounds: (t) => [...Object.entries(FAM).map(([k, f]) => `${k}: every valid body of <= ${t === 'thorough' ? f.t : f.q} tokens over {${f.toks.join(' ')}}, cut at every poll`), `programs {${Object.keys(PROGS).join(' ')}} cut at every poll`, `all ${Object.keys(IX).length} instructions, on registers${t === 'thorough' ? ' and on locals' : ''}, between values of every type, cut at every poll while these are on the stack`, `${OUTS.length} ways out of a block, loop, if or function, of ${t === 'thorough' ? sgFew.length : 41} signatures of up to two values of five types, likewise`, 'every way in which memory (three places, one to three pages, grown or not), one or two globals of every type, tables (three entries), passive segments and the frames above differ from what the module declares'],
  assumptions: ['the outside world (files, stdin position, clock) persists between the processes', 'guests holding open descriptors other than stdio are excluded: descriptors belong to the host process'],
};
const mkHost = () => new Host({ args: ['chiwawa', 'x'], env: ['A=b'], stdin: [49, 50, 51, 52, 53, 54, 55, 56] });
const ARGV = ['g.wasm', 'one'];
const BETWEEN = (x, all) => { const one = dests(x).length > 1; return [['r', one ? 'stack' : '-', 0], ['l', one ? 'tee' : '-', 1]].filter((_, i) => all || i === 0); };
export async function plan(tier) {
  const jobs = []; const T = tier === 'thorough';
  for (const v of variants) {
    for (const [k, f] of Object.entries(FAM)) { const D = (T ? f.t : f.q) - (v === 'tco' ? 0 : 1); const o = { results: f.res, nest: f.nest ?? 1, maxStack: 4 }; jobs.push({ fam: k, v, depth: 1, prefix: [] }); for (const p of shards(A, f.toks, 2, D, o)) jobs.push({ fam: k, v, depth: D, prefix: p }); }
    for (const k of Object.keys(PROGS)) jobs.push({ fam: 'prog', v, k });
    for (const k of Object.keys(IX)) jobs.push({ fam: 'between', v, k, all: T });
    for (const k of KINDS) for (let i = 0; i < (T || v === 'tco' ? 4 : 1); i++) jobs.push({ fam: 'state', v, k, i, of: 4, all: T });
    if (T || v === 'tco') for (const out of OUTS) for (let i = 0; i < sgFew.length; i += 11) jobs.push({ fam: 'sig', v, out, i, all: T });
  }
  return jobs;
}
export async function run(job) {
  const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; const bump = (k) => { res.outcomes[k] = (res.outcomes[k] ?? 0) + 1; }; const w = wasmPath(job.v), w2 = wasmPath(job.v2 ?? job.v);
  const explore = (lab, key, g, part = 1, last = Infinity) => {
    // accesses outside linear memory belong to C06: past one, nothing is promised
    const a = new Ref(lab.mod ??= new WebAssembly.Module(lab.bytes), mkHost()).call(g.name, g.args, g.results); if (a.st === 'trap' && /memory access out of bounds/.test(a.msg)) { bump('oob-skipped'); return; }
    watch.setKey(`${key}:uncut:${job.v}`); const u = lab.uncut(g); bump('uncut ' + u.r.st);
    const other = job.instants ? (lab.other ??= new Lab(w2, w, lab.bytes, lab.opt)) : null; // C13: the same instants under both dispatchers
    if (other) { const kk = `${key}:instants`; const u2 = other.uncut(g); if (u2.n !== u.n && (!job.only || job.only === kk)) { res.violations.push({ key: kk, detail: { polls: { [job.v]: u.n, [job.v2]: u2.n } } }); bump('bad'); return; } }
    for (let k = Math.max(1, u.n - last); k <= u.n * part; k += last < Infinity ? 4 : 1) {
      const kk = `${key}:cut@${k}:${job.v}${job.v2 ? '>' + job.v2 : ''}`; if (job.only && job.only !== kk) continue; watch.setKey(kk);
      const c = lab.cut(g, k); res.evals++; res.nontrivial++; let bad = null;
      if (other && c.r.st === 'ckpt') { const x = lab.state(lab.a), d = other.cut(g, k); if (d.r.st !== 'ckpt') bad = { other: show(d.r) }; else { bad = lab.diff({ r: { st: 'ckpt' }, err: c.host.out.length, state: x }, { r: { st: 'ckpt' }, err: d.host.out.length, state: other.state(other.a) }); if (bad) bad = { instant: k, of: u.n, ...bad }; } }
      if (bad) ; else if (c.r.st !== 'ckpt') bad = { expected: 'checkpoint taken', got: show(c.r) }; else if (!c.image) bad = { expected: 'an image file', got: 'none' }; else bad = lab.diff(u, lab.resume(c.image, c.host));
      if (bad) { res.violations.push({ key: kk, detail: bad }); bump('bad'); } else { bump('same'); if (res.samples.length < 1 && k > 3 && u.r.st === 'ok') res.samples.push({ guest: key, cut_at_poll: k, of: u.n, result: show(u.r) }); }
      if (res.violations.length > 200) return;
    }
  };
  if (job.fam === 'prog') { const P = PROGS[job.k]; explore(new Lab(w, w2, progModule(job.k), { host: mkHost, argv: ARGV }), 'prog:' + job.k, { name: 'main', args: P.args, results: [] }); return { job, ...res }; }
  if (job.fam === 'state') { let i = 0; for (const [k, bytes, results] of guests(job.k, job.all)) { if (i++ % job.of !== job.i) continue; const key = `state:${job.k}:${k}`; if (job.only && !job.only.startsWith(key + ':')) continue; const lab = new Lab(w, w2, bytes, { host: mkHost, argv: ARGV }); explore(lab, key, { name: 'main', args: [], results }, 1, job.all ? Infinity : 12); } return { job, ...res }; }
  if (job.fam === 'between') { const x = IX[job.k]; for (const [s, dst, order] of BETWEEN(x, job.all)) { const srcs = s.repeat(x.in.length), key = `between:${job.k}:${srcs}:${dst}:${order}`; if (job.only && !job.only.startsWith(key + ':')) continue; explore(new Lab(w, w2, ixModule(job.k, srcs, dst, order), { host: mkHost, argv: ARGV }), key, { name: 'p0', args: ixArgs, results: [] }, 0.5); } return { job, ...res }; }
  if (job.fam === 'sig') { for (const sg of sgFew.slice(job.i, job.i + 11)) { if (!job.all && sg[0].length + sg[1].length > 2) continue; const key = `sig:${sg.map((l) => l.join(',')).join('>')}:${job.out}`; if (job.only && !job.only.startsWith(key + ':')) continue; explore(new Lab(w, w2, sgModule(sg, job.out, 'r', 0), { host: mkHost, argv: ARGV }), key, { name: 'p0', args: ixArgs, results: [] }, 0.4); } return { job, ...res }; }
  const f = FAM[job.fam]; const opt = { results: f.res, nest: f.nest ?? 1, maxStack: 4 }; let P = [];
  const flush = () => {
    if (!P.length) return; const m = new Mod(); const env = setup(m); P.forEach((p, i) => m.func({ params: PARAMS, results: f.res, locals: LOCALS, body: emit(p, env), name: 'p' + i }));
    const bytes = m.build(); new WebAssembly.Module(bytes); const lab = new Lab(w, w2, bytes, { host: mkHost, argv: ARGV });
    P.forEach((p, i) => { const key = `${job.fam}:${p.join(' ')}`; if (job.only && !job.only.startsWith(key + ':')) return; explore(lab, key, { name: 'p' + i, args: ARGS, results: [] }); }); P = [];
  };
  for (const p of bodies(A, f.toks, job.depth, opt, job.prefix, stateAfter(A, job.prefix, opt))) { if (job.prefix.length && p.length < 2) continue; P.push(p); if (P.length >= 40) flush(); }
  flush(); return { job, ...res };
}
