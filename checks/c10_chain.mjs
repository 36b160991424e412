// C10: a restored execution is a full execution. Every guest is cut at a poll, restored,
// and cut again: at every later poll (all pairs), at every poll in turn (relay with stride
// 1, 2, 3, ...), always through new processes. The end must equal the uncut run, and the
// restored execution must be interruptible at every instruction it still executes.
import { Mod } from '../lib/asm.mjs';
import { wasmPath } from '../lib/build.mjs';
import { Ref } from '../lib/host.mjs';
import { Lab, show } from '../lib/ckpt.mjs';
import { Host } from '../lib/wasi.mjs';
import { A, FAM, PROGS, PARAMS, LOCALS, ARGS, setup, emit, progModule } from '../lib/corpus.mjs';
import { bodies, shards, stateAfter } from '../lib/gen.mjs';
import { IX, dests, ixModule, ixArgs, OUTS, sgFew, sgModule } from '../lib/between.mjs';
import * as watch from '../lib/watch.mjs';

export const variants = ['tco', 'legacy'];
const PAIR = { call: [3, 4], lop: [4, 6], ctl: [4, 5], mem: [3, 3], ref: [3, 4], host: [3, 3], stk: [3, 4], wide: [4, 4] };
const MAXN = 130, STRIDES = [1, 2, 3, 5, 8, 13, 21];
export const meta = {
  level: 'fault_enumeration', rule: 'one execution = one chain of at least two checkpoints of one guest, each hop restored in a new process, run to the end and compared with the uncut run; and the number of instructions at which the restored execution could be stopped again; non-trivial = distinct chains',
  bounds: (t) => [`every pair of cut points: ${Object.entries(PAIR).map(([k, [q, T]]) => `${k} bodies of <= ${t === 'thorough' ? T : q} tokens`).join(', ')}, and every program of <= ${t === 'thorough' ? 400 : MAXN} instructions`, `relay: programs {${Object.keys(PROGS).join(' ')}} stopped every n instructions, n in {${STRIDES.join(' ')}}; bodies stopped at every instruction, likewise all ${Object.keys(IX).length} instructions between values of every type and ${OUTS.length} ways out of a block, loop, if or function, of ${t === 'thorough' ? sgFew.length : 41} signatures`],
  assumptions: ['as for C09'],
};
const mkHost = () => new Host({ args: ['chiwawa', 'x'], env: ['A=b'], stdin: [49, 50, 51, 52, 53, 54, 55, 56] });
const ARGV = ['g.wasm', 'one'];
export async function plan(tier) {
  const jobs = []; const T = tier === 'thorough';
  for (const v of variants) {
    for (const k of Object.keys(PROGS)) { for (const s of STRIDES) jobs.push({ fam: 'relay', v, k, s, tier }); for (let sh = 0; sh < 4; sh++) jobs.push({ fam: 'pairs', v, k, sh, tier }); }
    for (const [k, [q, t]] of Object.entries(PAIR)) { const f = FAM[k], D = (T ? t : q) - (v === 'tco' ? 0 : 1); const o = { results: f.res, nest: f.nest ?? 1, maxStack: 4 }; jobs.push({ fam: k, v, depth: 1, prefix: [] }); for (const p of shards(A, f.toks, 2, D, o)) jobs.push({ fam: k, v, depth: D, prefix: p }); }
  }
  for (const v of variants) if (T || v === 'tco') { for (const k of Object.keys(IX)) jobs.push({ fam: 'between', v, k }); for (const out of OUTS) for (let i = 0; i < sgFew.length; i += 11) jobs.push({ fam: 'sig', v, out, i, all: T }); }
  return jobs;
}
export async function run(job) {
  const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; const bump = (k) => { res.outcomes[k] = (res.outcomes[k] ?? 0) + 1; }; const w = wasmPath(job.v);
  const want = (kk) => { if (job.only && job.only !== kk) return false; watch.setKey(kk); return true; };
  const done = (kk, bad) => { res.evals++; res.nontrivial++; if (bad) { bump('bad'); res.violations.push({ key: kk, detail: bad }); } else bump('same'); };
  const start = (lab, key, g) => { const a = new Ref(lab.mod ??= new WebAssembly.Module(lab.bytes), mkHost()).call(g.name, g.args, []); if (a.st === 'trap' && /memory access out of bounds/.test(a.msg)) return null; watch.setKey(`${key}:uncut:${job.v}`); return lab.uncut(g); };
  const relay = (lab, key, g, s, u) => { // stop every s instructions
    const kk = `${key}:relay@${s}:${job.v}`; if (!want(kk)) return; let cur = lab.cut(g, s), hops = 1, bad = null; if (cur.r.st !== 'ckpt') return;
    while (cur.r.st === 'ckpt' && !bad) { if (++hops > u.n + 2) { bad = { expected: `an end after ${u.n} instructions`, got: `${hops} hops` }; break; } cur = lab.resume(cur.image, cur.host, (i) => i === s + 1); }
    if (!bad) bad = lab.diff(u, cur); if (!bad) { const least = Math.floor((u.n - 1) / s); if (hops - 1 < least) bad = { expected: `at least ${least} stops`, got: hops - 1 }; }
    done(kk, bad); if (!bad && res.samples.length < 1) res.samples.push({ guest: key, stride: s, hops, result: show(u.r) });
  };
  const pairs = (lab, key, g, u, only) => {
    for (let k = 1; k <= u.n; k++) {
      if (only && !only(k)) continue; if (job.only && !job.only.startsWith(`${key}:pair@${k},`)) continue;
      watch.setKey(`${key}:pair@${k},0:${job.v}`); const c = lab.cut(g, k); if (c.r.st !== 'ckpt') continue;
      const full = lab.resume(c.image, c.host.fork()); const rest = u.n - k + 1; const k0 = `${key}:pair@${k},0:${job.v}`;
      if (want(k0)) done(k0, full.n !== rest ? { expected: `interruptible at the ${rest} instructions left`, got: `${full.n}` } : lab.diff(u, full));
      for (let j = 1; j <= full.n; j++) {
        const kk = `${key}:pair@${k},${j}:${job.v}`; if (!want(kk)) continue;
        const d = lab.resume(c.image, c.host.fork(), (i) => i === j); let bad = null;
        if (d.r.st !== 'ckpt' || !d.image) bad = { expected: 'checkpoint taken', got: show(d.r) }; else bad = lab.diff(u, lab.resume(d.image, d.host));
        done(kk, bad); if (res.violations.length > 100) return;
      }
    }
  };
  if (job.fam === 'relay' || job.fam === 'pairs') {
    const P = PROGS[job.k]; const lab = new Lab(w, w, progModule(job.k), { host: mkHost, argv: ARGV }); const g = { name: 'main', args: P.args }; const key = 'prog:' + job.k; const u = start(lab, key, g);
    if (job.fam === 'relay') relay(lab, key, g, job.s, u); else if (u.n <= (job.tier === 'thorough' ? 400 : MAXN)) pairs(lab, key, g, u, (k) => k % 4 === job.sh); return { job, ...res };
  }
  const chain = (lab, key) => { if (job.only && !job.only.startsWith(key + ':')) return; const g = { name: 'p0', args: ixArgs, results: [] }; const u = start(lab, key, g); if (!u) return bump('oob-skipped'); relay(lab, key, g, 1, u); };
  if (job.fam === 'between') { const x = IX[job.k]; chain(new Lab(w, w, ixModule(job.k, 'r'.repeat(x.in.length), dests(x)[0], 0), { host: mkHost, argv: ARGV }), `between:${job.k}`); return { job, ...res }; }
  if (job.fam === 'sig') { for (const sg of sgFew.slice(job.i, job.i + 11)) if (job.all || sg[0].length + sg[1].length <= 2) chain(new Lab(w, w, sgModule(sg, job.out, 'r', 0), { host: mkHost, argv: ARGV }), `sig:${sg.map((l) => l.join(',')).join('>')}:${job.out}`); return { job, ...res }; }
  const f = FAM[job.fam]; const opt = { results: f.res, nest: f.nest ?? 1, maxStack: 4 }; let P = [];
  const flush = () => {
    if (!P.length) return; const m = new Mod(); const env = setup(m); P.forEach((p, i) => m.func({ params: PARAMS, results: f.res, locals: LOCALS, body: emit(p, env), name: 'p' + i })); const lab = new Lab(w, w, m.build(), { host: mkHost, argv: ARGV });
    P.forEach((p, i) => { const key = `${job.fam}:${p.join(' ')}`; if (job.only && !job.only.startsWith(key + ':')) return; const g = { name: 'p' + i, args: ARGS }; const u = start(lab, key, g); if (!u) return bump('oob-skipped'); relay(lab, key, g, 1, u); pairs(lab, key, g, u); }); P = [];
  };
  for (const p of bodies(A, f.toks, job.depth, opt, job.prefix, stateAfter(A, job.prefix, opt))) { if (job.prefix.length && p.length < 2) continue; P.push(p); if (P.length >= 40) flush(); }
  flush(); return { job, ...res };
}
