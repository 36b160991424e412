// C11: checkpoint requests through checkpoint.trigger, with the real polling mechanism.
// The request file appears at EVERY instruction index of a window, in guests of every
// shape: it is honoured within a bounded number of instructions, consumed exactly once,
// and never without a request or without --cr.
import { I, Mod } from '../lib/asm.mjs';
import { V } from '../lib/host.mjs';
import { wasmPath } from '../lib/build.mjs';
import { Lab, show } from '../lib/ckpt.mjs';
import { Host } from '../lib/wasi.mjs';
import { Chiwawa } from '../lib/host.mjs';
import { LONG, longModule } from './c18_recurrence.mjs';
import * as watch from '../lib/watch.mjs';

export const variants = ['tco', 'legacy'];
const BOUND = 4096, op = (n) => I.op(n);
const count = (n, body, ctr = 0) => [I.loop('', [body, I.get(ctr), I.i32(1), op('i32.add'), I.tee(ctr), I.i32(n), op('i32.lt_u'), I.br_if(0)])];
const yl = (m) => m.importFunc('wasi_snapshot_preview1', 'sched_yield', [], ['i32']);
// every guest runs for well over 2 * BOUND instructions and returns a value that depends on all of them
const G = {
  tight: (m) => { yl(m); m.memory(1); m.func({ results: ['i32'], locals: ['i32'], body: [count(5000, []), I.get(0)], name: 'main' }); },
  calls: (m) => { yl(m); m.memory(1); const f = m.func({ params: ['i32'], results: ['i32'], body: [I.get(0), I.i32(3), op('i32.add')] }); m.func({ results: ['i32'], locals: ['i32', 'i32'], body: [count(2500, [I.get(1), I.call(f), I.set(1)]), I.get(1)], name: 'main' }); },
  nested: (m) => { yl(m); m.memory(1); let f = m.func({ params: ['i32'], results: ['i32'], body: [I.get(0), I.i32(3), op('i32.add')] }); for (let k = 0; k < 4; k++) { const g = f; f = m.func({ params: ['i32'], results: ['i32'], body: [I.get(0), I.call(g), I.i32(1), op('i32.xor')] }); } m.func({ results: ['i32'], locals: ['i32', 'i32'], body: [count(900, [I.get(1), I.call(f), I.set(1)]), I.get(1)], name: 'main' }); },
  indirect: (m) => { yl(m); m.memory(1); const ty = m.type(['i32'], ['i32']); const f = m.func({ params: ['i32'], results: ['i32'], body: [I.get(0), I.i32(3), op('i32.mul')] }), g = m.func({ params: ['i32'], results: ['i32'], body: [I.get(0), I.i32(7), op('i32.sub')] }); m.table('funcref', 2); m.elem(I.i32(0), [f, g]); m.func({ results: ['i32'], locals: ['i32', 'i32'], body: [count(2500, [I.get(1), I.get(0), I.i32(1), op('i32.and'), I.call_indirect(ty), I.set(1)]), I.get(1)], name: 'main' }); },
  host: (m) => { const y = yl(m); m.memory(1); m.func({ results: ['i32'], locals: ['i32', 'i32'], body: [count(2500, [I.get(1), I.call(y), op('i32.add'), I.i32(1), op('i32.add'), I.set(1)]), I.get(1)], name: 'main' }); },
  fib: (m) => { yl(m); m.memory(1); const f = m.func({ params: ['i32'], results: ['i32'], body: [] }); m.setBody(f, [I.get(0), I.i32(2), op('i32.lt_s'), I.if('i32', [I.get(0)], [I.get(0), I.i32(1), op('i32.sub'), I.call(f), I.get(0), I.i32(2), op('i32.sub'), I.call(f), op('i32.add')])]); m.func({ results: ['i32'], body: [I.i32(15), I.call(f)], name: 'main' }); },
  deep: (m) => { yl(m); m.memory(1); const f = m.func({ params: ['i32'], results: ['i32'], locals: ['i32'], body: [] }); m.setBody(f, [I.get(0), op('i32.eqz'), I.if('', [count(40, [], 1), I.get(1), I.return()]), I.get(0), I.i32(1), op('i32.sub'), I.call(f), I.get(0), op('i32.add')]); m.func({ results: ['i32'], locals: ['i32', 'i32'], body: [count(30, [I.i32(60), I.call(f), I.get(1), op('i32.add'), I.set(1)]), I.get(1)], name: 'main' }); },
  table: (m) => { yl(m); m.memory(1); m.func({ results: ['i32'], locals: ['i32', 'i32'], body: [count(2000, [I.block('', [I.block('', [I.get(0), I.i32(1), op('i32.and'), I.br_table([0], 1)]), I.get(1), I.i32(5), op('i32.add'), I.set(1)])]), I.get(1)], name: 'main' }); },
  straight: (m) => { yl(m); m.memory(1); m.func({ results: ['i32'], locals: ['i32'], body: Array.from({ length: 6000 }, (_, i) => [I.get(0), I.i32(i), op('i32.xor'), I.i32(3), op('i32.rotl'), I.set(0)]).concat([I.get(0)]), name: 'main' }); },
  nowasi: (m) => { m.memory(1); m.func({ results: ['i32'], locals: ['i32'], body: [count(5000, []), I.get(0)], name: 'main' }); },
  nomem: (m) => { m.func({ results: ['i32'], locals: ['i32'], body: [count(5000, []), I.get(0)], name: 'main' }); },
};
const NL = Object.keys(LONG), LAT = [0, 1500], TURNS = 3000;
export const meta = {
  level: 'fault_enumeration', rule: 'one execution = one guest shape with the request file appearing at one instruction index, run with the real polling mechanism; compared: request honoured within the bound, file consumed, image restorable, rest of the run needs no second stop; non-trivial = distinct (shape, instant)',
  bounds: (t) => [`shapes {${Object.keys(G).join(' ')}} x request at every ${t === 'thorough' ? '' : '3rd '}instruction index in [0, 2100], every one restored and finished for every 130th; bound on the delay: ${BOUND} instructions`, `a loop around each of ${NL.length} instructions and ways out of blocks and functions (those of C18), with a request at instructions {${LAT.join(' ')}}: honoured within the bound, restored and finished`],
  assumptions: ['single-threaded target; the monitor thread of wasm32-wasip1-threads is outside the reach of the explorer'],
};
export async function plan(tier) { const jobs = []; const st = tier === 'thorough' ? 1 : 3; for (const v of variants) for (let i = 0; i < NL.length; i += 40) jobs.push({ fam: 'forms', v, i }); for (const v of variants) for (const k of Object.keys(G)) { jobs.push({ v, k, never: 1 }); for (let t = 0; t <= 2100; t += 300) jobs.push({ v, k, from: t, to: Math.min(2100, t + 299), st }); } return jobs; }
export async function run(job) {
  const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; const bump = (k) => { res.outcomes[k] = (res.outcomes[k] ?? 0) + 1; }; const w = wasmPath(job.v);
  if (job.fam === 'forms') {
    for (const name of NL.slice(job.i, job.i + 40)) {
      const bytes = longModule(name); const lab = new Lab(w, w, bytes); const args = [V.i32(TURNS)];
      for (const t of LAT) {
        const kk = `forms:${name}:request@${t}:${job.v}`; if (job.only && job.only !== kk) continue; watch.setKey(kk); const h = new Host(); const TR = 'checkpoint.trigger', put = () => h.setFile(TR, new Uint8Array(0)); if (t === 0) put(); const c = lab.start(h); let n = 0; c.poll = () => { if (++n === t) put(); return 2; }; const r = c.call('main', args, 1); const img = h.file('checkpoint.bin'); let bad = null;
        if (r.st !== 'ckpt') bad = { expected: `stopped within ${BOUND} instructions of the request`, got: show(r) }; else if (n - t > BOUND) bad = { expected: `<= ${BOUND} instructions`, got: n - t }; else if (h.file(TR)) bad = { expected: 'request consumed', got: 'still there' }; else if (!img) bad = { expected: 'image', got: 'none' };
        else { const b = lab.b; const h2 = h.fork(); b.fresh(h2); b.load(bytes); b.poll = () => 2; const q = b.restore(img.slice(), 1); if (q.st !== 'ok' || Number(q.vals[0].v) !== TURNS) bad = { expected: `restored run ends after ${TURNS} turns`, got: show(q) }; }
        res.evals++; res.nontrivial++; if (bad) { bump('bad'); res.violations.push({ key: kk, detail: bad }); } else bump('as required');
      }
    } return { job, ...res };
  }
  const m = new Mod(); G[job.k](m); const bytes = m.build(); const lab = new Lab(w, w, bytes); const g = { name: 'main' }; watch.setKey(`${job.k}:uncut:${job.v}`);
  const done = (kk, bad) => { res.evals++; res.nontrivial++; if (bad) { bump('bad'); res.violations.push({ key: kk, detail: bad }); } else bump('as required'); };
  const u = lab.uncut(g); if (u.r.st !== 'ok') throw new Error(job.k + ' ' + show(u.r)); // a guest that offers fewer stops than it should still has to honour a request made at the start
  const TR = 'checkpoint.trigger', put = (h) => h.setFile(TR, new Uint8Array(0));
  if (job.never) {
    for (const [name, file, flags] of [['no request', 0, 1], ['without --cr', 1, 0], ['neither', 0, 0], ['near-miss file', 2, 1]]) {
      const kk = `${job.k}:${name}:${job.v}`; if (job.only && job.only !== kk) continue; watch.setKey(kk); const h = new Host(); if (file === 1) put(h); if (file === 2) { h.setFile('checkpoint.triggered', new Uint8Array(1)); h.setFile('sub/checkpoint.trigger', new Uint8Array(1)); } const c = lab.start(h); c.poll = () => 2; const r = c.call('main', [], flags); let bad = null;
      if (r.st !== 'ok' || show(r) !== show(u.r)) bad = { expected: show(u.r), got: show(r) }; else if (h.file('checkpoint.bin')) bad = { expected: 'no image', got: 'image' }; else if (file === 1 && !h.file(TR)) bad = { expected: 'request left alone without --cr', got: 'consumed' }; done(kk, bad);
    } return { job, ...res };
  }
  for (let t = job.from; t <= job.to; t++) {
    if (t % job.st || (t > 0 && t >= u.n)) continue; const kk = `${job.k}:request@${t}:${job.v}`; if (job.only && job.only !== kk) continue; watch.setKey(kk);
    const h = new Host(); if (t === 0) put(h); const c = lab.start(h); let n = 0; c.poll = () => { if (++n === t) put(h); return 2; }; const r = c.call('main', [], 1); let bad = null; const img = h.file('checkpoint.bin');
    if (r.st !== 'ckpt') bad = { expected: `stopped within ${BOUND} instructions of the request`, got: show(r) }; else if (n - t > BOUND) bad = { expected: `<= ${BOUND} instructions`, got: n - t }; else if (n < t) bad = { expected: 'no stop before the request', got: n }; else if (h.file(TR)) bad = { expected: 'request consumed', got: 'still there' }; else if (!img) bad = { expected: 'image', got: 'none' };
    else if (t % 130 === 0) { const b = lab.b; const h2 = h.fork(); b.fresh(h2); b.load(bytes); b.poll = () => 2; const q = b.restore(img.slice(), 1); if (q.st !== 'ok' || show(q) !== show(u.r)) bad = { expected: 'restored run ends: ' + show(u.r), got: show(q) }; }
    done(kk, bad); if (!bad && res.samples.length < 1) res.samples.push({ guest: job.k, request_at: t, honoured_at: n, of: u.n }); if (res.violations.length > 30) break;
  }
  return { job, ...res };
}
