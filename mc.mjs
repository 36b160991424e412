// node mc.mjs <property> [quick|thorough]   runs one check
// node mc.mjs replay <file>                 re-executes one recorded counterexample
import { Worker, isMainThread, parentPort, workerData } from 'node:worker_threads';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import * as watch from './lib/watch.mjs';
const VERIF = path.dirname(new URL(import.meta.url).pathname);

async function workerMain() {
  const chk = await import(path.join(VERIF, 'checks', workerData.file));
  const ctx = { tier: workerData.tier }; watch.attach(workerData.sab);
  if (chk.init) await chk.init(ctx);
  parentPort.on('message', async (job) => {
    try { const r = await chk.run(job, ctx); parentPort.postMessage({ ok: true, r }); } catch (e) { parentPort.postMessage({ ok: false, e: String(e && e.stack ? e.stack : e), job }); }
  });
  parentPort.postMessage({ ready: true });
}

const fileOf = (id) => fs.readdirSync(path.join(VERIF, 'checks')).find((f) => f.startsWith(id.toLowerCase() + '_') || f === id.toLowerCase() + '.mjs');

const HANG_MS = Number(process.env.MC_HANG_MS ?? 20000);
async function runJobs(file, tier, jobs, onRes) {
  const n = Math.min(Number(process.env.MC_WORKERS ?? os.availableParallelism()), Math.max(1, jobs.length)); let next = 0; const errs = []; let hangs = 0;
  const one = () => new Promise((res) => {
    const sab = new SharedArrayBuffer(watch.SIZE); let cur = null, last = -1, since = Date.now(), over = false;
    const w = new Worker(new URL(import.meta.url), { workerData: { file, tier, sab }, resourceLimits: { maxOldGenerationSizeMb: 3000 } });
    const fin = () => { if (over) return; over = true; clearInterval(timer); w.terminate().then(() => res()); };
    const give = () => { if (next < jobs.length && !errs.length && hangs < 40) { cur = jobs[next++]; w.postMessage(cur); } else fin(); };
    // a guest that does not come back: report it and go on with a fresh worker
    const timer = setInterval(() => {
      const s = watch.look(sab); if (!s.inside || s.n !== last) { last = s.n; since = Date.now(); return; }
      if (Date.now() - since < HANG_MS) return;
      over = true; clearInterval(timer); hangs++; const job = cur;
      w.terminate().then(() => { onRes({ job, evals: 1, nontrivial: 1, outcomes: { hang: 1 }, violations: [{ key: s.key, detail: { hang: `no result after ${HANG_MS} ms; the reference terminates` } }] }); one().then(res); });
    }, 1000);
    w.on('message', (m) => { if (over) return; if (m.ready) return give(); if (!m.ok) errs.push(m); else onRes(m.r); give(); });
    w.on('error', (e) => { if (over) return; errs.push({ e: String(e.stack ?? e), job: cur }); fin(); });
  });
  await Promise.all(Array.from({ length: n }, one));
  if (errs.length) throw new Error('worker failed: ' + errs[0].e + '\njob ' + JSON.stringify(errs[0].job ?? null).slice(0, 2000));
}

async function main() {
  const t0 = Date.now();
  const [id0, tierArg] = process.argv.slice(2);
  if (id0 === 'replay') {
    const rp = JSON.parse(fs.readFileSync(tierArg)); const file = fileOf(rp.property); const chk = await import(path.join(VERIF, 'checks', file));
    const { ensure } = await import('./lib/build.mjs'); await ensure(chk.variants); if (chk.prepare) await chk.prepare();
    const ctx = { tier: 'quick' }; if (chk.init) await chk.init(ctx);
    const r = await chk.run({ ...rp.job, only: rp.key }, ctx); const hit = (r.violations ?? []).filter((v) => v.key === rp.key);
    console.log(hit.length ? 'REPRODUCED ' + JSON.stringify(hit[0], null, 1) : 'not reproduced'); process.exit(hit.length ? 1 : 0);
  }
  const id = id0; const tier = tierArg ?? process.env.VERIF_TIER ?? 'quick'; const seed = Number(process.env.VERIF_SEED ?? 1);
  const file = fileOf(id); if (!file) throw new Error('no check ' + id);
  const chk = await import(path.join(VERIF, 'checks', file));
  const { ensure } = await import('./lib/build.mjs');
  await ensure(chk.variants); if (chk.prepare) await chk.prepare();
  const tb = (Date.now() - t0) / 1000;
  let jobs = await chk.plan(tier); if (process.env.MC_FILTER) jobs = jobs.filter((j) => JSON.stringify(j).includes(process.env.MC_FILTER)); // development only
  const agg = { evals: 0, nontrivial: 0, states: 0, transitions: 0, traces: 0, samples: [], outcomes: {}, extra: {} }; const viol = [];
  await runJobs(file, tier, jobs, (r) => {
    for (const k of ['evals', 'nontrivial', 'states', 'transitions', 'traces']) agg[k] += r[k] ?? 0;
    for (const [k, v] of Object.entries(r.outcomes ?? {})) agg.outcomes[k] = (agg.outcomes[k] ?? 0) + v;
    for (const [k, v] of Object.entries(r.extra ?? {})) agg.extra[k] = (agg.extra[k] ?? 0) + v;
    if (r.samples && agg.samples.length < 6) agg.samples.push(...r.samples.slice(0, 1));
    for (const v of r.violations ?? []) viol.push({ ...v, job: r.job });
  });
  if (agg.evals === 0) throw new Error('vacuous run: nothing was executed');
  const known = JSON.parse(fs.readFileSync(path.join(VERIF, 'known_findings.json'))).findings.filter((k) => k.property === id);
  const kset = new Map(known.map((k) => [k.key, k]));
  const seenKnown = new Set(); const bad = [];
  for (const v of viol) { if (kset.has(v.key)) seenKnown.add(v.key); else if (v.finding && kset.has(v.finding)) seenKnown.add(v.finding); else bad.push(v); }
  for (const k of known) if (seenKnown.has(k.key)) console.log(`KNOWN-FINDING: property=${id} ${k.key} ${k.what}`);
  fs.mkdirSync(path.join(VERIF, 'evidence', 'replay'), { recursive: true });
  const m = chk.meta; const cov = m.level === 'model_checking'
    ? { states: agg.states, transitions: agg.transitions, traces_validated_against_impl: agg.traces, evaluations: agg.evals, rule: m.rule, samples: agg.samples, exhaustive: true }
    : { evaluations: agg.evals, distinct_nontrivial: agg.nontrivial, rule: m.rule, samples: agg.samples, exhaustive: true };
  cov.outcomes = agg.outcomes; Object.assign(cov, agg.extra); cov.jobs = jobs.length; cov.bounds = typeof m.bounds === 'function' ? m.bounds(tier) : m.bounds; cov.known_findings_seen = [...seenKnown]; cov.build_s = tb;
  if (agg.nontrivial === 0 && m.level !== 'model_checking') throw new Error('vacuous run: no non-trivial case');
  fs.writeFileSync(path.join(VERIF, 'evidence', id + '.json'), JSON.stringify({ property: id, tier, seed, level: m.level, coverage: cov, assumptions: m.assumptions ?? [], wall_s: (Date.now() - t0) / 1000, violations: bad.length }, null, 1));
  console.log(`${id} ${tier}: ${agg.evals} executions, ${agg.nontrivial} non-trivial${agg.states ? `, ${agg.states} states, ${agg.transitions} transitions` : ''}, outcomes ${JSON.stringify(agg.outcomes)}, ${((Date.now() - t0) / 1000).toFixed(1)} s (build ${tb.toFixed(1)} s)`);
  if (bad.length) {
    const seenK = new Set(); let n = 0;
    for (const v of bad) {
      if (seenK.has(v.key)) continue; seenK.add(v.key);
      const f = path.join(VERIF, 'evidence', 'replay', `${id}-${n}.json`);
      if (n < 20) { fs.writeFileSync(f, JSON.stringify({ property: id, key: v.key, detail: v.detail, job: v.job }, null, 1)); console.log(`VIOLATION property=${id} replay=${f}`); console.log('  ' + v.key + ' :: ' + JSON.stringify(v.detail).slice(0, 600)); }
      n++;
    }
    console.log(`${seenK.size} distinct violations`);
    if (process.env.MC_DUMP) fs.writeFileSync(process.env.MC_DUMP, JSON.stringify([...new Map(bad.map((b) => [b.key, b.detail]))], null, 0));
    process.exitCode = 1;
  }
}
if (isMainThread) main().catch((e) => { console.error(e); process.exit(3); }); else workerMain();
