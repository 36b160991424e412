// C13: checkpoint images are portable between the two dispatchers: an image taken at any
// poll by one build is restored by the other, which finishes as the uncut run does; both
// builds offer the same cut points.
import { plan as plan9, run as run9 } from './c09_checkpoint.mjs';
// Hosts: every part of a run (1024 instructions each, by a checkpoint request that is always
// pending) is done by the command under Node and under wasmtime, with the real file system,
// and must come out the same: status, output, image byte for byte.
import { execFileSync, spawnSync } from 'node:child_process';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { FAM, PROGS } from '../lib/corpus.mjs';
import { wasmPath } from '../lib/build.mjs';
import { runCli, Host } from '../lib/cli.mjs';
import { ensureGuests, guestPath } from '../lib/guests.mjs';
import * as watch from '../lib/watch.mjs';
export const variants = ['tco', 'legacy', 'cli-tco', 'cli-legacy'];
const WASMTIME = '/opt/wasmtime/bin/wasmtime', native = (v) => wasmPath('cli-' + v).replace(/chiwawa\.wasm$/, 'mc.cwasm');
const HG = ['rs', 'r0', 'c2mv', 'c0mvp'];
export async function prepare() { await ensureGuests(HG); for (const v of ['tco', 'legacy']) { const a = wasmPath('cli-' + v), b = native(v); if (!fs.existsSync(b) || fs.statSync(b).mtimeMs < fs.statSync(a).mtimeMs) execFileSync(WASMTIME, ['compile', '-W', 'tail-call=y', a, '-o', b], { stdio: 'pipe' }); } }
const HRUNS = [...['queens 5', 'sorts 20 5', 'dynamic 3', 'crash exit', 'text 127', 'calc 2*(3', 'tree 6', 'words', 'nope'].map((a) => ['rs', ['--app-args', a]]), ['r0', ['--app-args', 'queens 4']], ...['structs', 'machine', 'pointers', 'narrow', 'numbers', 'lists', 'calls'].flatMap((f) => [['c2mv', ['--invoke', f, '--params', 'I32(77)']], ['c0mvp', ['--invoke', f, '--params', 'I32(5)']]])];
const HOPS = { quick: 12, thorough: 400 };
const less = Object.fromEntries(Object.keys(FAM).map((k) => [k, 1]));
export const meta = {
  level: 'fault_enumeration', rule: 'one execution = one guest cut at one poll under one dispatcher, the image restored under the other and run to the end, compared with the uncut run under the first; both dispatchers must offer equally many polls, and the same guest state (memory, globals, tables, output) at each; non-trivial = distinct (guest, poll, direction)',
  bounds: (t) => [...Object.entries(FAM).map(([k, f]) => `${k}: every valid body of <= ${(t === 'thorough' ? f.t : f.q) - (less[k] ?? 0)} tokens, every poll, both directions`), `programs {${Object.keys(PROGS).join(' ')}}, every poll, both directions`, 'all instructions between values of every type, and the ways out of blocks, loops, ifs and functions of C09', `hosts: ${HRUNS.length} runs of compiled programs, stopped every 1024 instructions, up to ${HOPS[t]} parts, each part under Node and under wasmtime, in each dispatcher and in both alternately`],
  assumptions: ['both builds come from the same sources'],
};
export async function plan(tier) { // the corpus of C09 at the depth used for the legacy build, crossed
  const jobs = (await plan9(tier)).filter((j) => j.v === 'legacy'); const sig = tier === 'thorough' ? [] : (await plan9(tier)).filter((j) => j.fam === 'sig' && j.v === 'tco').map((j) => ({ ...j, v2: 'legacy', instants: true })); return jobs.flatMap((j) => [{ ...j, v: 'tco', v2: 'legacy', instants: true }, { ...j, v: 'legacy', v2: 'tco' }]).concat(sig, HRUNS.flatMap((_, i) => [['tco'], ['legacy'], ['tco', 'legacy']].map((vs) => ({ fam: 'hosts', vs, i, tier }))));
}
function under(v, dir, files, args) { // one process of the command under wasmtime
  for (const [n, d] of Object.entries(files)) fs.writeFileSync(path.join(dir, n), d);
  const r = spawnSync(WASMTIME, ['run', '--allow-precompiled', '--dir', `${dir}::.`, native(v), ...args], { timeout: 60000, input: '', maxBuffer: 1 << 26 }); if (r.error) throw r.error; const f = Object.fromEntries(fs.readdirSync(dir).sort().map((n) => [n, fs.readFileSync(path.join(dir, n))])); for (const n of fs.readdirSync(dir)) fs.unlinkSync(path.join(dir, n)); return { status: r.status ?? r.signal, out: r.stdout.toString('latin1'), err: r.stderr.toString('latin1'), files: f };
}
function node(v, files, args) { const h = new Host({ files: Object.fromEntries(Object.entries(files).map(([n, d]) => [n, Uint8Array.from(d)])) }); const r = runCli(v, h, args); return { status: r.code, out: r.stdout, err: r.stderr, files: Object.fromEntries([...h.files.keys()].sort().map((n) => [n, Buffer.from(h.file(n))])) }; }
function hosts(job) {
  const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; const bump = (k) => { res.outcomes[k] = (res.outcomes[k] ?? 0) + 1; };
  const [g, opt] = HRUNS[job.i], guest = fs.readFileSync(guestPath(g)); const dir = fs.mkdtempSync(path.join(os.tmpdir(), 'mc13-'));
  try {
    const ref = node(job.vs[0], { 'g.wasm': guest }, ['g.wasm', ...opt]); let img = null, last = null, k = 0; const tail = (s) => s.split('\n').filter((l) => l.startsWith('Result:')).join();
    for (; k < HOPS[job.tier]; k++) {
      const v = job.vs[k % job.vs.length], key = `hosts:${g} ${opt.join(' ')}:part ${k}:${job.vs.join('+')}`; watch.setKey(key); const files = { 'g.wasm': guest, 'checkpoint.trigger': Buffer.alloc(0), ...(img ? { 'image.bin': img } : {}) }; const args = ['g.wasm', ...opt, '--cr', ...(img ? ['--restore', 'image.bin'] : [])];
      const a = node(v, files, args), b = under(v, dir, files, args); let bad = null; const names = (r) => Object.keys(r.files).join(' ');
      if (a.status !== b.status) bad = { expected: `status ${a.status}`, got: `${b.status}` }; else if (a.out !== b.out) bad = { expected: a.out.slice(-200), got: b.out.slice(-200) }; else if (a.status !== 134 && a.err !== b.err) bad = { expected: a.err.slice(-200), got: b.err.slice(-200) }; else if (names(a) !== names(b)) bad = { expected: names(a), got: names(b) }; else for (const n of Object.keys(a.files)) if (a.files[n].compare(b.files[n])) bad = { expected: `${n} as under Node`, got: 'other contents' };
      if (!job.only || job.only === key) { res.evals++; res.nontrivial++; bump(bad ? 'bad' : 'same part'); if (bad) res.violations.push({ key, detail: bad }); } if (bad) return { job, ...res };
      img = (k % 2 ? a : b).files['checkpoint.bin']; last = a; if (!img) break;
    }
    const key = `hosts:${g} ${opt.join(' ')}:end:${job.vs.join('+')}`; if (!img && (!job.only || job.only === key)) { const bad = last.status !== ref.status || tail(last.out) !== tail(ref.out) ? { expected: `status ${ref.status} ${tail(ref.out)}`, got: `status ${last.status} ${tail(last.out)}` } : null; res.evals++; res.nontrivial++; bump(bad ? 'bad' : 'same end'); if (bad) res.violations.push({ key, detail: bad }); else res.samples.push({ run: key, parts: k + 1, result: tail(ref.out) }); }
  } finally { fs.rmSync(dir, { recursive: true, force: true }); }
  return { job, ...res };
}
export const run = (job, ctx) => (job.fam === 'hosts' ? hosts(job) : run9(job, ctx));
