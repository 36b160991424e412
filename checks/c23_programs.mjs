// C23: programs built by real toolchains (rustc with its whole standard library, go, clang; several
// optimisation levels, feature sets and calling conventions; and chiwawa itself, running a
// guest of its own) do under chiwawa what they do under V8, and go on doing so when they are
// stopped and continued elsewhere, at every n-th instruction.
import fs from 'node:fs';
import { Chiwawa, Host, Ref, V } from '../lib/host.mjs';
import { wasmPath } from '../lib/build.mjs';
import { RUST, C, GO, ensureGuests, guestPath } from '../lib/guests.mjs';
import { PROGS, progModule } from '../lib/corpus.mjs';
import { nextProcess, outcome, show } from '../lib/ckpt.mjs';
import * as watch from '../lib/watch.mjs';

export const variants = ['tco-fat', 'legacy', 'cli-legacy'];
export const prepare = ensureGuests;
const TEXT = 'The cat the DOG\n\ncat a b\tÄä the end', SUM = '1+2*(3-4)^2^.5/7';
// ---- programs with their inputs; cut: also interrupted
const P = [];
const add = (cut, ...a) => P.push({ name: a.join(' ') || '(none)', argv: a, cut });
for (const n of [1, 2, 3, 4, 5, 6]) add(n === 5, 'queens', '' + n);
for (const n of [0, 1, 2, 3, 20, 21, 30, 60, 200]) add(n === 30, 'sorts', '' + n, '5');
for (const n of [0, 1, 3, 7]) add(n === 3, 'dynamic', '' + n);
for (const n of [1, 20, 40]) add(n === 20, 'wide', '' + n);
for (const n of [3, 6]) add(n === 3, 'life', '' + n, '3');
for (const n of [1, 20, 60, 300]) add(n === 20, 'tree', '' + n);
for (const s of ['', '127', '-128', 'ff', 'Héé 12-3', 'ß ﬁ 🦀', '18446744073709551615']) add(s === 'Héé 12-3', 'text', s);
for (const s of [SUM, '2*(3', '1e', '-2^0.5', '1/0', '0/0']) add(s === SUM || s === '2*(3', 'calc', s);
for (const s of ['panic', 'index', 'unwrap', 'exit', 'abort', 'overflow', 'alloc', 'div', 'env']) add(['index', 'exit', 'alloc'].includes(s), 'crash', s);
add(true, 'words'); add(true, 'lines'); add(true, 'clock'); add(false, 'files', '.'); add(false, 'files', 'nowhere'); add(false, 'nope'); add(false);
const ALPHA = '019.-+*/^()e ';
const CF = ['structs', 'machine', 'pointers', 'narrow', 'numbers', 'lists', 'calls'];
const CARGS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 16, 31, 32, 63, 64, 100, 255, 256, 1000, 65535, 65536, 123456789, 0x7fffffff, 0x80000000, 0x80000001, 0xdeadbeef, 0xfffffffe, 0xffffffff];
const GOP = ['pipe', 'tree', 'map', 'panic', 'big', 'num', 'iface', 'sync', 'gc', 'deep', 'none'];
const CUTARG = 12345;
const RCUT = ['r0', 'r2', 'rs', 'rmvp'], CCUT = ['c0mvp', 'c1mv', 'c2mvp', 'c3mv', 'czmv'];
// cuts per guest run; the instants are k = first, first + step, ... so that they spread over the whole run
const N = { quick: { rust: 24, go: 8, c: 60, self: 20, relay: [7, 19], everyLen: 2 }, thorough: { rust: 300, go: 120, c: 1000, self: 200, relay: [7, 19, 53, 101], everyLen: 3 } };
const SELF = { quick: ['sort'], thorough: ['fib', 'sieve', 'sort', 'machine'] };
const HOPS = 5; // of the self-hosted relay
export const meta = {
  level: 'exploration', rule: 'one execution = one program of a real toolchain with one input, run to its end (or cut at an instant, its image restored in a new process of the same or the other dispatcher, and run to its end) and compared: ending, status, standard output, standard error, and all of memory, with V8 and, when cut, with the uncut run; non-trivial = all',
  bounds: (t) => [`guests: rustc x {${Object.keys(RUST).join(' ')}}, ${P.length} program inputs; every string of ${N[t].everyLen + 1} characters over '${ALPHA}' through a calculator and the library's number parsers; go, {${GOP.join(' ')}} (goroutines, collector, library); clang x {${Object.keys(C).join(' ')}} (mvp, and multi-value calling convention), ${CF.length} functions x ${CARGS.length} arguments in one instance`, `cut: ${N[t].rust} evenly spread instants of ${P.filter((p) => p.cut).length} programs x {${RCUT.join(' ')}}, ${N[t].go} of {${GOP.join(' ')}}, ${N[t].c} of ${CF.length} functions x {${CCUT.join(' ')}}, in each dispatcher, continued in the other one and in the same alternately; relays of ${N[t].relay.join(', ')} hops`, `chiwawa under chiwawa: the command, running {${Object.keys(PROGS).join(' ')}} and two Rust programs, asked for a checkpoint of its own guest and restored from it; cut at ${N[t].self} instants while it runs {${SELF[t].join(' ')}}`],
  assumptions: ['V8 implements WebAssembly', 'the compilers are deterministic', 'what the interpreter itself prints when a guest traps follows what the guest printed and is left out'],
};
export async function plan(tier) {
  const jobs = [], n = N[tier];
  for (const v of variants.slice(0, 2)) {
    for (const k of Object.keys(PROGS)) jobs.push({ fam: 'self', v, k, tier }); for (const a of [['calc', SUM], ['crash', 'exit']]) jobs.push({ fam: 'selfrust', v, a, tier });
    for (const k of SELF[tier]) { for (let s = 0; s < 4; s++) jobs.push({ fam: 'selfcut', v, k, s, tier }); jobs.push({ fam: 'selfrelay', v, k, tier }); }
    for (const k of GOP) jobs.push({ fam: 'gocut', v, k, tier }, { fam: 'gorelay', v, k, tier });
    for (const g of RCUT) P.forEach((p, i) => { if (p.cut) jobs.push({ fam: 'rcut', v, g, i, tier }, { fam: 'rrelay', v, g, i, tier }); });
    for (const g of CCUT) for (const f of CF) jobs.push({ fam: 'ccut', v, g, f, tier }, { fam: 'crelay', v, g, f, tier });
    for (const g of Object.keys(RUST)) { for (let s = 0; s < 4; s++) jobs.push({ fam: 'rrun', v, g, s, tier }); }
    for (const g of Object.keys(C)) jobs.push({ fam: 'crun', v, g, tier });
    for (const g of ['r1', 'rs', 'rmvp']) for (const c of ALPHA) jobs.push({ fam: 'every', v, g, c, tier });
  }
  return jobs;
}
const other = (v) => (v === 'legacy' ? 'tco-fat' : 'legacy');
const read = (g) => new Uint8Array(fs.readFileSync(guestPath(g)));
const world = (argv, files = {}) => new Host({ args: argv, env: ['A=b', 'C=d e'], stdin: [...Buffer.from(TEXT)], files });
// a guest ready to start, as often as needed: loading is done once per dispatcher, the process state is kept
class Bed {
  constructor(bytes, argv, files) { this.bytes = bytes; this.argv = argv; this.files = files ?? (() => ({})); this.c = {}; this.s = {}; }
  host() { return world(this.argv, this.files()); }
  proc(v, host) { const w = wasmPath(v); const c = (this.c[v] ??= new Chiwawa(w, this.host())); if (!this.s[v]) { c.fresh(this.host()); const l = c.load(this.bytes, this.argv); if (l.st !== 'ok') throw new Error('load ' + l.st + ' ' + l.msg); this.s[v] = c.snap(); } c.revert(this.s[v], host); return c; }
  see(c, r, h, n) { return { r, n, host: h, out: h.stdout(), err: h.stderr(), mem: r.st === 'ok' && !c.dead ? Buffer.from(c.memBytes()) : null, image: r.st === 'ckpt' ? h.file('checkpoint.bin')?.slice() : null }; }
  // what the interpreter says while it writes or reads an image is not the guest's: left out
  watchPolls(c, h, fire) { let n = 0, end = null; const from = [h.out.length, h.err.length]; const o = { get n() { return n; }, tidy: () => { if (end) { h.out.length = end[0]; h.err.length = end[1]; } } }; c.poll = () => { n++; if (n === 1 && o.restored) { h.out.splice(from[0]); h.err.splice(from[1]); } if (fire && fire(n)) { end = [h.out.length, h.err.length]; return 1; } return 0; }; return o; }
  start(v, name, args, fire) { const h = this.host(), c = this.proc(v, h); const o = this.watchPolls(c, h, fire); const r = c.call(name, args, 1); if (r.st === 'ckpt') o.tidy(); return this.see(c, r, h, o.n); }
  resume(v, image, host, fire) { const h = nextProcess(host), c = this.proc(v, h); const o = this.watchPolls(c, h, fire); o.restored = true; const r = c.restore(image, 1); if (r.st === 'ckpt') o.tidy(); return this.see(c, r, h, o.n); }
  v8(name, args, res) { const h = this.host(); const ref = new Ref(this.mod ??= new WebAssembly.Module(this.bytes), h); const r = ref.call(name, args, res); return { r, out: h.stdout(), err: h.stderr(), mem: r.st === 'ok' && ref.x.memory ? Buffer.from(ref.memBytes()) : null, host: h }; }
}
const cut = (s) => (s.length > 300 ? s.slice(0, 150) + '...' + s.slice(-150) : s);
function firstDiff(a, b) { let i = 0; while (i < a.length && a[i] === b[i]) i++; return { at: i, expected: cut(a.slice(Math.max(0, i - 40), i + 120)), got: cut(b.slice(Math.max(0, i - 40), i + 120)) }; }
function diff(a, b) {
  if (b.r.st === 'rejected') return { expected: show(a.r), got: 'image rejected: ' + b.r.msg };
  if (outcome(a.r) !== outcome(b.r) || (a.r.st === 'exit' && a.r.code !== b.r.code)) return { expected: show(a.r), got: show(b.r), stderr: cut(b.err) };
  if (a.r.st === 'ok' && show(a.r) !== show(b.r)) return { expected: show(a.r), got: show(b.r) };
  if (a.out !== b.out) return { stdout: firstDiff(a.out, b.out) };
  if (outcome(a.r) === 'trap' ? !b.err.startsWith(a.err) && !a.err.startsWith(b.err) : a.err !== b.err) return { stderr: firstDiff(a.err, b.err) };
  if (a.mem && b.mem) { if (a.mem.length !== b.mem.length) return { memorySize: { expected: a.mem.length, got: b.mem.length } }; if (a.mem.compare(b.mem)) { let q = 0; while (a.mem[q] === b.mem[q]) q++; return { memoryAt: q, expected: a.mem.subarray(q, q + 16).toString('hex'), got: b.mem.subarray(q, q + 16).toString('hex') }; } }
  return null;
}
export async function run(job) {
  const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; const n = N[job.tier], v = job.v; const bump = (k) => { res.outcomes[k] = (res.outcomes[k] ?? 0) + 1; };
  const want = (kk) => { if (job.only && job.only !== kk) return false; watch.setKey(kk); return true; };
  const done = (kk, bad, s) => { res.evals++; res.nontrivial++; bump(bad ? 'bad' : 'same'); if (bad) res.violations.push({ key: kk, detail: bad }); else if (s && !res.samples.length) res.samples.push({ execution: kk, ...s }); };
  const compare = (bed, key, name, args, rs) => { if (!want(key)) return; const a = bed.v8(name, args, rs); watch.setKey(key); const b = bed.start(v, name, args); done(key, diff(a, b), { ends: show(a.r), stdout: cut(a.out), instructions: b.n }); };
  const cuts = (bed, key, name, args, count, shard = 0, of = 1) => {
    const u = bed.start(v, name, args); const step = Math.max(1, Math.floor(u.n / count)); let i = 0;
    for (let k = 1 + (step >> 1); k <= u.n; k += step, i++) {
      if (i % of !== shard) continue; const w = Math.floor(i / of) % 2 ? v : other(v); const kk = `${key}:cut@${k}:${v}>${w}`; if (!want(kk)) continue; const c = bed.start(v, name, args, (j) => j === k);
      if (c.r.st !== 'ckpt' || !c.image) { done(kk, { expected: 'checkpoint', got: show(c.r) }); continue; } const d = bed.resume(w, c.image, c.host); done(kk, diff(u, d) ?? (d.n === u.n - k + 1 ? null : { expected: `${u.n - k + 1} instructions left`, got: d.n }), { of: u.n });
    }
  };
  const relay = (bed, key, name, args, hops) => {
    const kk0 = `${key}:relay/${hops}:${v}`; if (!want(kk0)) return; const u = bed.start(v, name, args); const s = Math.max(1, Math.ceil(u.n / hops)); let cur = bed.start(v, name, args, (j) => j === s), w = v, h = 1;
    while (cur.r.st === 'ckpt' && h <= hops + 1) { w = other(w); h++; cur = bed.resume(w, cur.image, cur.host, (j) => j === s + 1); }
    done(kk0, cur.r.st === 'ckpt' ? { expected: `an end after ${hops} hops`, got: 'none' } : diff(u, cur), { hops: h });
  };
  const i32 = (x) => [V.i32(x)];
  switch (job.fam) {
    case 'rrun': { const b = read(job.g); P.forEach((p, i) => { if (i % 4 === job.s) { const bed = new Bed(b, ['real', ...p.argv]); compare(bed, `run:${job.g}:${p.name}:${v}`, '_start', [], []); } }); break; }
    case 'every': { const bed = new Bed(read(job.g), ['real', 'every', ALPHA, job.c, '' + n.everyLen]); compare(bed, `every:${job.g}:${job.c}:${v}`, '_start', [], []); break; }
    case 'gocut': case 'gorelay': { const bed = new Bed(read('go'), ['g.wasm', job.k]), key = `go:${job.k}`; if (job.fam === 'gorelay') { compare(bed, `run:${key}:${v}`, '_start', [], []); relay(bed, key, '_start', [], n.relay[0]); } else cuts(bed, key, '_start', [], n.go); break; }
    case 'crun': { // one instance, all calls in turn
      const bed = new Bed(read(job.g), ['c']); const h = bed.host(), c = bed.proc(v, h); c.poll = null; const ref = new Ref(bed.bytes, bed.host());
      for (const f of CF) for (const a of CARGS) { const kk = `c:${job.g}:${f}(${a}):${v}`; watch.setKey(kk); const x = ref.call(f, i32(a), ['i64']), y = c.call(f, i32(a), 0); const bad = diff({ r: x, out: '', err: '', mem: x.st === 'ok' ? Buffer.from(ref.memBytes()) : null }, { r: y, out: '', err: '', mem: y.st === 'ok' ? Buffer.from(c.memBytes()) : null }); if (!job.only || job.only === kk) done(kk, bad, { result: show(x) }); if (bad || y.st !== 'ok') { if (c.dead || bad) return { job, ...res }; } }
      break;
    }
    case 'rcut': case 'rrelay': { const p = P[job.i], bed = new Bed(read(job.g), ['real', ...p.argv]), key = `${job.g}:${p.name}`; if (job.fam === 'rcut') cuts(bed, key, '_start', [], n.rust); else for (const h of n.relay) relay(bed, key, '_start', [], h); break; }
    case 'ccut': case 'crelay': { const bed = new Bed(read(job.g), ['c']), key = `${job.g}:${job.f}`; if (job.fam === 'ccut') cuts(bed, key, job.f, i32(CUTARG), n.c); else for (const h of n.relay) relay(bed, key, job.f, i32(CUTARG), h); break; }
    default: { // chiwawa as the guest
      const b = new Uint8Array(fs.readFileSync(wasmPath('cli-legacy'))); const par = (k) => PROGS[k].args.map((x) => `${{ 0x7f: 'I32', 0x7e: 'I64' }[x.t]}(${BigInt.asIntN({ 0x7f: 32, 0x7e: 64 }[x.t], x.v)})`).join(',');
      const of = (k, ...more) => ['chiwawa', 'in.wasm', '-i', 'main', ...(PROGS[k].args.length ? ['-p', par(k)] : []), ...more];
      if (job.fam === 'selfrust') { const bed = new Bed(b, ['chiwawa', 'in.wasm', '--app-args', job.a.join(' ')], () => ({ 'in.wasm': read('rs') })); compare(bed, `self:${job.a.join(' ')}:${v}`, '_start', [], []); break; }
      const inner = progModule(job.k); const bed = new Bed(b, of(job.k), () => ({ 'in.wasm': inner })), key = 'self:' + job.k;
      if (job.fam === 'selfcut') cuts(bed, key, '_start', [], n.self, job.s, 4);
      else if (job.fam === 'selfrelay') relay(bed, key, '_start', [], HOPS);
      else {
        compare(bed, `${key}:${v}`, '_start', [], []);
        // the inner chiwawa is asked for a checkpoint, then a second one restores it: once under V8, once under chiwawa
        const kk = `${key}:inner checkpoint:${v}`; if (['fib', 'ack'].includes(job.k) && want(kk)) {
          const mk = () => ({ 'in.wasm': inner, 'checkpoint.trigger': new Uint8Array(0) }), big = { fib: 'I32(15)', ack: 'I32(2),I32(9)' }[job.k], args = ['chiwawa', 'in.wasm', '-i', 'main', '-p', big, '--cr']; const b1 = new Bed(b, args, mk); const x = b1.v8('_start', [], []), y = b1.start(v, '_start', []); let bad = diff(x, y); const f = (s) => [...s.host.files.keys()].filter((q) => q !== 'guest.wasm').sort().join(' ');
          if (!bad && f(x) !== f(y)) bad = { files: { expected: f(x), got: f(y) } }; const ix = x.host.file('checkpoint.bin'), iy = y.host.file('checkpoint.bin');
          if (!bad && ix && Buffer.compare(Buffer.from(ix), Buffer.from(iy))) bad = { expected: 'the same image', got: 'another one' };
          if (!bad && ix) { const b2 = new Bed(b, [...args, '--restore', 'checkpoint.bin'], () => ({ 'in.wasm': inner, 'checkpoint.bin': ix.slice() })); const p = b2.v8('_start', [], []), q = b2.start(v, '_start', []); bad = diff(p, q); bump('restored'); }
          done(kk, bad, { files: f(x) });
        }
      }
    }
  }
  return { job, ...res };
}
