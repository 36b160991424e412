// C12: images survive crashes, I/O faults and damage. Every host call made while an image
// is written or read is a fault point (error, short transfer, kill, power loss with every
// durable state the journal allows); every truncation, every single-bit flip, every splice
// of two images and every foreign module is offered to restore.
import { I, Mod } from '../lib/asm.mjs';
import { wasmPath } from '../lib/build.mjs';
import { Lab, show, nextProcess } from '../lib/ckpt.mjs';
import { Host } from '../lib/wasi.mjs';
import { runCli } from '../lib/cli.mjs';
import { PROGS, progModule } from '../lib/corpus.mjs';
import * as watch from '../lib/watch.mjs';

export const variants = ['tco', 'legacy', 'cli-tco', 'cli-legacy'];
const op = (n) => I.op(n), IMG = 'checkpoint.bin';
// small guests whose images hold something of everything; `tweak` gives near-miss modules
const base = (w, tweak = {}) => {
  const m = new Mod(); const y = m.importFunc('wasi_snapshot_preview1', 'sched_yield', [], ['i32']);
  if (w !== 'nomem') m.memory(tweak.pages ?? (w === 'big' ? 3 : 1), tweak.max); const ty = m.type(['i32'], ['i32']);
  m.global('i32', true, I.i32(tweak.g ?? 7)); m.global('i64', true, I.i64(9)); if (tweak.xg) m.global('i32', true, I.i32(1));
  const f = m.func({ params: ['i32'], results: ['i32'], locals: ['i64', 'f64'].slice(0, tweak.loc ?? 2), body: [I.get(0), I.i32(tweak.k ?? 3), op('i32.mul'), I.gget(0), op('i32.add')] });
  const g = m.func({ params: ['i32'], results: ['i32'], locals: ['i32'], body: [I.block('i32', [I.get(0), I.call(f), ...(tweak.nop ? [I.nop()] : []), I.tee(1)]), I.get(1), op('i32.add')] });
  if (w === 'table') { m.table('funcref', tweak.ts ?? 2); m.elem(I.i32(0), tweak.swap ? [g, f] : [f, g]); }
  if (tweak.xf) m.func({ params: [], results: [], body: [] });
  const call = w === 'table' ? [I.i32(1), I.call_indirect(ty)] : [I.call(g)];
  m.func({ results: ['i32'], locals: ['i32', 'i32'], body: [I.loop('', [I.get(1), ...call, I.set(1), ...(w === 'nomem' ? [] : [I.i32(64), I.get(1), I.store('i32.store', 0)]), I.gget(1), I.i64(3), op('i64.mul'), I.gset(1), I.get(0), I.i32(1), op('i32.add'), I.tee(0), I.i32(tweak.n ?? 2), op('i32.lt_u'), I.br_if(0)]), I.get(1)], name: 'main' });
  if (tweak.data && w !== 'nomem') m.data(I.i32(0), [1, 2, 3]);
  if (w === 'big') { for (let i = 0; i < 300; i++) m.func({ body: [I.i32(i % 60), I.drop()] }); m.data(I.i32(1024), noise(150000)); return Buffer.concat([Buffer.from(m.build()), Buffer.from([0, 0x8a, 0x20, 1, 0x78]), Buffer.alloc(4104, 0x55)]); } // image and module of 150 kB
  return m.build();
};
const noise = (n) => { const r = Buffer.alloc(n); let x = 2463534242; for (let i = 0; i < n; i++) { x ^= x << 13; x ^= x >>> 17; x ^= x << 5; r[i] = x >>> 8; } return r; };
const sizes = (n, step) => { const r = new Set(); for (let p = 1; p <= n; p *= 2) for (const d of [-1, 0, 1]) r.add(p + d); for (const q of [4096, 8192, 65535, 65536]) for (let p = q; p <= n; p += q) r.add(p).add(p - 1); for (let p = 0; p <= n; p += step) r.add(p); for (let p = 0; p < 40; p++) r.add(p).add(n - p); return [...r].filter((p) => p >= 0 && p <= n).sort((a, b) => a - b); };
const SHAPES = ['plain', 'table', 'nomem']; const TW = { pages: { pages: 2 }, max: { max: 9 }, global: { g: 8 }, xglobal: { xg: 1 }, locals: { loc: 1 }, const: { k: 4 }, nop: { nop: 1 }, func: { xf: 1 }, tsize: { ts: 3 }, swap: { swap: 1 }, data: { data: 1 }, bound: { n: 3 } };
const FAULTS = { IO: 29, NOSPC: 51, NOMEM: 48, ROFS: 69 };
export const meta = {
  level: 'fault_enumeration', rule: 'one execution = one image written under one fault or crash, or one damaged, truncated, spliced or foreign image offered to restore; a fault while writing leaves the previous image or the complete new one and never reports success without it; a bad image is rejected with an error before any guest instruction; non-trivial = distinct (guest, cut, fault) or (image, damage)',
  bounds: (t) => [`write: ${SHAPES.length} guests x every ${t === 'thorough' ? '' : '3rd '}cut x previous image present or not x every host call of the checkpoint x {${Object.keys(FAULTS).join(' ')} once or from there on, 1-byte and half transfers, kill, power loss x every durable prefix}`, 'read: every host call of the restore x the same errors and transfers', `damage: every truncation, every single-bit flip, every two bytes at ${t === 'thorough' ? 7 : 2} distances exchanged, +1 and -1, or with the same bit flipped, every block of ${t === 'thorough' ? '2..64' : 8} bytes zeroed, exchanged, cut out or doubled, ${t === 'thorough' ? 'every byte to 0, 0xff and +1, ' : ''}1..16 appended bytes, every splice point of two images`, `an image and a module of 150 kB: truncations and flips at and beside every power of two and every ${t === 'thorough' ? '101st' : '997th'} byte, exchanges over up to 65536 bytes, blocks of up to 65536; modules which differ in one byte of code, data or custom section`, `foreign: every ordered pair of ${SHAPES.length} x ${Object.keys(TW).length + 1} near-miss modules`],
  assumptions: ['power loss keeps any prefix of unsynced directory operations and, per file, any prefix of unsynced data or zeros in its place; synced data is kept', 'rename replaces its target atomically'],
};
export async function plan(tier) {
  const jobs = []; const T = tier === 'thorough';
  for (const v of ['tco', 'legacy']) for (const w of SHAPES) { const n = cuts(v, w); for (let k = 1; k <= n; k += T ? 1 : 3) { jobs.push({ v, w, f: 'write', k }); if (T || k % 4 === 1) { jobs.push({ v, w, f: 'read', k }); } } for (let k = 1; k <= n; k += T ? 3 : Math.ceil(n / 4)) for (let s = 0; s < 4; s++) jobs.push({ v, w, f: 'damage', k, s, T }); jobs.push({ v, w, f: 'foreign' }); }
  for (const v of ['tco', 'legacy']) { const n = cuts(v, 'big'); for (const k of T ? [1, 7, n - 3] : [7]) jobs.push({ v, w: 'big', f: 'write', k }, { v, w: 'big', f: 'read', k }); for (let s = 0; s < 4; s++) jobs.push({ v, w: 'big', f: 'bigdamage', k: 9, s, T }, { v, w: 'big', f: 'bigforeign', k: 9, s, T }); }
  for (const v of ['cli-tco', 'cli-legacy']) jobs.push({ v, f: 'cli' });
  return jobs;
}
const cuts = (v, w) => { const lab = new Lab(wasmPath(v), wasmPath(v), base(w)); return lab.uncut({ name: 'main' }).n; };

// journalled world: every mutation of files goes through here
class Disk {
  constructor(h) { this.h = h; this.j = []; this.names = new Map([...h.files].map(([k, f]) => [k, f])); }
  note(name, a, m, before) {
    const H = this.h; const dec = (p, n) => Buffer.from(m.sl(p, n)).toString().replace(/^\.\//, '');
    if (name === 'path_open') { const x = dec(a[2], a[3]); if (a[4] & 8 || (a[4] & 1 && !before.has(x))) this.j.push(['create', x, H.files.get(x)]); }
    else if (name === 'fd_write' || name === 'fd_pwrite') { const d = H.fds.get(a[0]); if (d?.k === 'file') this.j.push(['write', d.file, d.file.len, Buffer.from(d.file.data.subarray(0, d.file.len))]); }
    else if (name === 'fd_sync' || name === 'fd_datasync') { const d = H.fds.get(a[0]); if (d?.k === 'file') this.j.push(['sync', d.file]); }
    else if (name === 'path_rename') this.j.push(['rename', dec(a[1], a[2]), dec(a[4], a[5])]);
    else if (name === 'path_unlink_file') this.j.push(['unlink', dec(a[1], a[2])]);
  }
  // every content the image path may have after a power loss once the first n journal entries were issued
  *states(n) {
    const meta = this.j.slice(0, n).filter((e) => ['create', 'rename', 'unlink'].includes(e[0]));
    for (let p = 0; p <= meta.length; p++) { // durable prefix of the directory operations
      const dir = new Map(this.names); for (const e of meta.slice(0, p)) { if (e[0] === 'create') dir.set(e[1], e[2]); else if (e[0] === 'rename') { const f = dir.get(e[1]); dir.delete(e[1]); if (f) dir.set(e[2], f); } else dir.delete(e[1]); }
      const f = dir.get(IMG); if (!f) { yield [`dir ${p}`, null]; continue; }
      let data = null, synced = false; for (const e of this.j.slice(0, n)) { if (e[0] === 'write' && e[1] === f) { data = e[3]; synced = false; } if (e[0] === 'sync' && e[1] === f) synced = true; }
      const fresh = this.j.some((e) => e[0] === 'create' && e[2] === f);
      if (!fresh) { yield [`dir ${p} old`, this.old]; continue; }
      if (data === null) { yield [`dir ${p} empty`, Buffer.alloc(0)]; continue; }
      if (synced) { yield [`dir ${p} synced`, data]; continue; }
      for (const l of [0, 1, data.length >> 1, data.length - 1, data.length]) yield [`dir ${p} torn ${l}`, data.subarray(0, l)]; yield [`dir ${p} zeros`, Buffer.alloc(data.length)];
    }
  }
}
const MUT = new Set(['path_open', 'fd_write', 'fd_pwrite', 'fd_sync', 'fd_datasync', 'path_rename', 'path_unlink_file', 'fd_close', 'fd_seek', 'fd_tell', 'fd_fdstat_get', 'fd_filestat_get', 'path_filestat_get', 'fd_allocate', 'fd_filestat_set_size', 'fd_read', 'fd_pread', 'fd_filestat_set_times', 'path_create_directory', 'path_link', 'fd_fdstat_set_flags']);
class Kill extends WebAssembly.RuntimeError {}

export async function run(job) {
  const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; const bump = (k) => { res.outcomes[k] = (res.outcomes[k] ?? 0) + 1; };
  const done = (kk, oc, bad) => { res.evals++; res.nontrivial++; if (bad) { bump('bad'); if (res.violations.length < 40) res.violations.push({ key: kk, detail: bad }); } else bump(oc); };
  const skip = (kk) => job.only && job.only !== kk;
  if (job.f === 'cli') { cli(job, done, skip); return { job, ...res }; }
  const w = wasmPath(job.v), bytes = base(job.w), g = { name: 'main' }; const lab = new Lab(w, w, bytes); const u = lab.uncut(g);
  if (u.r.st !== 'ok') throw new Error('uncut ' + show(u.r));
  const good = (k) => { const c = lab.cut(g, k); if (!c.image) throw new Error(`no image at ${k}: ` + show(c.r)); return Buffer.from(c.image); };
  const ends = (img) => { let n = 0; const h = new Host(); const c = lab.b; c.fresh(h); c.load(bytes); c.poll = () => { n++; return 0; }; const r = c.restore(img, 1); return { r, n }; };
  const same = (x) => x.r.st === 'ok' && show(x.r) === show(u.r);
  const rejected = (x) => x.r.st === 'rejected' && x.n === 0;
  if (job.f === 'write') {
    const k = job.k, img = good(k), older = good(k === 1 ? 2 : 1);
    const go = (prev, hook, disk) => { const h = new Host(); if (prev) h.setFile(IMG, Buffer.from(older)); const c = lab.start(h); const D = new Disk(h); D.old = older; let on = false, i = 0, killed = null; const calls = [];
      h.hook = (name, a, m, f) => { if (!on || !MUT.has(name)) return undefined; i++; const d = h.fds.get(a[0]); const tag = name.startsWith('fd_') && d ? d.k : ''; calls.push(`${name}${tag ? ':' + tag : ''}`); const r = hook ? hook(i, name, a, m, f, tag) : undefined; if (r !== undefined && r !== 'short') return r; const before = new Set(h.files.keys()); const q = f(...a); if (q === 0) D.note(name, a, m, before); return q; };
      c.poll = (n) => { if (n === k) { on = true; return 1; } return 0; }; const r = c.call('main', [], 1); h.hook = null; const cp = h.file(IMG); return { r, calls, D, img: cp ? Buffer.from(cp) : null }; };
    for (const prev of [0, 1]) {
      const ref = go(prev); const pk = `${job.w}:cut${k}:${prev ? 'over' : 'new'}`; const N = ref.calls.length;
      const valid = (b) => (b === null ? !prev : (prev && b.equals(older)) || b.equals(img));
      { const kk = `${pk}:no fault:${job.v}`; if (!skip(kk)) done(kk, 'complete', ref.r.st === 'ckpt' && ref.img?.equals(img) ? null : { expected: 'complete image', got: show(ref.r) }); }
      for (let i = 1; i <= N; i++) {
        const where = `${i}/${N} ${ref.calls[i - 1]}`; const judge = (kk, x, killed) => { if (!valid(x.img)) return done(kk, '', { expected: `${prev ? 'the previous or ' : 'no image or '}the complete new image`, got: x.img ? `${x.img.length} bytes (complete: ${img.length})` : 'no image', after: show(x.r) }); if (x.r.st === 'ckpt' && !x.img?.equals(img)) return done(kk, '', { expected: 'success only with the new image in place', got: show(x.r) }); if (x.r.st === 'ok') return done(kk, '', { expected: 'stop', got: show(x.r) }); return done(kk, x.r.st === 'ckpt' ? 'new image' : x.img ? (x.img.equals(img) ? 'failed, new image' : 'failed, previous kept') : 'failed, no image'); };
        for (const [en, e] of Object.entries(FAULTS)) for (const from of [0, 1]) { const kk = `${pk}:${where}:${en}${from ? ' from there on' : ''}:${job.v}`; if (skip(kk)) continue; watch.setKey(kk); judge(kk, go(prev, (j, name, a, m, f, tag) => ((from ? j >= i && tag !== 'out' && tag !== 'err' : j === i) ? e : undefined))); }
        if (/^fd_write/.test(ref.calls[i - 1])) for (const part of ['1', 'half', '0']) { const kk = `${pk}:${where}:short ${part}:${job.v}`; if (skip(kk)) continue; watch.setKey(kk); judge(kk, go(prev, (j, name, a, m, f, tag) => { if (j !== i) return undefined; const p = m.r32(a[1]), l = m.r32(a[1] + 4); const s = part === '0' ? 0 : part === '1' ? Math.min(1, l) : l >> 1; m.w32(a[1] + 4, s); const n0 = a[2]; const q = f(a[0], a[1], 1, a[3]); m.w32(a[1] + 4, l); void p; void n0; return q; })); }
        { const kk = `${pk}:${where}:killed:${job.v}`; if (!skip(kk)) { watch.setKey(kk); judge(kk, go(prev, (j) => { if (j === i) throw new Kill('killed'); return undefined; })); } }
      }
      for (let n = 0; n <= ref.D.j.length; n++) for (const [st, b] of ref.D.states(n)) { const kk = `${pk}:power loss after ${n} writes, ${st}:${job.v}`; if (skip(kk)) continue; done(kk, 'durable', valid(b) ? null : { expected: 'previous or complete new image', got: b ? `${b.length} bytes` : 'no image', journal: ref.D.j.slice(0, n).map((e) => e[0] + (typeof e[1] === 'string' ? ' ' + e[1] : '')).join(', ') }); }
      if (!res.samples.length) res.samples.push({ guest: job.w, cut: k, fault_points: ref.calls.slice(0, 40) });
    }
  } else if (job.f === 'read') {
    const img = good(job.k); const go = (hook) => { const h = new Host(); const c = lab.b; c.fresh(h); c.load(bytes); let n = 0, i = 0; const calls = []; h.setFile('image.bin', img); c.poll = () => { n++; return 0; }; h.hook = (name, a, m, f) => { if (!MUT.has(name) || n) return undefined; i++; const d = h.fds.get(a[0]); const tag = name.startsWith('fd_') && d ? d.k : ''; calls.push(name + (tag ? ':' + tag : '')); return hook ? hook(i, name, a, m, f, tag) : undefined; }; const r = c.restore(null, 1); h.hook = null; return { r, n, calls }; };
    const ref = go(); const N = ref.calls.length; for (let i = 1; i <= N; i++) {
      const where = `${job.w}:cut${job.k}:restore ${i}/${N} ${ref.calls[i - 1]}`; const judge = (kk, x) => done(kk, x.r.st, same(x) || rejected(x) || (x.r.st === 'trap' && x.n === 0 && /:(out|err)$/.test(ref.calls[i - 1])) ? null : { expected: 'rejected, or restored exactly', got: show(x.r), instructions: x.n });
      for (const [en, e] of Object.entries(FAULTS)) { const kk = `${where}:${en}:${job.v}`; if (skip(kk)) continue; watch.setKey(kk); judge(kk, go((j) => (j === i ? e : undefined))); }
      if (/^fd_read/.test(ref.calls[i - 1])) for (const lim of [0, 1, 7]) { const kk = `${where}:${lim}-byte reads from there on:${job.v}`; if (skip(kk)) continue; watch.setKey(kk); judge(kk, go((j, name, a, m, f) => { if (j < i || name !== 'fd_read') return undefined; if (lim === 0 && j > i) return undefined; const l = m.r32(a[1] + 4); m.w32(a[1] + 4, Math.min(l, lim)); const q = f(a[0], a[1], 1, a[3]); m.w32(a[1] + 4, l); return q; })); }
    }
  } else if (job.f === 'bigdamage') { // an image which no buffer holds at once
    const img = good(job.k), n = img.length; if (n < 140000) throw new Error('small image'); let id = 0; const offer = (name, b) => { if (id++ % 4 !== job.s) return; const kk = `big:cut${job.k}:${name}:${job.v}`; if (skip(kk)) return; watch.setKey(kk); const x = ends(b); done(kk, x.r.st, rejected(x) ? null : { expected: 'rejected', got: show(x.r), instructions: x.n }); };
    { const x = ends(img); done('big:whole', 'restored', same(x) ? null : { expected: 'restored', got: show(x.r) }); }
    for (const p of sizes(n - 1, job.T ? 101 : 997)) { offer(`truncated to ${p}`, img.subarray(0, p)); for (const b of job.T ? [0, 3, 7] : [p & 7]) { const d = Buffer.from(img); d[p] ^= 1 << b; offer(`bit ${p}.${b}`, d); } }
    for (const D of [1, 8, 256, 4096, 65536]) for (let p = 64; p + D < n; p += job.T ? 1009 : 9973) { const d = Buffer.from(img); [d[p], d[p + D]] = [d[p + D], d[p]]; if (!d.equals(img)) offer(`bytes ${p} and ${p + D} exchanged`, d); const e = Buffer.from(img); e[p]++; e[p + D]--; offer(`bytes ${p} and ${p + D} +1 -1`, e); }
    for (const L of [8, 512, 4096, 65536]) for (let p = 0; p + 2 * L <= n; p += L === 65536 ? 1024 : job.T ? 4096 : 16384) { const d = Buffer.from(img); d.fill(0, p, p + L); offer(`${L} bytes from ${p} zeroed`, d); const x = Buffer.from(img); img.copy(x, p, p + L, p + 2 * L); img.copy(x, p + L, p, p + L); offer(`blocks of ${L} at ${p} exchanged`, x); offer(`${L} bytes at ${p} cut out`, Buffer.concat([img.subarray(0, p), img.subarray(p + L)])); offer(`${L} bytes at ${p} twice`, Buffer.concat([img.subarray(0, p + L), img.subarray(p)])); offer(`${L} bytes at ${p} missing, zeros behind`, Buffer.concat([img.subarray(0, p), img.subarray(p + L), Buffer.alloc(L)])); }
  } else if (job.f === 'bigforeign') { // modules which differ in one byte far from both ends
    const img = good(job.k); const at = Buffer.from(bytes).indexOf(noise(64)); const cut = at + 150000; if (at < 0) throw new Error('data not found'); const spots = []; for (let p = 8; p < at - 8; p++) if (bytes[p] === 0x41 && bytes[p + 2] === 0x1a && bytes[p + 1] < 64) spots.push(p + 1); for (const p of sizes(149999, job.T ? 97 : 797)) spots.push(at + p); for (let p = cut + 6; p < bytes.length; p += job.T ? 1 : 37) spots.push(p);
    spots.forEach((p, i) => { if (i % 4 !== job.s) return; const kk = `big:module with byte ${p} changed:${job.v}`; if (skip(kk)) return; watch.setKey(kk); const other = Buffer.from(bytes); other[p] ^= 1; const c = lab.b; let n = 0; c.fresh(new Host()); c.load(other); c.poll = () => { n++; return 0; }; const r = c.restore(img, 1); done(kk, r.st, r.st === 'rejected' && n === 0 ? null : { expected: 'rejected', got: show(r), instructions: n }); });
  } else if (job.f === 'damage') {
    const img = good(job.k), n = img.length; let id = 0; const bk = `${job.w}:cut${job.k}`; let tests = 0;
    const offer = (name, b, okIfSame) => { if (id++ % 4 !== job.s) return; const kk = `${bk}:${name}:${job.v}`; if (skip(kk)) return; watch.setKey(kk); tests++; const x = ends(b); done(kk, x.r.st === 'rejected' ? 'rejected' : 'harmless', rejected(x) || (okIfSame && same(x)) ? null : { expected: 'rejected', got: show(x.r), during: x.r.during, instructions: x.n }); };
    for (let l = 0; l < n; l++) offer(`truncated to ${l}`, img.subarray(0, l));
    for (let p = 0; p < n; p++) for (let b = 0; b < 8; b++) { const d = Buffer.from(img); d[p] ^= 1 << b; offer(`bit ${p}.${b}`, d); }
    if (job.T) for (let p = 0; p < n; p++) for (const [q, x] of [['zero', 0], ['ff', 255], ['inc', img[p] + 1]]) { if (img[p] === (x & 255)) continue; const d = Buffer.from(img); d[p] = x; offer(`byte ${p} ${q}`, d); }
    // changes which compensate each other in a weak checksum: exchanged, added and taken away, flipped twice; whole blocks
    for (const D of job.T ? [1, 2, 3, 4, 8, 16, 32] : job.v === 'tco' ? [1, 8] : []) for (let p = 0; p + D < n; p++) {
      const two = (what, f) => { const d = Buffer.from(img); f(d, p, p + D); if (!d.equals(img)) offer(`bytes ${p} and ${p + D} ${what}`, d); };
      two('exchanged', (d, i, j) => { [d[i], d[j]] = [d[j], d[i]]; }); two('+1 -1', (d, i, j) => { d[i]++; d[j]--; }); for (const b of D === 1 || D === 8 || D === 4 ? [0, 7] : [3]) two(`bit ${b} flipped in both`, (d, i, j) => { d[i] ^= 1 << b; d[j] ^= 1 << b; });
    }
    for (const L of job.T ? [2, 4, 8, 16, 64] : job.v === 'tco' ? [8] : []) for (let p = 0; p + L <= n; p += L > 4 ? 2 : 1) { const d = Buffer.from(img); d.fill(0, p, p + L); if (!d.equals(img)) offer(`${L} bytes from ${p} zeroed`, d); if (p + 2 * L <= n) { const x = Buffer.from(img); img.copy(x, p, p + L, p + 2 * L); img.copy(x, p + L, p, p + L); if (!x.equals(img)) offer(`blocks of ${L} at ${p} exchanged`, x); } offer(`${L} bytes at ${p} cut out`, Buffer.concat([img.subarray(0, p), img.subarray(p + L)])); const y = Buffer.concat([img.subarray(0, p), img.subarray(p + L), Buffer.alloc(L)]); if (!y.equals(img)) offer(`${L} bytes at ${p} cut out, zeros behind`, y); offer(`${L} bytes at ${p} twice`, Buffer.concat([img.subarray(0, p + L), img.subarray(p)]), true); }
    for (let l = 1; l <= 16; l++) offer(`${l} bytes appended`, Buffer.concat([img, Buffer.alloc(l, l)]), true);
    const other = good(job.k > 2 ? job.k - 2 : job.k + 2); for (let p = 1; p < Math.max(n, other.length); p++) { const s = Buffer.concat([img.subarray(0, p), other.subarray(p)]); if (s.equals(img) || s.equals(other)) continue; offer(`first ${p} bytes over another image`, s); }
    offer('all zeros', Buffer.alloc(n)); offer('the module itself', Buffer.from(bytes)); if (!res.samples.length) res.samples.push({ image_bytes: n, damages: tests });
  } else {
    const mods = { same: base(job.w) }; for (const [t, x] of Object.entries(TW)) { const b = base(job.w, x); if (!Buffer.from(b).equals(Buffer.from(mods.same))) mods[t] = b; } for (const s of SHAPES) if (s !== job.w) mods['shape ' + s] = base(s);
    for (const [a, ba] of Object.entries(mods)) { const la = new Lab(w, w, ba); const na = la.uncut(g).n; for (let k = 1; k <= na; k += 5) { const img = la.cut(g, k).image; for (const [b, bb] of Object.entries(mods)) { if (a === b) continue; const kk = `${job.w}:image of ${a} at ${k} into ${b}:${job.v}`; if (skip(kk)) continue; watch.setKey(kk); const c = lab.b; let n = 0; c.fresh(new Host()); c.load(bb); c.poll = () => { n++; return 0; }; const r = c.restore(img.slice(), 1); done(kk, 'rejected', r.st === 'rejected' && n === 0 ? null : { expected: 'rejected', got: show(r), during: r.during, instructions: n }); } } }
  }
  return { job, ...res };
}
// the command itself: a bad image gives an error and a failing status, and no guest output
function cli(job, done, skip) {
  const v = job.v.slice(4); const m = new Mod(); const fw = m.importFunc('wasi_snapshot_preview1', 'fd_write', ['i32', 'i32', 'i32', 'i32'], ['i32']); m.memory(1); m.data(I.i32(0), [8, 0, 0, 0, 3, 0, 0, 0, 71, 79, 10]);
  m.func({ results: ['i32'], locals: ['i32'], body: [I.loop('', [I.get(0), I.i32(1), op('i32.add'), I.tee(0), I.i32(3000), op('i32.lt_u'), I.br_if(0)]), I.i32(2), I.i32(0), I.i32(1), I.i32(100), I.call(fw)], name: 'main' }); const bytes = m.build();
  const h = new Host(); h.setFile('g.wasm', bytes); h.setFile('checkpoint.trigger', new Uint8Array(0)); const a = runCli(v, h, ['g.wasm', '--invoke', 'main', '--cr']); const img = h.file(IMG); if (!img || /GO/.test(a.stderr)) throw new Error('cli made no image: ' + a.stdout + a.stderr);
  const go = (b) => { const q = new Host(); q.setFile('g.wasm', bytes); if (b) q.setFile('i.bin', Buffer.from(b)); return runCli(v, q, ['g.wasm', '--invoke', 'main', '--restore', 'i.bin']); };
  { const kk = `cli:good image:${job.v}`; if (!skip(kk)) { const r = go(img); done(kk, 'restored', r.st === 'exit' && r.code === 0 && /GO/.test(r.stderr) && /Result: Num\(I32\(0\)\)/.test(r.stdout) ? null : { expected: 'GO, result 0', got: r.stdout.slice(-200) + r.stderr.slice(-200) }); } }
  for (const [name, b] of [['missing', null], ['empty', Buffer.alloc(0)], ...[1, 8, 16, 40, img.length >> 1, img.length - 1].map((l) => ['truncated to ' + l, img.subarray(0, l)]), ...[0, 9, 17, 30, img.length >> 1, img.length - 1].map((p) => { const d = Buffer.from(img); d[p] ^= 16; return ['bit 4 of byte ' + p, d]; })]) { const kk = `cli:${name}:${job.v}`; if (skip(kk)) continue; watch.setKey(kk); const r = go(b); done(kk, 'rejected', r.st === 'exit' && r.code !== 0 && !/GO|Result:/.test(r.stdout + r.stderr) ? null : { expected: 'error and failing status', got: `${r.st} ${r.code} ${r.msg} ${(r.stdout + r.stderr).slice(-200)}` }); }
}
