// C15: pointers given to WASI. Every pointer slot of every function takes every boundary
// value around the guest's memory (also memory that grew, or is empty): a call whose ranges
// all lie inside is performed exactly as on V8; any other is refused and never performed.
import { I, Mod } from '../lib/asm.mjs';
import { V, Chiwawa, Ref, Host } from '../lib/host.mjs';
import { wasmPath } from '../lib/build.mjs';
import { SIG } from '../lib/wasi.mjs';
import { SPEC, hookFor } from '../lib/wspec.mjs';
import * as watch from '../lib/watch.mjs';

export const variants = ['tco', 'legacy'];
const fl = (b) => b.flat(Infinity); const TY = { w: 'i32', W: 'i64' }; const PG = 65536;
const FN = Object.keys(SPEC).filter((n) => SPEC[n].some((p) => !'wWhb'.includes(p[0])));
function guest(min) {
  const m = new Mod(); const ty = (n) => [...SIG[n]].map((c) => TY[c]); FN.forEach((n) => m.importFunc('wasi_snapshot_preview1', n, ty(n), ['i32'])); m.memory(min, Math.max(min, 3));
  m.func({ params: ['i32'], results: ['i32'], body: fl([I.get(0), I.grow()]), name: 'grow' });
  FN.forEach((n, i) => m.func({ params: ty(n), results: ['i32'], body: fl([ty(n).map((_, k) => I.get(k)), I.call(i)]), name: n }));
  // the memory grows between the computation of the arguments and the call
  FN.forEach((n, i) => m.func({ params: [...ty(n), 'i32'], results: ['i32'], body: fl([ty(n).map((_, k) => I.get(k)), I.get(ty(n).length), I.grow(), I.drop(), I.call(i)]), name: n + '/grow' }));
  return m.build();
}
// memory histories: [initial pages, grown by before the call, grown by inside the caller]
// (one of 17 pages, where sizes and distances have more than 16 and 20 bits)
const HIST = [[17, 0, 0], [1, 0, 0], [0, 0, 0], [2, 0, 0], [1, 1, 0], [1, 0, 1], [0, 1, 0], [1, 1, 1]];
const inside = (p, n, L) => p + n <= L;
// boundary values of a range of n bytes in a memory of L bytes
const ptrs = (n, L) => [...new Set([0, L - n - 1, L - n, L - n + 1, L - 1, L, L + 1, L + PG - n, 0x7fffffff - n, 0x7fffffff, 0x80000000 - n, 0x80000000, 2 ** 32 - n, 2 ** 32 - n - 1, 2 ** 32 - 1])].filter((p) => p >= 0 && p < 2 ** 32);
const ranges = (L) => { const r = []; for (const n of [1, 5]) for (const p of ptrs(n, L)) r.push([p, n]); for (const n of [L, L + 1, 0x7fffffff, 0x80000000, 2 ** 32 - 1]) for (const p of [0, 1, 16, L - 1, L]) if (p >= 0 && n > 0 && n < 2 ** 32) r.push([p, n]); for (const p of [16, 4096]) r.push([p, 2 ** 32 - p], [p, 2 ** 32 - p + 1]); return r; };
// lengths of every magnitude, ending at the last byte or one behind it; lists of many buffers, one of which is outside
const NS = (L) => [...new Set([...Array.from({ length: 70 }, (_, i) => i), ...Array.from({ length: 21 }, (_, k) => [2 ** k - 1, 2 ** k, 2 ** k + 1]).flat(), 100, 300, 1000, 5000])].filter((n) => n > 0 && n <= L);
const LISTS = [...Array.from({ length: 20 }, (_, i) => i + 1), 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300];
const W32 = (b, at, v) => b.writeUInt32LE(v >>> 0, at);
// choices for one slot: {args, image, ok}; `d` is where the slot's default data lives
function choices(p, k, L) {
  const d = 256 + 512 * k, out = []; const add = (args, ok, image = []) => out.push({ args, ok, image });
  const fill = (o, n) => (inside(o, n, L) ? [[o, Buffer.from(Array.from({ length: Math.min(n, 64) }, (_, i) => 97 + (i % 26)))]] : []);
  if (p[0] === 'o') { const n = Number(p.slice(1)); add([d], inside(d, n, L)); for (const q of ptrs(n, L)) add([q], inside(q, n, L)); } else if (p === 'P' || p === 'B') { add([d, 3], inside(d, 3, L), p === 'P' ? fill(d, 3) : []); for (const [q, n] of ranges(L)) if (p === 'B' || n < 1000 || !inside(q, n, L)) add([q, n], inside(q, n, L), p === 'P' ? fill(q, n) : []); for (const n of NS(L)) for (const o of [0, 1]) if (p === 'B' || n < 1000 || o) add([L - n + o, n], !o, p === 'P' ? fill(L - n + o, n) : []); } else if (p === 'q') {
    const sub = (q, n) => (inside(q, 48 * n, L) ? [[q, Buffer.alloc(48 * Math.min(n, 4), 3)]] : []); const put = (i, o, n) => i >= 0 && o >= 0 && add([i, o, n], inside(i, 48 * n, L) && inside(o, 32 * n, L), sub(i, n)); put(d, d + 128, 1);
    for (const n of [1, 2]) { for (const q of ptrs(48 * n, L)) put(q, d + 128, n); for (const q of ptrs(32 * n, L)) put(d, q, n); } for (const n of LISTS) for (const e of [0, 1]) { put(L - 48 * n + e, 0, n); put(0, L - 32 * n + e, n); } for (const n of [Math.floor(2 ** 32 / 48) + 1, 2 ** 27, 2 ** 27 + 1, 2 ** 28, 2 ** 31, 2 ** 32 - 1]) put(d, d + 128, n);
  } else if (p === 'A' || p === 'E') return null;
  else if (p === 'c' || p === 'i') {
    const one = (q, l) => { const b = Buffer.alloc(8 * l.length); l.forEach(([x, n], i) => { W32(b, 8 * i, x); W32(b, 8 * i + 4, n); }); const okA = inside(q, b.length, L); add([q, l.length], okA && l.every(([x, n]) => n === 0 || inside(x, n, L)), okA ? [[q, b]] : []); };
    one(d, [[d + 100, 4]]); for (const q of ptrs(8, L)) one(q, [[d + 100, 4]]); for (const q of ptrs(24, L)) one(q, [[d + 100, 4], [d + 110, 2], [d + 100, 0]]);
    for (const [x, n] of ranges(L)) if (n < 1000 || !inside(x, n, L)) { one(d, [[x, n]]); one(d, [[d + 100, 4], [x, n]]); one(d, [[x, n], [d + 100, 4]]); one(d, [[0xffffffff, 0], [x, n]]); }
    for (const n of NS(L)) for (const o of [0, 1]) { one(d, [[L - n + o, n]]); one(d, [[d + 100, 4], [L - n + o, n]]); }
    for (const n of LISTS) { const g = (at, bad) => Array.from({ length: n }, (_, i) => (i === at ? bad : [L - 400 + (i % 50), 1 + (i % 7)])); const at0 = 1024; if (at0 + 8 * n > L - 400) continue; one(at0, g(-1)); for (const at of [...new Set([0, 1, n >> 1, n - 2, n - 1])]) if (at >= 0 && at < n) for (const bad of [[L, 1], [L - 1, 2], [2 ** 32 - 1, 2], [0, L + 1], [L - 1, 1]]) one(at0, g(at, bad)); one(L - 8 * n, g(-1)); one(L - 8 * n + 1, g(-1)); }
    for (const n of [2 ** 29, 2 ** 29 + 1, 2 ** 30, 2 ** 31, 2 ** 32 - 1]) add([d, n], false);
  }
  return out;
}
const few = (l) => { const ok = [], no = []; for (let i = 1; i < l.length; i++) (l[i].ok ? ok : no).push(i); const pick = (a, n) => Array.from({ length: Math.min(n, a.length) }, (_, k) => a[Math.floor((k * a.length) / n)] ?? a[k]); return [...new Set([...pick(ok, 3), ...pick(no, 5)])]; };
function cases(fn, L, tier) {
  const spec = SPEC[fn]; const out = [];
  if (spec[0] === 'A' || spec[0] === 'E') { const argc = 2, tot = 9; const c1 = [256, ...ptrs(4 * argc, L)], c2 = [512, ...ptrs(tot, L)]; for (const a of c1) for (const b of c2) out.push({ args: [a, b], image: [], ok: inside(a, 4 * argc, L) && inside(b, tot, L) }); return out; }
  const slots = spec.map((p, k) => ('wWhb'.includes(p[0]) ? [{ args: [p === 'W' ? 1n : 1], ok: true, image: [] }] : choices(p, k, L)));
  const join = (pick) => { const cs = spec.map((_, k) => slots[k][pick[k] ?? 0]); out.push({ args: cs.flatMap((c) => c.args), image: cs.flatMap((c) => c.image), ok: cs.every((c) => c.ok) }); };
  const act = spec.map((p, k) => k).filter((k) => slots[k].length > 1); join({}); for (const k of act) for (let i = 1; i < slots[k].length; i++) join({ [k]: i });
  // two slots at once: each at its ends, just outside and far outside
  if (tier !== 'thorough') for (const k of act) for (const j of act) if (k < j) for (const i of few(slots[k])) for (const q of few(slots[j])) join({ [k]: i, [j]: q });
  if (tier === 'thorough') for (const k of act) for (const j of act) if (k < j) for (let i = 1; i < slots[k].length; i++) for (let q = 1; q < slots[j].length; q += slots[k].length > 200 || slots[j].length > 200 ? 3 : 1) join({ [k]: i, [j]: q });
  return out;
}
const OWN = /^(args|environ)_|^clock_/; // answered from chiwawa's own buffers, copied afterwards
export const meta = {
  level: 'exploration', rule: 'one execution = one WASI call with one tuple of ranges. All ranges inside the guest memory: the host is asked the same, and the guest gets the same result and memory, as on V8. Otherwise: the host is not asked to perform it and the guest does not see success (errno, or the run ends). non-trivial = at least one range outside',
  bounds: (t) => [`${FN.length} functions x ${HIST.length} memory histories (0..3 and 17 pages, initial, grown before, grown inside the caller) x every pointer slot over 15 boundary positions per length (both ends of memory, 2^31, wrap-around at 2^32) x lengths 1, 5, the whole memory, one more, 2^31, 2^32-1; lengths of every magnitude up to the last byte and one beyond; lists of 1..3 buffers, of up to 300 with one outside, and lists whose size wraps${t === 'thorough' ? '; every pair of slots' : ', one slot at a time, and every pair of slots over eight positions each'}`],
  assumptions: ['V8 and the scripted host implement calls whose ranges are inside', 'plain loads and stores are C06'],
};
export async function plan(tier) { const jobs = []; for (const v of variants) for (let h = 0; h < HIST.length; h++) for (const fn of FN) jobs.push({ v, h, fn, tier }); return jobs; }
const cache = new Map(); const guestMod = (min) => { if (!cache.has(min)) { const b = guest(min); cache.set(min, { bytes: b, mod: new WebAssembly.Module(b) }); } return cache.get(min); };
const SKIP = new Error('skip'); const outcome = (r) => (r.st === 'ok' ? r.vals.map(V.show).join() : r.st === 'err' ? 'trap' : r.st);
export async function run(job) {
  const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; const bump = (k) => { res.outcomes[k] = (res.outcomes[k] ?? 0) + 1; };
  const [min, before, within] = HIST[job.h]; const L = PG * (min + before + within); const g = guestMod(min); const fn = job.fn; const script = { errno: 0, count: (n) => n >> 1 }; const la = [], lb = []; let a, c; const words = ['ab', 'cdefg'];
  const fresh = () => { const ha = new Host({ args: words, env: words }), hb = new Host({ args: ['x'], env: words }); a = new Ref(g.mod, ha); if (c) c.fresh(hb); else c = new Chiwawa(wasmPath(job.v), hb); const l = c.load(g.bytes, words); if (l.st !== 'ok') throw new Error('load ' + JSON.stringify(l)); if (before) for (const x of [a, c]) x.call('grow', [V.i32(before)], ['i32']); if (!OWN.test(fn) || /^clock/.test(fn)) { ha.hook = hookFor(() => script, la); hb.hook = hookFor(() => script, lb); } }; fresh();
  const cs = cases(fn, L, job.tier).filter((_, i) => min < 10 || i % 3 === job.h % 3);
  for (let i = 0; i < cs.length; i++) {
    const key = `${fn}:${job.h}:${i}:${job.v}`; if (job.only && job.only !== key) continue; watch.setKey(key); const t = cs[i]; if (c.dead || (within && i)) fresh(); la.length = lb.length = 0;
    let bad = null, skip = false, rb = null; try {
    const size = PG * (min + before); for (const mem of [a.memBytes(), c.memBytes()]) { mem.fill(0x61); for (const [o, b] of t.image) if (o + b.length <= size) mem.set(b, o); }
    skip = within && t.image.some(([o, b]) => o + b.length > size); if (skip) throw SKIP; // data in the page that does not exist yet
    const av = t.args.map((x, k) => (SIG[fn][k] === 'W' ? V.i64(x) : V.i32(x))); if (within) av.push(V.i32(within)); const name = within ? fn + '/grow' : fn; rb = c.call(name, av); res.evals++;
    if (t.ok) {
      const ra = a.call(name, av, ['i32']); bump('inside'); if (la.join() !== lb.join()) bad = { asked: lb.join() || 'nothing', expected: la.join() }; else if (outcome(ra) !== outcome(rb)) bad = { expected: outcome(ra), got: outcome(rb), msg: rb.msg }; else if (Buffer.compare(a.memBytes(), c.memBytes())) bad = { memory: 'differs' };
    } else {
      res.nontrivial++; bump('outside: ' + (rb.st === 'ok' ? 'errno ' + rb.vals[0].v : rb.st));
      if (rb.st === 'ok' && rb.vals[0].v === 0n) bad = { outside: 'reported success' }; else if (lb.length && !OWN.test(fn)) bad = { outside: 'performed', asked: lb.join().slice(0, 200) };
    }
    } catch (e) { if (e === SKIP) continue; if (!(e instanceof RangeError)) throw e; bad = { interpreter: 'destroyed', message: e.message }; c.dead = true; }
    if (bad) res.violations.push({ key, detail: { args: t.args.map(String), memory: L, ...bad } }); else if (!t.ok && res.samples.length < 1) res.samples.push({ call: key, args: t.args.map(String), memory: L, result: rb && outcome(rb) });
  }
  return { job, ...res };
}
