// C14: WASI passthrough. Every preview1 function with every enumerated argument tuple is
// called by the guest once in chiwawa and once on V8 with the same scripted host: the host
// must be asked for exactly the same thing, and the guest must get exactly the same answer.
import { I, Mod, T } from '../lib/asm.mjs';
import { V, Chiwawa, Ref, Host } from '../lib/host.mjs';
import { wasmPath } from '../lib/build.mjs';
import { SIG } from '../lib/wasi.mjs';
import { SPEC, hookFor } from '../lib/wspec.mjs';
import * as watch from '../lib/watch.mjs';

export const variants = ['tco', 'legacy'];
const fl = (b) => b.flat(Infinity);
const FN = Object.keys(SPEC); const SCALAR = FN.filter((n) => SPEC[n].every((p) => 'wWhb'.includes(p[0]))); const TY = { w: 'i32', W: 'i64' }; const SHAPES = ['direct', 'under', 'table'];
// one module, every function: <name>/direct, <name>/under (operands of the caller below the call), <name>/table (call_indirect)
function guest(order) {
  const m = new Mod(); const fns = order === 'nomem' ? SCALAR : order ? FN.slice().reverse() : FN; const ty = (n) => [...SIG[n]].map((c) => TY[c]);
  fns.forEach((n) => m.importFunc('wasi_snapshot_preview1', n, ty(n), ['i32'])); if (order !== 'nomem') m.memory(order === 'big' ? BIG : 1, order === 'big' ? BIG : 1); m.table('funcref', fns.length, undefined, 't'); m.elem(I.i32(0), fns.map((_, i) => i));
  fns.forEach((n, i) => {
    const ps = ty(n), get = ps.map((_, k) => I.get(k)); m.func({ params: ps, results: ['i32'], body: fl([get, I.call(i)]), name: n + '/direct' });
    m.func({ params: ps, results: ['i32'], body: fl([I.i64(0x1111222233334444n), I.i32(77), get, I.call(i), I.i32(1000), I.op('i32.mul'), I.op('i32.add'), I.set(ps.length), I.drop(), I.get(ps.length)]), locals: ['i32'], name: n + '/under' });
    m.func({ params: ps, results: ['i32'], body: fl([get, I.i32(i), I.call_indirect(m.type(ps, ["i32"]), 0)]), name: n + '/table' });
  });
  return m.build();
}
const BIG = 12;
// ---- memory image and argument choices
const END = 65536, IOV = 256, BUF = [[0, 0], [0xfffffff0, 0], [2000, 1], [3001, 5], [END - 7, 7]];
const PATHS = [[64, ''], [64, 'a'], [67, 'é/../b.txt'], [END - 3, 'xyz'], [101, '\xff\xfe raw']]; const bytesOf = (s) => (s.startsWith('\xff') ? Buffer.from(s, 'latin1') : Buffer.from(s));
const S = { w: [0, 3, 0x80000001], h: [0, 1, 0xffff], b: [0, 2, 255], W: [0n, 0x123456789abcdefn, -1n] };
const iovLists = []; for (let n = 0; n <= 3; n++) { const rec = (l) => { if (l.length === n) { iovLists.push(l); return; } for (let b = 0; b < BUF.length; b++) rec([...l, b]); }; rec([]); }
const bufs = [[5000, 0], [5001, 1], [END - 9, 9]]; const polls = [[1], [2], [3]];
const OUT = (n, k) => [1024 + 128 * k, 1025 + 128 * k, END - 128 + (k ? 0 : 128 - n)];
// every argument tuple of a function: lists of {args, image}
function tuples(name, tier) {
  const spec = SPEC[name]; let acc = [{ args: [], image: [] }]; let np = 0, no = 0, nl = 0; const small = spec.length > 6 && tier !== 'thorough';
  for (const p of spec) {
    const next = []; const put = (args, image = []) => { for (const a of acc) next.push({ args: [...a.args, ...args], image: [...a.image, ...image] }); };
    if (S[p]) for (const v of small && p !== 'W' ? S[p].slice(0, 2) : S[p]) put([v]);
    else if (p === 'P') { for (const [o, s] of PATHS) { const q = o < 60000 ? o + 20 * np : o - 3 * np, b = bytesOf(s); put([q, b.length], [[q, b]]); } np++; }
    else if (p === 'B') for (const [o, n] of bufs) put([o, n]);
    else if (p === 'c' || p === 'i') { for (const l of iovLists) { const b = Buffer.alloc(8 * l.length); l.forEach((x, k) => { b.writeUInt32LE(BUF[x][0], 8 * k); b.writeUInt32LE(BUF[x][1], 8 * k + 4); }); put([IOV, l.length], [[IOV, b]]); } }
    else if (p === 'q') for (const [n] of polls) put([8000, 9000, n], [[8000, Buffer.from(Array.from({ length: 48 * n }, (_, i) => (i * 7 + 3) & 255))]]);
    else if (p[0] === 'o') { const n = Number(p.slice(1)); for (const o of OUT(n, no)) put([o]); no++; }
    else throw new Error(p);
    acc = next;
  }
  void nl; return acc;
}
const SCRIPTS = [{ errno: 0, count: (n) => n }, { errno: 0, count: (n) => n >> 1 }, { errno: 0, count: () => 0 }, { errno: 8 }, { errno: 76 }];
const scripts = (name) => (SPEC[name].some((p) => 'ciBq'.includes(p[0])) ? SCRIPTS : [SCRIPTS[0], SCRIPTS[3], SCRIPTS[4]]);
// ---- sweeps: one thing at a time, over everything it can be: each scalar, each pair of scalars, the host's errno, the size of each path, buffer or list
const range = (a, b) => Array.from({ length: b - a }, (_, i) => a + i); const bits2 = range(0, 16).flatMap((i) => range(i, 16).map((j) => (1 << i) | (1 << j)));
const SW = { w: [...range(0, 40), ...range(5, 32).flatMap((k) => [2 ** k - 1, 2 ** k, 2 ** k + 1]), 0xfffffffe, 0xffffffff], h: [...new Set([...range(0, 64), ...bits2, 0xffff])], b: range(0, 256), W: [...range(0, 40).map(BigInt), ...range(5, 64).flatMap((k) => [2n ** BigInt(k) - 1n, 2n ** BigInt(k), 2n ** BigInt(k) + 1n]), -1n, -2n] };
const LENS = (T) => [...range(0, T ? 1200 : 300), ...[9, 10, 11, 12, 13, 14, 15, 16].flatMap((k) => [2 ** k - 1, 2 ** k, 2 ** k + 1]), 100000];
// baseline arguments of a function, with the place of each parameter: everything apart, in a memory of BIG pages
function sweeps(fn, T) {
  const spec = SPEC[fn]; const r = []; const at = []; const args = []; const image = []; let o = 1024, pth = 0;
  for (const p of spec) { at.push(args.length); if ('whb'.includes(p)) args.push(1 + args.length); else if (p === 'W') args.push(BigInt(5 + args.length)); else if (p === 'P') { const b = Buffer.from('dir/p' + pth); const q = 0x10000 + 0x20000 * pth++; args.push(q, b.length); image.push([q, b]); } else if (p === 'B') args.push(0x50000, 9); else if (p === 'c' || p === 'i') { const b = Buffer.alloc(16); [0x50001, 5, 0x50100, 6].forEach((x, k) => b.writeUInt32LE(x, 4 * k)); args.push(0x8000, 2); image.push([0x8000, b]); } else if (p === 'q') { args.push(0x8000, 0x50000, 2); image.push([0x8000, Buffer.from(Array.from({ length: 96 }, (_, i) => (i * 7 + 3) & 255))]); } else { args.push(o); o += 128; } }
  const go = (what, ch, im = [], sc = SCRIPTS[0]) => r.push({ what, args: args.map((x, i) => (i in ch ? ch[i] : x)), image: [...image, ...im], sc });
  const sca = spec.flatMap((p, k) => (SW[p] ? [k] : []));
  for (const k of sca) for (const v of SW[spec[k]]) go(`#${k}=${v}`, { [at[k]]: v });
  for (const k of sca) for (const l of sca) if (k < l) for (const v of range(0, 9)) for (const w of range(0, 9)) go(`#${k}=${v} #${l}=${w}`, { [at[k]]: spec[k] === 'W' ? BigInt(v) : v, [at[l]]: spec[l] === 'W' ? BigInt(w) : w });
  for (const e of range(1, 77)) go('errno ' + e, {}, [], { errno: e });
  spec.forEach((p, k) => {
    const set = (o, n) => ({ [at[k]]: o, [at[k] + 1]: n });
    if (p === 'P') for (const n of LENS(T)) { const b = Buffer.alloc(n, 'abcdefg/'); go(`path ${k} of ${n}`, set(args[at[k]], n), [[args[at[k]], b]]); }
    if (p === 'B') for (const n of LENS(T)) for (const sc of SCRIPTS.slice(0, 2)) go(`buffer of ${n}`, set(0x50000, n), [], sc);
    if (p === 'c' || p === 'i') { for (const n of [...LENS(T).filter((x) => x < 9000)]) for (const sc of SCRIPTS.slice(0, 2)) { const b = Buffer.alloc(8 * n); for (let j = 0; j < n; j++) { b.writeUInt32LE(0x50000 + 3 * ((j * 7) % Math.max(1, n)), 8 * j); b.writeUInt32LE(n > 4096 ? 1 : j % 4, 8 * j + 4); } go(`${n} buffers`, set(0x20000, n), [[0x20000, b]], sc); }
      for (const n of LENS(T)) for (const sc of SCRIPTS.slice(0, 2)) { const b = Buffer.alloc(24); [0x50000, n, 0x50000 + n, 3, 0x50003 + n, n].forEach((x, q) => b.writeUInt32LE(x, 4 * q)); go(`buffers of ${n}, 3, ${n}`, set(0x20000, 3), [[0x20000, b]], sc); } }
    if (p === 'q') for (const n of LENS(T).filter((x) => x && x < 5000)) for (const sc of SCRIPTS.slice(0, 2)) go(`${n} subscriptions`, { [at[k]]: 0x10000, [at[k] + 2]: n }, [[0x10000, Buffer.from(Array.from({ length: 48 * n }, (_, i) => (i * 7 + (i >> 8)) & 255))]], sc);
  });
  return r;
}
const WORDS = ['', 'a', 'x y', 'ééé', 'q'.repeat(40)];
function vectors() { const r = [[]]; for (const a of WORDS) { r.push([a]); for (const b of WORDS) { r.push([a, b]); for (const c of WORDS) r.push([a, b, c]); } } return r; }
const VEC = [...vectors(), ...[...range(4, 66), 127, 128, 129, 255, 256, 257, 1000].map((n) => range(0, n).map((k) => 'w'.repeat(k % 5) + k)), ...[...range(2, 40), ...range(60, 70), 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 20000].map((n) => ['p', 'z'.repeat(n), 'q'])]; const plain = FN.filter((n) => !/^(args|environ)_/.test(n));
// ---- histories: every sequence of these calls on the same in-memory filesystem
const P = { a: [512, 'a'], b: [520, 'bb'], none: [530, 'nope'] }; const path = (k) => [P[k][0], Buffer.from(P[k][1]).length];
const FD = 4; // the first descriptor handed out
const HIST = [['path_open', [3, 0, ...path('a'), 0, 0x1fffffffn, 0n, 0, 600]], ['path_open', [3, 0, ...path('b'), 9, 0x1fffffffn, 0n, 0, 604]], ['path_open', [3, 0, ...path('none'), 0, 0n, 0n, 0, 600]], ['fd_write', [FD, 700, 2, 608]], ['fd_read', [FD, 716, 2, 608]], ['fd_seek', [FD, 1n, 0, 616]], ['fd_seek', [FD, 0n, 2, 616]], ['fd_tell', [FD, 616]], ['fd_close', [FD]], ['fd_filestat_get', [FD, 640]], ['path_filestat_get', [3, 0, ...path('b'), 640]], ['path_rename', [3, ...path('a'), 3, ...path('b')]], ['path_unlink_file', [3, ...path('b')]], ['fd_write', [1, 700, 1, 608]], ['fd_read', [0, 716, 2, 608]], ['random_get', [800, 9]], ['clock_time_get', [0, 1n, 616]], ['fd_read', [FD + 1, 716, 1, 608]]];
const histWorld = () => new Host({ files: { a: Buffer.from('first file') }, stdin: Buffer.from('standard input') });
function histImage() { const im = []; for (const [o, s] of Object.values(P)) im.push([o, Buffer.from(s)]); const b = Buffer.alloc(32); [900, 3, 910, 4, 1000, 2, 1010, 5].forEach((v, k) => b.writeUInt32LE(v, 4 * k)); im.push([700, b]); im.push([900, Buffer.from('ABC       DEFG')]); return im; }
const hists = (d) => { const r = []; const rec = (l) => { if (l.length === d) { r.push(l); return; } for (let k = 0; k < HIST.length; k++) rec([...l, k]); }; rec([]); return r; };

export const meta = {
  level: 'exploration', rule: 'one execution = one WASI call (or one history of calls) made by a guest in chiwawa and by the same guest on V8 against the same scripted host; compared: what the host was asked (scalars, path bytes, buffer contents and sizes, in order), the value the guest got, and the whole guest memory afterwards; non-trivial = reached the host',
  bounds: (t) => [`${plain.length} functions x every combination of: scalars from 3 boundary values, 5 paths, every list of 0..3 buffers over ${BUF.length}, 3 result buffers, 3 positions of each result pointer (unaligned, last bytes of memory), answers: success with all, half or none of the bytes, errno 8, errno 76; called directly, with operands below, through a table`, 'sweeps, one thing at a time: each scalar over its small values, powers of two and neighbours, all of 8 bits, pairs of bits; each two scalars over 0..8; the errnos 1..76; paths, buffers, lists and numbers of subscriptions of every size up to 300 and around every power of two', `arguments and environment: also up to 1000 words and words of up to 20000 bytes; every vector of 0..3 strings over ${WORDS.length}`, `histories: every sequence of ${t === 'thorough' ? 4 : 3} calls over ${HIST.length} on one filesystem`, 'paths which contain NUL: every path function', 'a guest without memory: every function which takes scalars only'],
  assumptions: ['V8 calls imported functions as WebAssembly defines', 'the guest has one memory and pointers stay inside it (C15 is about the others)'],
};
export async function plan(tier) {
  const jobs = [];
  for (const v of variants) { for (const n of plain) { const c = tuples(n, tier).length; const step = 1500; for (let i = 0; i < c; i += step) jobs.push({ fam: 'call', v, fn: n, from: i, to: Math.min(c, i + step), tier }); } for (const n of plain) for (const part of [0, 1, 2]) jobs.push({ fam: 'sweep', v, fn: n, part, tier }); jobs.push({ fam: 'vec', v, tier }, { fam: 'nul', v, tier }, { fam: 'nomem', v, tier }); const nh = HIST.length ** (tier === 'thorough' ? 4 : 3); const step = tier === 'thorough' ? 6000 : 750; for (let i = 0; i < nh; i += step) jobs.push({ fam: 'hist', v, from: i, to: Math.min(nh, i + step), tier }); }
  return jobs;
}
const cache = new Map(); const guestMod = (o) => { if (!cache.has(o)) { const b = guest(o); cache.set(o, { bytes: b, mod: new WebAssembly.Module(b) }); } return cache.get(o); };
function pair(job, order, mk = () => new Host(), argv = []) {
  const g = guestMod(order); const ha = mk(), hb = mk(); const a = new Ref(g.mod, ha); const c = new Chiwawa(wasmPath(job.v), hb); const l = c.load(g.bytes, argv); if (l.st !== 'ok') throw new Error('load ' + JSON.stringify(l)); return { a, c, ha, hb };
}
const argVals = (name, args) => args.map((x, i) => (SIG[name][i] === 'W' ? V.i64(x) : V.i32(x)));
const firstDiff = (x, y) => { if (x.length !== y.length) return { memorySize: [x.length, y.length] }; if (!Buffer.compare(x, y)) return null; let q = 0; while (x[q] === y[q]) q++; return { memoryAt: q, expected: Buffer.from(x.subarray(q, q + 12)).toString('hex'), got: Buffer.from(y.subarray(q, q + 12)).toString('hex') }; };
const outcome = (r) => (r.st === 'ok' ? r.vals.map(V.show).join() : r.st === 'err' ? 'trap' : r.st);
export async function run(job) {
  const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; const bump = (k) => { res.outcomes[k] = (res.outcomes[k] ?? 0) + 1; };
  if (job.fam === 'call') {
    let p = null; const order = FN.indexOf(job.fn) & 1; const base = new Uint8Array(END).map((_, i) => (i * 31 + (i >> 8)) & 255); let now = null; const la = [], lb = [];
    const fresh = () => { p = pair(job, order); p.ha.hook = hookFor(() => now, la); p.hb.hook = hookFor(() => now, lb); }; fresh();
    const ts = tuples(job.fn, job.tier); const sc = scripts(job.fn);
    for (let i = job.from; i < job.to; i++) for (let s = 0; s < sc.length; s++) for (const sh of (job.tier === 'thorough' || i % 3 === 0 || ts.length < 2000) ? SHAPES : ['direct']) {
      const key = `call:${job.fn}:${i}:${s}:${sh}:${job.v}`; if (job.only && job.only !== key) continue; watch.setKey(key); if (p.c.dead) fresh();
      const t = ts[i]; now = sc[s]; la.length = lb.length = 0;
      for (const mem of [p.a.memBytes(), p.c.memBytes()]) { mem.set(base); for (const [o, b] of t.image) mem.set(b, o); }
      const av = argVals(job.fn, t.args); const ra = p.a.call(`${job.fn}/${sh}`, av, ['i32']); const rb = p.c.call(`${job.fn}/${sh}`, av); res.evals++; if (la.length) res.nontrivial++; bump(now.errno ? 'errno ' + now.errno : 'success');
      if (job.fn === 'random_get' && t.args[1] === 0) { la.length = lb.length = 0; if (now.errno) continue; } // nothing is asked for
      let bad = null; if (la.join() !== lb.join()) bad = { host: 'asked', expected: la.join(), got: lb.join() || 'nothing', then: outcome(rb), msg: rb.msg }; else if (outcome(ra) !== outcome(rb)) bad = { expected: outcome(ra), got: outcome(rb), msg: rb.msg }; else bad = firstDiff(p.a.memBytes(), p.c.memBytes());
      if (bad) res.violations.push({ key, detail: { args: t.args.map(String), ...bad } }); else if (res.samples.length < 1) res.samples.push({ call: key, asked: la.join().slice(0, 200), result: outcome(ra) });
    }
  } else if (job.fam === 'sweep') {
    let p = null, now = null; const base = new Uint8Array(BIG * END).map((_, i) => (i * 31 + (i >> 8)) & 255); const la = [], lb = []; const fresh = () => { p = pair(job, 'big'); p.ha.hook = hookFor(() => now, la); p.hb.hook = hookFor(() => now, lb); }; fresh();
    const list = sweeps(job.fn, job.tier === 'thorough'); for (let i = job.part; i < list.length; i += 3) {
      const t = list[i]; const key = `sweep:${job.fn}:${t.what}:${t.sc.errno}${t.sc.count ? t.sc.count(10) : ''}:${job.v}`; if (job.only && job.only !== key) continue; watch.setKey(key); if (p.c.dead) fresh(); now = t.sc; la.length = lb.length = 0;
      for (const mem of [p.a.memBytes(), p.c.memBytes()]) { mem.set(base); for (const [o, b] of t.image) mem.set(b, o); }
      const sh = SHAPES[i % 3 ? 0 : (i / 3) % 3 | 0]; const av = argVals(job.fn, t.args); const ra = p.a.call(`${job.fn}/${sh}`, av, ['i32']), rb = p.c.call(`${job.fn}/${sh}`, av); res.evals++; if (la.length) res.nontrivial++; bump('sweep');
      if (job.fn === 'random_get' && t.args[1] === 0) continue;
      let bad = null; if (la.join() !== lb.join()) bad = { host: 'asked', expected: la.join().slice(0, 400), got: lb.join().slice(0, 400) || 'nothing', then: outcome(rb), msg: rb.msg }; else if (outcome(ra) !== outcome(rb)) bad = { expected: outcome(ra), got: outcome(rb), msg: rb.msg }; else bad = firstDiff(p.a.memBytes(), p.c.memBytes());
      if (bad) res.violations.push({ key, detail: { args: t.args.map(String), ...bad } });
    }
  } else if (job.fam === 'vec') {
    for (let i = 0; i < VEC.length; i++) for (const kind of ['args', 'environ']) {
      const list = kind === 'environ' ? VEC[i].map((x, k) => `K${k}=${x}`) : VEC[i]; const mk = () => new Host({ args: kind === 'args' ? list : ['h'], env: kind === 'environ' ? list : [] }); const p = pair(job, i & 1, mk, kind === 'args' ? list : []); p.hb.args = ['host own arguments'];
      const n = list.length, tot = list.reduce((q, x) => q + Buffer.from(x).length + 1, 0);
      for (const sh of SHAPES) for (const [ap, sp] of [[100, 100 + 4 * n], [101, 3000], [END - 4 * n, 500], [3000, END - tot]]) {
        if (ap < sp ? ap + 4 * n > sp : sp + tot > ap) continue; // the two would overlap
        const key = `vec:${kind}:${i}:${sh}:${ap}:${job.v}`; if (job.only && job.only !== key) continue; watch.setKey(key);
        for (const mem of [p.a.memBytes(), p.c.memBytes()]) mem.fill(0xaa); let bad = null; const rs = [];
        for (const [f, args] of [[kind + '_sizes_get', [40, 44]], [kind + '_get', [ap, sp]]]) { if (bad) break; const av = argVals(f, args); const ra = p.a.call(`${f}/${sh}`, av, ['i32']); const rb = p.c.call(`${f}/${sh}`, av); res.evals++; res.nontrivial++; rs.push(outcome(ra)); if (outcome(ra) !== outcome(rb)) bad = { call: f, expected: outcome(ra), got: outcome(rb), msg: rb.msg }; else bad = firstDiff(p.a.memBytes(), p.c.memBytes()); if (p.c.dead) break; }
        bump(kind); if (bad) res.violations.push({ key, detail: { list, ...bad } }); else if (res.samples.length < 1) res.samples.push({ vector: list, results: rs }); if (p.c.dead) break;
      }
    }
  } else if (job.fam === 'nomem') { // a guest without memory can still call what needs none
    let p = null, now = null; const la = [], lb = []; const fresh = () => { p = pair(job, 'nomem'); p.ha.hook = hookFor(() => now, la); p.hb.hook = hookFor(() => now, lb); }; fresh();
    for (const fn of SCALAR) { const ts = tuples(fn, 'quick'); for (let i = 0; i < ts.length; i++) for (const s of [SCRIPTS[0], SCRIPTS[3]]) for (const sh of SHAPES) {
      const key = `nomem:${fn}:${i}:${s.errno}:${sh}:${job.v}`; if (job.only && job.only !== key) continue; watch.setKey(key); if (p.c.dead) fresh(); now = s; la.length = lb.length = 0; const av = argVals(fn, ts[i].args);
      const ra = p.a.call(`${fn}/${sh}`, av, ['i32']), rb = p.c.call(`${fn}/${sh}`, av); res.evals++; res.nontrivial++; bump('no memory');
      if (la.join() !== lb.join() || outcome(ra) !== outcome(rb)) res.violations.push({ key, detail: { args: ts[i].args.map(String), expected: [la.join(), outcome(ra)], got: [lb.join(), outcome(rb)], msg: rb.msg } });
    } }
  } else if (job.fam === 'nul') { // a path with a NUL inside names nothing: no other path may be used in its place
    const p = pair(job, 0); const lb = []; p.hb.hook = hookFor(() => SCRIPTS[0], lb);
    for (const fn of plain) { const spec = SPEC[fn]; spec.forEach((kind, at) => { if (kind !== 'P') return; for (const raw of ['a\0b', '\0', 'ab\0']) {
      const key = `nul:${fn}:${at}:${JSON.stringify(raw)}:${job.v}`; if (job.only && job.only !== key) continue; watch.setKey(key); if (p.c.dead) p.c.fresh(p.hb).load(guestMod(0).bytes);
      const mem = p.c.memBytes(); mem.fill(0); const args = []; spec.forEach((q, k) => { if (q === 'P') { const s = Buffer.from(k === at ? raw : 'ok'), o = 64 + 40 * k; mem.set(s, o); args.push(o, s.length); } else if (q[0] === 'o') args.push(1000 + 100 * k); else if (q === 'B') args.push(5000, 8); else args.push(q === 'W' ? 1n : 1); });
      lb.length = 0; const r = p.c.call(fn + '/direct', argVals(fn, args)); res.evals++; res.nontrivial++; bump('NUL in path: ' + (r.st === 'ok' ? 'errno ' + r.vals[0].v : r.st)); const want = 'p' + Buffer.from(raw).toString('hex');
      const okay = lb.length === 0 ? !(r.st === 'ok' && r.vals[0].v === 0n) : lb.every((x) => JSON.parse(x).includes(want)); if (!okay) res.violations.push({ key, detail: { path: raw, asked: lb.join(), result: outcome(r) } });
    } }); }
  } else {
    const hs = hists(job.tier === 'thorough' ? 4 : 3); let p = null; const im = histImage();
    for (let i = job.from; i < job.to; i++) {
      const key = `hist:${hs[i].join('.')}:${job.v}`; if (job.only && job.only !== key) continue; watch.setKey(key); if (!p || p.c.dead) p = pair(job, 0);
      // one interpreter, a new world for each history
      for (const h of [p.ha, p.hb]) { const w = histWorld(); h.files = w.files; h.fds = w.fds; h.next = w.next; h.out = []; h.err = []; h.inpos = 0; h.stdin = w.stdin; h.clock = w.clock; h.rnd = w.rnd; }
      for (const mem of [p.a.memBytes(), p.c.memBytes()]) { mem.fill(0x55); for (const [o, b] of im) mem.set(b, o); }
      let bad = null; const rs = []; for (const k of hs[i]) { const [f, args] = HIST[k]; const av = argVals(f, args); const ra = p.a.call(f + '/direct', av, ['i32']), rb = p.c.call(f + '/direct', av); rs.push(f + '=' + outcome(ra)); if (outcome(ra) !== outcome(rb)) { bad = { after: rs, expected: outcome(ra), got: outcome(rb), msg: rb.msg }; break; } }
      if (!bad) bad = firstDiff(p.a.memBytes(), p.c.memBytes()); const fsx = (h) => JSON.stringify([[...h.files].filter(([n]) => n !== 'guest.wasm').map(([n, f]) => [n, Buffer.from(f.data.subarray(0, f.len)).toString('hex')]), h.stdout()]);
      if (!bad && fsx(p.ha) !== fsx(p.hb)) bad = { world: 'differs', expected: fsx(p.ha), got: fsx(p.hb) }; res.evals++; res.nontrivial++; bump('history');
      if (bad) res.violations.push({ key, detail: bad }); else if (res.samples.length < 1) res.samples.push({ history: rs });
    }
  }
  return { job, ...res };
}
