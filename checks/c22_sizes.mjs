// C22: size does not matter. Every construct is scaled through the sizes around the limits of
// narrow encodings (8, 16 bits, pages, powers of two), run to the end and through checkpoints,
// and compared with V8.
import { I, Mod, u } from '../lib/asm.mjs';
import { Chiwawa, Host, Ref, V, sameVals } from '../lib/host.mjs';
import { Lab } from '../lib/ckpt.mjs';
import { wasmPath } from '../lib/build.mjs';
import * as watch from '../lib/watch.mjs';

export const variants = ['tco-fat', 'legacy']; // which handlers are tail calls depends on the release profile
const op = (n) => I.op(n); const rep = (n, f) => { const r = []; for (let i = 0; i < n; i++) for (const b of f(i)) r.push(b); return r; };
const NUMT = ['i32', 'i64', 'f32', 'f64']; const K = (t, i) => (t === 'i32' ? I.i32(i * 40503 % 1000003 - 7) : t === 'i64' ? I.i64(BigInt(i) * 2654435761n - 9n) : t === 'f32' ? I.f32(i % 251 + 0.5) : I.f64(i % 1021 - 0.25));
// takes two values of the type and makes one which depends on their order
const FOLD = { i32: [op('i32.sub'), I.i32(5), op('i32.rotl')], i64: [op('i64.sub'), I.i64(7), op('i64.rotl')], f32: [op('f32.sub')], f64: [op('f64.sub')] }; for (const k of NUMT) FOLD[k] = FOLD[k].flat();
const main = (m, results, body, locals = []) => m.func({ results, locals, body: body.flat(Infinity), name: 'main' });
const around = (...xs) => [...new Set(xs.flatMap((x) => [x - 1, x, x + 1]))].filter((x) => x > 0);
const S16 = [1, 2, 3, ...around(8, 16, 32, 64, 128, 256, 1024, 4096, 32768, 65536)]; const upto = (n) => S16.filter((x) => x <= n).concat(S16.includes(n) ? [] : [n]);
// name -> {sizes, make(n) -> Mod with an exported function main without parameters, r: its results}
const D = {};
for (const t of NUMT) {
  D['stack ' + t] = { sizes: upto(65537).concat(65530, 65533, 65534, 65538, 65540, 66000), limit: 65536, r: [t], make: (m, n) => main(m, [t], [rep(n, (i) => K(t, i)), rep(n - 1, () => FOLD[t])]) };
  D['stack under a block ' + t] = { sizes: upto(32769), r: [t], make: (m, n) => main(m, [t], [rep(n, (i) => K(t, i)), I.block(t, [...K(t, 3), ...I.i32(1), ...I.br_if(0), ...I.drop(), ...K(t, 5)]), rep(n, () => FOLD[t])]) };
  D['stack across a call ' + t] = { sizes: upto(32769), r: [t], make: (m, n) => { const f = m.func({ params: [t], results: [t], body: [I.get(0), K(t, 2), FOLD[t], K(t, 3), FOLD[t]] }); main(m, [t], [rep(n, (i) => K(t, i)), I.call(f), rep(n - 1, () => FOLD[t])]); } };
  D['stack on both sides of a call ' + t] = { sizes: upto(32769), r: [t], make: (m, n) => { const f = m.func({ results: [t], body: [rep(n, (i) => K(t, i + 1)), rep(n - 1, () => FOLD[t])].flat() }); main(m, [t], [rep(n, (i) => K(t, i)), I.call(f), rep(n, () => FOLD[t])]); } };
  D['stack over locals ' + t] = { sizes: [1, 256, 15535, 15536, 15537, 15538, 15539, 20000], limit: 15536, r: [t], make: (m, n) => main(m, [t], [K(t, 9), I.set(49999), rep(n, (i) => (i === 0 ? I.get(49999) : K(t, i))), rep(n - 1, () => FOLD[t]), I.get(49999), FOLD[t]], Array(50000).fill(t)) };
  D['locals ' + t] = { sizes: upto(49000), r: [t], make: (m, n) => main(m, [t], [rep(n, (i) => [...K(t, i), ...I.set(i)]), I.get(n - 1), rep(n, (i) => [...I.get((i * 7919) % n), ...FOLD[t]])], Array(n).fill(t)) };
  D['params ' + t] = { sizes: upto(1000), r: [t], make: (m, n) => { const f = m.func({ params: Array(n).fill(t), results: [t], body: [I.get(n - 1), rep(n, (i) => [...I.get(i), ...FOLD[t]])].flat() }); main(m, [t], [rep(n, (i) => K(t, i)), I.call(f)]); } };
  D['results ' + t] = { sizes: upto(1000), r: [t], make: (m, n) => { const f = m.func({ results: Array(n).fill(t), body: rep(n, (i) => K(t, i)) }); main(m, [t], [K(t, 8), I.call(f), rep(n, () => FOLD[t])]); } };
  D['block results ' + t] = { sizes: upto(1000), r: [t], make: (m, n) => { const ty = m.type([], Array(n).fill(t)); main(m, [t], [K(t, 8), I.block({ idx: ty }, [...K(t, 1), ...K(t, 4), ...rep(n, (i) => K(t, i)), ...I.br(0)]), rep(n, () => FOLD[t])]); } };
  D['block parameters ' + t] = { sizes: upto(1000), r: [t], make: (m, n) => { const ty = m.type(Array(n).fill(t), [t]); main(m, [t], [K(t, 8), rep(n, (i) => K(t, i)), I.block({ idx: ty }, rep(n - 1, () => FOLD[t])), FOLD[t]]); } };
  D['loop parameters ' + t] = { sizes: upto(1000), r: [t], make: (m, n) => { const ty = m.type(Array(n).fill(t), [t]); main(m, [t], [K(t, 8), rep(n, (i) => K(t, i)), I.loop({ idx: ty }, [...rep(n - 1, () => FOLD[t]), ...I.set(1), ...rep(n, (i) => (i === 0 ? I.get(1) : K(t, i + 2))), ...I.get(0), ...I.i32(1), ...op('i32.add'), ...I.tee(0), ...I.i32(3), ...op('i32.lt_u'), ...I.br_if(0), ...rep(n - 1, () => FOLD[t])]), FOLD[t]], ['i32', t]); } };
  D['globals ' + t] = { sizes: upto(4097), r: [t], make: (m, n) => { for (let i = 0; i < n; i++) m.global(t, true, K(t, i)); main(m, [t], [rep(n, (i) => [...I.gget((i * 31) % n), ...K(t, 1), ...FOLD[t], ...I.gset(i)]), K(t, 5), rep(n, (i) => [...I.gget(i), ...FOLD[t]])]); } };
}
D['stack of all types'] = { sizes: upto(16385), r: NUMT, make: (m, n) => main(m, NUMT, [NUMT.map((t) => rep(n, (i) => [...K(t, i), ...(t === 'f64' ? I.nop() : [])])), NUMT.slice().reverse().map((t) => [rep(n - 1, () => FOLD[t]), I.set(NUMT.indexOf(t))]), NUMT.map((_, i) => I.get(i))], NUMT) };
const RT = (name, push, isNull) => { const by = (n) => { let x = 0; for (let i = n - 1; i >= 0; i--) x = ((x << 1) | (x >>> 31)) ^ isNull(i); return [V.i32(x | 0)]; }; /* V8 cannot compile the largest */ D['stack ' + name] = { sizes: upto(32769).concat(65535, 65536, 65537, 65538), limit: 65536, r: ['i32'], by, make: (m, n) => { const f = push(m); main(m, ['i32'], [rep(n, (i) => f(i)), rep(n, () => [...I.ref_is_null(), ...I.get(0), ...I.i32(1), ...op('i32.rotl'), ...op('i32.xor'), ...I.set(0)]), I.get(0)], ['i32']); } }; };
RT('funcref', (m) => { m.table('funcref', 3); const f = m.func({ body: [] }); m.elem(I.i32(1), [f]); return (i) => [...I.i32(i * 7 % 3), ...I.tget(0)]; }, (i) => +(i * 7 % 3 !== 1)); RT('externref', (m) => { m.table('externref', 1); return () => [...I.i32(0), ...I.tget(0)]; }, () => 1);
D['locals funcref'] = { sizes: upto(40000), r: ['i32'], make: (m, n) => { m.table('funcref', 2); const f = m.func({ body: [] }); m.elem(I.i32(1), [f]); main(m, ['i32'], [I.i32(1), I.tget(0), I.set(n - 1 + 1), rep(n, (i) => [...I.get(1 + i), ...I.ref_is_null(), ...I.get(0), ...op('i32.add'), ...I.set(0)]), I.get(0)], ['i32', ...Array(n).fill('funcref')]); } };
D['nesting of blocks'] = { sizes: upto(4097), r: ['i32'], make: (m, n) => main(m, ['i32'], [rep(n, (i) => [0x02, 0x40]), I.get(0), I.br_table(Array.from({ length: Math.min(n, 2000) }, (_, i) => i), n - 1), rep(n, (i) => [0x0b, ...I.get(0), ...I.i32(i + 1), ...op('i32.xor'), ...I.i32(3), ...op('i32.rotl'), ...I.set(0)]), I.get(0)], ['i32']) };
for (const [k, pick] of [['outermost', (n) => n - 1], ['middle', (n) => n >> 1], ['innermost', () => 0]]) {
  D[`branch to the ${k} of nested blocks`] = { sizes: upto(4097), r: ['i32'], make: (m, n) => main(m, ['i32'], [rep(n, () => [0x02, 0x7f]), I.i32(77), I.i32(5), I.br_if(pick(n)), rep(n, (i) => [...I.i32(i + 1), ...op('i32.add'), 0x0b])]) };
  D[`branch to the ${k} of nested loops`] = { sizes: upto(1025), r: ['i32'], make: (m, n) => main(m, ['i32'], [rep(n, () => [0x03, 0x40, ...I.get(1), ...I.i32(1), ...op('i32.add'), ...I.set(1)]), I.get(0), I.i32(1), op('i32.add'), I.tee(0), I.i32(4), op('i32.lt_u'), I.br_if(pick(n)), rep(n, () => [0x0b]), I.get(0), I.get(1), op('i32.mul')], ['i32', 'i32']) };
}
D['nesting of ifs'] = { sizes: upto(1025), r: ['i32'], make: (m, n) => main(m, ['i32'], [rep(n, (i) => [...I.get(0), ...I.i32(i), ...op('i32.eq'), 0x04, 0x40, ...I.get(0), ...I.i32(1), ...op('i32.add'), ...I.set(0)]), rep(n, (i) => [0x05, ...I.get(0), ...I.i32(1000 + i), ...op('i32.add'), ...I.set(0), 0x0b]), I.get(0)], ['i32']) };
for (const [k, sel] of [['first', () => 0], ['last', (n) => n - 1], ['default', (n) => n], ['beyond', () => -1], ['middle', (n) => n >> 1]]) D['br_table, entry ' + k] = { sizes: upto(65000), r: ['i32'], make: (m, n) => main(m, ['i32'], [I.block('', [...I.block('', [...I.block('', [...I.block('', [...I.i32(sel(n)), 0x0e, ...u(n), ...rep(n, (i) => u(i === 0 ? 0 : i === n - 1 ? 1 : i === n >> 1 ? 2 : 3)), ...u(2)]), ...I.i32(1), ...I.return()]), ...I.i32(2), ...I.return()]), ...I.i32(3), ...I.return()]), I.i32(4)]) };
D['straight code'] = { sizes: upto(65537), r: ['i64'], make: (m, n) => main(m, ['i64'], [rep(n, (i) => [...I.get(0), ...I.i64(i + 3), ...op('i64.mul'), ...I.i64(i), ...op('i64.xor'), ...I.set(0)]), I.get(0)], ['i64']) };
D['branch forwards over code'] = { sizes: upto(65537), r: ['i32'], make: (m, n) => main(m, ['i32'], [I.i32(1), I.set(0), I.block('', [...I.get(0), ...I.br_if(0), ...rep(n, () => [...I.get(0), ...I.i32(3), ...op('i32.add'), ...I.set(0)])]), I.get(0), I.if('', rep(n, () => [...I.get(0), ...I.i32(5), ...op('i32.rotl'), ...I.set(0)]), rep(n, () => [...I.get(0), ...I.i32(7), ...op('i32.add'), ...I.set(0)])), I.get(0)], ['i32']) };
D['branch backwards over code'] = { sizes: upto(65537), r: ['i32'], make: (m, n) => main(m, ['i32'], [I.loop('', [...rep(n, (i) => [...I.get(0), ...I.i32(i), ...op('i32.add'), ...I.set(0)]), ...I.get(1), ...I.i32(1), ...op('i32.add'), ...I.tee(1), ...I.i32(3), ...op('i32.lt_u'), ...I.br_if(0)]), I.get(0)], ['i32', 'i32']) };
D['else branch after code'] = { sizes: upto(32769), r: ['i32'], make: (m, n) => main(m, ['i32'], [I.get(0), I.if('i32', [...I.i32(0), ...rep(n, () => [...I.i32(1), ...op('i32.add')])], [...I.i32(9), ...rep(n, (i) => [...I.i32(i), ...op('i32.xor')])])], ['i32']) };
const fn = (m, n) => { const fs = []; for (let i = 0; i < n; i++) fs.push(m.func({ params: ['i32'], results: ['i32'], body: [I.get(0), I.i32(5), op('i32.rotl'), I.i32(i), op('i32.xor')] })); return fs; };
const probe = (n) => [...new Set([0, 1, 7, 127, 128, 255, 256, 257, n >> 1, 32767, 32768, 65535, 65536, n - 2, n - 1].filter((x) => x >= 0 && x < n))];
D['functions'] = { sizes: upto(65537), r: ['i32'], make: (m, n) => { const fs = fn(m, n); main(m, ['i32'], [I.i32(1), probe(n).map((k) => I.call(fs[k]))]); } };
D['table entries'] = { sizes: upto(65537), r: ['i32'], make: (m, n) => { const fs = fn(m, Math.min(n, 300)); m.table('funcref', n); m.elem(I.i32(0), Array.from({ length: n }, (_, i) => fs[(i * 7) % fs.length])); const ty = m.type(['i32'], ['i32']); main(m, ['i32'], [I.i32(1), probe(n).map((k) => [I.i32(k), I.call_indirect(ty)])]); } };
D['tables'] = { sizes: upto(100), r: ['i32'], make: (m, n) => { const f = fn(m, 3); for (let i = 0; i < n; i++) m.table('funcref', 1); for (let i = 0; i < n; i++) m.elemRaw([2, ...u(i), ...I.i32(0), 0x0b, 0, 1, ...u(f[i % 3])]); const ty = m.type(['i32'], ['i32']); main(m, ['i32'], [I.i32(1), probe(n).map((k) => [I.i32(0), I.call_indirect(ty, k)])]); } };
D['types'] = { sizes: upto(4097), r: ['i32'], make: (m, n) => { const f = fn(m, 1); m.table('funcref', 1); m.elem(I.i32(0), f); for (let i = 0; i < n; i++) { const p = []; for (let x = i + 1; x; x = Math.floor(x / 4)) p.push(NUMT[x % 4]); m.type([...p, 'funcref'], []); } const p = []; for (let x = n; x; x = Math.floor(x / 4)) p.push(NUMT[x % 4]); m.func({ params: [...p, 'funcref'], body: [] }); const t1 = m.type(['i32'], ['i32', 'i32']); const g = m.func({ params: ['i32'], results: ['i32', 'i32'], body: [I.get(0), I.get(0)] }); const b = m.type(['i32', 'i32', 'i32'], ['i32']); main(m, ['i32'], [I.i32(4), I.i32(0), I.call_indirect(m.type(['i32'], ['i32'])), I.call(g), I.i32(3), I.block({ idx: b }, [...op('i32.sub'), ...op('i32.xor')])]); void t1; } };
D['element segments'] = { sizes: upto(4097), r: ['i32'], make: (m, n) => { const f = fn(m, 3); m.table('funcref', n + 1); for (let i = 0; i < n; i++) m.elem(I.i32(i), [f[i % 3]]); const ty = m.type(['i32'], ['i32']); main(m, ['i32'], [I.i32(1), probe(n).map((k) => [I.i32(k), I.call_indirect(ty)])]); } };
D['data segments'] = { sizes: upto(4097), r: ['i32'], make: (m, n) => { m.memory(1); m.dataCount = true; for (let i = 0; i < n; i++) m.data(I.i32(i * 2), [i & 255, i >> 8]); const p = m.dataPassive([1, 2, 3, 4]); main(m, ['i32'], [I.i32(40000), I.i32(1), I.i32(2), I.mem_init(p), I.i32(40000), I.load('i32.load'), probe(n).map((k) => [I.i32(2 * k), I.load('i32.load16_u'), op('i32.xor'), I.i32(3), op('i32.rotl')])]); } };
D['bytes of a data segment'] = { sizes: upto(65536).concat(65537, 131071, 131072), r: ['i32'], make: (m, n) => { m.memory(4); m.dataCount = true; const b = Array.from({ length: n }, (_, i) => (i * 7 + (i >> 8)) & 255); m.data(I.i32(5), b); const p = m.dataPassive(b); const l = probe(n); main(m, ['i32'], [I.i32(140000), I.i32(n >> 1), I.i32(n - (n >> 1)), I.mem_init(p), I.i32(0), l.map((k) => [I.i32(5 + k), I.load('i32.load8_u'), op('i32.xor'), I.i32(3), op('i32.rotl')]), l.filter((k) => k < n - (n >> 1)).map((k) => [I.i32(140000 + k), I.load('i32.load8_u'), op('i32.xor'), I.i32(3), op('i32.rotl')])]); } };
D['bytes copied and filled'] = { sizes: upto(65537), r: ['i32'], make: (m, n) => { m.memory(5); m.data(I.i32(9), Array.from({ length: 251 }, (_, i) => i)); main(m, ['i32'], [I.i32(9 + 251), I.i32(9), I.i32(n), I.mem_copy(), I.i32(10), I.i32(9), I.i32(n), I.mem_copy(), I.i32(9 + n + 1), I.i32(0xab), I.i32(n), I.mem_fill(), I.i32(0), probe(2 * n).map((k) => [I.i32(8 + k), I.load('i32.load8_u'), op('i32.xor'), I.i32(3), op('i32.rotl')])]); } };
D['pages grown'] = { sizes: upto(257), r: ['i32'], make: (m, n) => { m.memory(1); main(m, ['i32'], [I.i32(n), I.grow(), I.i32(n * 65536 + 65532), I.i32(77), I.store('i32.store'), I.i32(n * 65536 + 65528), I.load('i64.load32_u', 4), op('i32.wrap_i64'), op('i32.add'), I.size(), op('i32.mul')]); } };
D['recursion'] = { sizes: upto(4097).concat(20000), r: ['i64'], ck: true, make: (m, n) => { const f = m.func({ params: ['i32', 'i64'], results: ['i64'], body: [] }); m.setBody(f, [I.get(0), I.if('i64', [...I.get(1), ...I.get(0), ...I.i32(1), ...op('i32.sub'), ...I.get(1), ...I.i64(3), ...op('i64.mul'), ...I.call(f), ...op('i64.sub')], [...I.get(1)])]); main(m, ['i64'], [I.i32(n), I.i64(5), I.call(f)]); } };
D['recursion with many locals'] = { sizes: upto(1025), r: ['i32'], make: (m, n) => { const f = m.func({ params: ['i32'], results: ['i32'], locals: Array(300).fill('i32'), body: [] }); m.setBody(f, [I.get(0), I.if('', [...I.get(0), ...I.set(300), ...I.get(0), ...I.i32(1), ...op('i32.sub'), ...I.call(f), ...I.get(300), ...op('i32.add'), ...I.return()], []), I.i32(1)]); main(m, ['i32'], [I.i32(n), I.call(f)]); } };
// every frame holds 16 registers which it needs again after the call
for (const t of NUMT) D['recursion over a stack of ' + t] = { sizes: [1, 2, 15, 16, 17, 255, 256, 257, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 4200, 8192, 8193], r: [t], make: (m, n) => { const f = m.func({ params: ['i32', t], results: [t], body: [] }); m.setBody(f, [rep(16, (i) => [...I.get(1), ...K(t, i), ...FOLD[t]]), I.get(0), I.if(t, [...I.get(0), ...I.i32(1), ...op('i32.sub'), ...I.get(1), ...K(t, 1), ...FOLD[t], ...I.call(f)], K(t, 5)), rep(16, () => FOLD[t])].flat()); main(m, [t], [I.i32(n), K(t, 9), I.call(f)]); } };
D['recursion over a stack of funcref'] = { sizes: [1, 255, 256, 257, 4094, 4095, 4096, 4097, 4200], r: ['i32'], make: (m, n) => { m.table('funcref', 3); const f = m.func({ params: ['i32'], results: ['i32'], body: [] }); m.elem(I.i32(1), [f]); m.setBody(f, [rep(16, (i) => [...I.get(0), ...I.i32(i), ...op('i32.add'), ...I.i32(3), ...op('i32.rem_u'), ...I.tget(0)]), I.get(0), I.if('i32', [...I.get(0), ...I.i32(1), ...op('i32.sub'), ...I.call(f)], I.i32(1)), I.set(0), rep(16, () => [...I.ref_is_null(), ...I.get(0), ...I.i32(1), ...op('i32.rotl'), ...op('i32.xor'), ...I.set(0)]), I.get(0)].flat()); main(m, ['i32'], [I.i32(n), I.call(f)]); } };
D['calls after one another'] = { sizes: upto(65537), r: ['i32'], make: (m, n) => { const fs = fn(m, 1); main(m, ['i32'], [I.loop('', [...I.get(1), ...I.call(fs[0]), ...I.set(1), ...I.get(0), ...I.i32(1), ...op('i32.add'), ...I.tee(0), ...I.i32(n), ...op('i32.lt_u'), ...I.br_if(0)]), I.get(1)], ['i32', 'i32']); } };
D['exports'] = { sizes: upto(4097), r: ['i32'], make: (m, n) => { const fs = fn(m, n); fs.forEach((f, i) => m.exportFunc('main' + i, f)); main(m, ['i32'], [I.i32(1), I.call(fs[n - 1])]); } };
D['imports'] = { sizes: upto(1025), r: ['i32'], make: (m, n) => { const ys = []; for (let i = 0; i < n; i++) ys.push(i % 2 ? m.importFunc('wasi_snapshot_preview1', 'sched_yield', [], ['i32']) : m.importFunc('wasi_snapshot_preview1', 'fd_close', ['i32'], ['i32'])); m.memory(1); const f = m.func({ results: ['i32'], body: I.i32(5) }); m.table('funcref', n + 1); m.elem(I.i32(0), [...ys, f]); main(m, ['i32'], [I.i32(0), probe(n).map((k) => (k % 2 ? [I.call(ys[k]), op('i32.add')] : [I.i32(k + 50), I.call(ys[k]), op('i32.add')])), I.i32(n), I.call_indirect(m.type([], ['i32'])), op('i32.add')]); } };
D['groups of locals'] = { sizes: upto(4097), r: ['i32'], make: (m, n) => main(m, ['i32'], [I.i32(3), I.set(n - 1 - ((n - 1) % 4)), rep(n, (i) => [...I.get(i), ...(['', op('i32.wrap_i64'), op('i32.reinterpret_f32'), [...op('i64.reinterpret_f64'), ...op('i32.wrap_i64')]][i % 4] || []), ...(i ? op('i32.sub') : [])])], Array.from({ length: n }, (_, i) => NUMT[i % 4])) };
const SIZES = (k, tier) => D[k].sizes;
export const meta = {
  level: 'exploration', rule: 'one execution = one guest of one size, uncut or cut at one poll and restored; result, memory size and globals compared with V8; non-trivial = every one of them',
  bounds: () => [`${Object.keys(D).length} constructs: ${Object.entries(D).map(([k, d]) => `${k} (${d.sizes.length} sizes up to ${Math.max(...d.sizes)})`).join('; ')}`, 'checkpoints: at the first, second, middle, last but one and last poll'],
  assumptions: ['V8 accepts the same sizes; sizes above the limits of V8 are not explored'],
};
export async function plan(tier) { return Object.keys(D).flatMap((k) => variants.flatMap((v) => [0, 1, 2, 3].map((s) => ({ k, v, s, tier })))); }
export async function run(job) {
  const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; const bump = (k) => { res.outcomes[k] = (res.outcomes[k] ?? 0) + 1; };
  const d = D[job.k];
  for (const [q, n] of SIZES(job.k, job.tier).entries()) {
    if (q % 4 !== job.s) continue; const key = `${job.k}:${n}:${job.v}`; if (job.only && !job.only.startsWith(key)) continue; watch.setKey(key);
    const m = new Mod(); d.make(m, n); const bytes = m.build(); let exp; if (d.by && n > 40000) exp = { st: 'ok', vals: d.by(n) }; else { let ref; try { ref = new Ref(bytes); } catch (e) { throw new Error(`${key}: ${e.message}`); } exp = ref.call('main', [], d.r); if (d.by && exp.st === 'ok' && !sameVals(exp.vals, d.by(n))) throw new Error(`${key}: the two references disagree`); }
    if (exp.st !== 'ok') throw new Error(`${key}: reference ${exp.msg}`);
    const lab = new Lab(wasmPath(job.v), wasmPath(job.v), bytes); let un; res.evals++; res.nontrivial++;
    if (d.limit && n > d.limit - 8) { const l = new Chiwawa(wasmPath(job.v), new Host()).load(bytes); if (l.st !== 'ok' && n >= d.limit) { bump('refused at load'); continue; } }
    const bad = (kk, x) => { bump('bad'); res.violations.push({ key: kk, detail: { expected: exp.vals.map(V.show).join(' '), ...x } }); };
    try { un = lab.uncut({ name: 'main' }); } catch (e) { bad(key, { got: String(e.message).slice(0, 200) }); continue; }
    if (un.r.st !== 'ok' || !sameVals(un.r.vals, exp.vals)) { bad(key, { got: un.r.st === 'ok' ? un.r.vals.map(V.show).join(' ') : un.r.st, msg: un.r.msg }); continue; }
    bump('as V8'); if (!res.samples.length) res.samples.push({ guest: key, result: exp.vals.map(V.show).join(' ') });
    const N = un.n; const ks = [...new Set([1, 2, N >> 1, N - 1, N].filter((k) => k >= 1 && k <= N))].filter((k) => job.tier === 'thorough' || N < 40000 || k === N >> 1);
    for (const k of ks) {
      const kk = `${key}:cut@${k}`; if (job.only && job.only !== kk) continue; watch.setKey(kk); res.evals++; res.nontrivial++;
      const c = lab.cut({ name: 'main' }, k); if (c.r.st !== 'ckpt' || !c.image) { bad(kk, { got: c.r.st }); continue; }
      const f = lab.diff(un, lab.resume(c.image, c.host)); if (f) bad(kk, f); else bump('restored');
    }
  }
  return { job, ...res };
}
