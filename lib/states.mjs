// Guests whose state differs in every way from what their module declares: every location
// is declared with its default value or another one, and left alone, set back to the
// default, or set to a third value before the run is cut. A checkpoint which leaves out
// what "is as declared" or "is zero" shows here.
import { I, Mod } from './asm.mjs';
import { BITS } from './bits.mjs';
const op = (n) => I.op(n); const tail = (f) => [I.call(f), I.call(f), I.nop(), I.call(f)];
const X = (...ls) => ls.reduce((a, l) => a.flatMap((x) => l.map((y) => [...x, y])), [[]]);
// functions 0.. of every guest return 10 + their number; a table holds them
function fns(m, t = 0) { for (let i = 0; i < 3; i++) m.func({ results: ['i32'], body: [I.i32(10 + i)] }); const e = m.func({ body: [I.nop()] }); m.table('funcref', 3); m.elemRaw([2, t, ...I.i32(0), 0x0b, 0, 3, 0, 1, 2]); return e; }
export const KINDS = ['mem', 'glob1', 'glob2', 'tab', 'seg', 'frame', 'bits'];
export function* guests(kind, T) {
  if (kind === 'mem') for (const pages of [1, 2, 3]) for (const grow of [0, 1]) for (const r of X(...[0, 1, 2].map(() => X([0, 1], ['-', 'z', 'n'])))) {
    const end = pages * 65536; const at = [4, pages > 1 ? 65532 : 30000, end - 8]; const m = new Mod(); m.memory(pages, 9); const e = fns(m); const w = [];
    r.forEach(([i, x], q) => { if (i) m.data(I.i32(at[q]), [1, 2, 3, 4, 5, 6, 7, 8 + q]); if (x !== '-') w.push(I.i32(at[q]), I.i64(x === 'z' ? 0n : 0x1122334455667788n + BigInt(q)), I.store('i64.store')); });
    m.func({ results: ['i64'], body: [...w, ...(grow ? [I.i32(1), I.grow(), I.drop()] : []), ...tail(e), at.map((p) => [I.i32(p), I.load('i64.load')]), op('i64.xor'), op('i64.add'), I.size(), op('i64.extend_i32_u'), op('i64.add')].flat(2), name: 'main' });
    yield [`${pages} pages, grown ${grow}, ${r.map((x) => x.join('')).join(' ')}`, m.build(), ['i64']];
  }
  const GT = { i32: [I.i32(0), I.i32(7), I.i32(-9)], i64: [I.i64(0n), I.i64(7n), I.i64(-9n)], f32: [I.f32b(0), I.f32b(0x40490fdb), I.f32b(0x80000000)], f64: [I.f64b(0n), I.f64b(0x400921fb54442d18n), I.f64b(0x8000000000000000n)] };
  const FR = [I.ref_null('funcref'), [I.i32(1), I.tget(0)].flat(), [I.i32(2), I.tget(0)].flat()];
  if (kind === 'glob1' || kind === 'glob2') { const one = Object.entries(GT).flatMap(([t, v]) => X(v.map((_, i) => i), ['-', ...v.map((_, i) => i)]).map(([i, x]) => [t, i, x])); const two = one.filter(([t]) => T || t === 'i64' || t === 'i32' || t === 'f32');
    for (const gs of kind === 'glob1' ? one.map((x) => [x]) : X(two, two)) for (const cst of kind === 'glob1' ? [0] : T ? [0, 1, 2] : [1]) { const m = new Mod(); const e = fns(m); const w = []; let n = 0; // constants before and between
      gs.forEach(([t, i, x], q) => { if (cst > 0 && q === cst - 1) { m.global('i64', false, I.i64(3n)); n++; } m.global(t, true, GT[t][i]); if (x !== '-') w.push(GT[t][x], I.gset(n)); n++; });
      const at = gs.map((_, q) => q + (cst > 0 && q >= cst - 1 ? 1 : 0)); m.func({ results: gs.map((x) => x[0]), body: [...w, ...tail(e), ...at.map((k) => I.gget(k))].flat(), name: 'main' }); yield [`${gs.map((x) => x.join('')).join(' ')}, constant ${cst}`, m.build(), gs.map((x) => x[0])]; } }
  if (kind === 'tab') for (const second of [0, 1]) for (const r of X(...[0, 1, 2].map(() => X([0, 1], ['-', 'z', 'n'])))) { const at = [0, 2, 4]; const m = new Mod(); const t = second, F = 1 - second; let e; if (second) e = fns(m); m.table('funcref', 5); if (!second) e = fns(m, 1); const w = []; const ty = m.type([], ['i32']);
    r.forEach(([i, x], q) => { if (i) m.elemRaw([2, t, ...I.i32(at[q]), 0x0b, 0, 1, 0]); if (x !== '-') w.push(I.i32(at[q]), x === 'z' ? I.ref_null('funcref') : [I.i32(1 + (q & 1)), I.tget(F)].flat(), I.tset(t)); });
    w.push(I.i32(1), I.i32(2), I.tget(F), I.tset(F));
    m.func({ results: ['i32', 'i32', 'i32', 'i32'], body: [...w, ...tail(e), ...at.map((p) => [I.i32(p), I.tget(t), I.ref_is_null()]).flat(), I.i32(1), I.call_indirect(ty, F), r[2][1] === 'n' ? [I.i32(4), I.call_indirect(ty, t), op('i32.add')] : []].flat(), name: 'main' });
    yield [`${second ? 'second' : 'first'} table, ${r.map((x) => x.join('')).join(' ')}`, m.build(), ['i32', 'i32', 'i32', 'i32']]; }
  if (kind === 'seg') for (const d of X([0, 1], [0, 1], [0, 1])) for (const use of [0, 1, 2]) { const m = new Mod(); const e = fns(m); m.memory(1); const d0 = m.dataPassive([1, 2, 3]); m.data(I.i32(9), [7, 7]); const d1 = m.dataPassive([4, 5, 6]); const d2 = m.dataPassive([]);
    const drop = [I.data_drop(d0), I.data_drop(d1), I.data_drop(d2)]; const take = [[I.mem_init(d0), 2], [I.mem_init(d1), 3], [I.mem_init(d2), 0]][use];
    m.func({ results: ['i32'], body: [...drop.filter((_, q) => d[q]), ...tail(e), I.i32(1), I.i32(0), I.i32(take[1]), take[0], I.i32(0), I.load('i32.load')].flat(), name: 'main' }); yield [`dropped ${d.join('')}, then ${use} used`, m.build(), ['i32']]; }
  if (kind === 'bits') for (const ty of ['f32', 'f64']) for (const b of BITS[ty]) for (const depth of [1, 2]) { // NaNs with payloads, signs: on the operand stack, in locals, globals, arguments, the frame of the caller
    const m = new Mod(); const e = fns(m); m.memory(1); const it = ty === 'f32' ? 'i32' : 'i64'; const C = [ty === 'f32' ? I.i32(Number(b) | 0) : I.i64(BigInt.asIntN(64, b)), op(`${ty}.reinterpret_${it}`)].flat(); const R = op(`${it}.reinterpret_${ty}`); m.global(ty, true, GT[ty][1]); m.global(ty, true, ty === 'f32' ? I.f32b(b) : I.f64b(b)); let f = e; for (let k = 1; k < depth; k++) f = m.func({ params: [], body: [I.call(f)].flat() });
    const g = m.func({ params: [ty], locals: [ty], results: [it, it], body: [C, I.set(1), C, ...tail(f), R, I.get(0), I.get(1), op(ty + '.copysign'), R].flat() }); m.func({ results: Array(5).fill(it), locals: [ty], body: [C, I.gset(0), C, I.set(0), C, I.call(g), I.get(0), R, I.gget(0), R, I.gget(1), R].flat(), name: 'main' });
    yield [`${ty} ${b.toString(16)} ${depth} above`, m.build(), Array(5).fill(it)]; }
  if (kind === 'frame') for (const ty of ['i32', 'i64', 'f32', 'f64', 'funcref']) for (const depth of [1, 2, 3]) for (const r of X(...[0, 1, 2, 3].map(() => ['-', 'z', 'n']))) { // two parameters and two locals of the frame `depth` calls above
    const m = new Mod(); const e = fns(m); const L = ty === 'funcref' ? FR : GT[ty]; const Z = L[0], N = L[2]; const w = r.flatMap((x, q) => (x === '-' ? [] : [x === 'z' ? Z : N, I.set(q)])); let f = e; for (let k = 1; k < depth; k++) f = m.func({ params: [], body: [I.call(f)].flat() });
    const g = m.func({ params: [ty, ty], locals: [ty, ty], results: [ty, ty, ty, ty], body: [...w, I.get(2), I.get(0), ...tail(f), I.get(1), I.get(3)].flat() }); m.func({ results: [ty, ty, ty, ty], body: [L[1], L[1], I.call(g)].flat(), name: 'main' });
    yield [`${ty} ${r.join('')} ${depth} above`, m.build(), [ty, ty, ty, ty]]; }
}
