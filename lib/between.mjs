// Every instruction, with every source of every operand and every use of the result, between
// values of every type: shared by the checks of translation and of checkpoints.
import { I, Mod, OPS, LOADS, STORES } from './asm.mjs';
import { V } from './host.mjs';
const TY = ['i32', 'i64', 'f32', 'f64', 'ref'];
export const IX = {}; // name -> {in, out, code(env)}
for (const o of Object.values(OPS)) IX[o.name] = { in: o.in, out: o.out[0], code: () => I.op(o.name) };
for (const n of Object.keys(LOADS)) IX[n] = { in: ['i32'], out: n.slice(0, 3), code: () => I.load(n, 20) };
for (const n of Object.keys(STORES)) IX[n] = { in: ['i32', n.slice(0, 3)], code: () => I.store(n, 20) };
TY.forEach((t, i) => {
  IX['drop ' + t] = { in: [t], code: () => I.drop() }; if (t !== 'ref') { IX['select ' + t] = { in: [t, t, 'i32'], out: t, code: () => I.select() }; IX['global.set ' + t] = { in: [t], code: () => I.gset(i) }; IX['global.get ' + t] = { in: [], out: t, code: () => I.gget(i) }; } IX['select t ' + t] = { in: [t, t, 'i32'], out: t, code: () => I.select_t(t === 'ref' ? 'funcref' : t) };
  for (const form of ['call', 'call_indirect']) { const w = form === 'call' ? (f) => I.call(f) : null; for (const k of ['id', 'none', 'two']) IX[`${form} ${k} ${t}`] = { in: [...(k === 'none' ? [] : [t]), ...(k === 'two' ? ['i32'] : []), ...(w ? [] : ['i32'])], out: t, slot: w ? -1 : { id: 4, none: 9, two: 14 }[k] + i, code: (e) => (w ? w(e[k][i]) : I.call_indirect(e['t' + k][i], 0)) }; }
});
Object.assign(IX, {
  'memory.size': { in: [], out: 'i32', code: () => I.size() }, 'memory.grow': { in: ['i32'], out: 'i32', code: () => I.grow() }, 'memory.fill': { in: ['i32', 'i32', 'i32'], code: () => I.mem_fill() }, 'memory.copy': { in: ['i32', 'i32', 'i32'], code: () => I.mem_copy() }, 'memory.init': { in: ['i32', 'i32', 'i32'], code: () => I.mem_init(0) },
  'table.get': { in: ['i32'], out: 'ref', code: () => I.tget(1) }, 'table.set': { in: ['i32', 'ref'], code: () => I.tset(1) }, 'table.fill': { in: ['i32', 'ref', 'i32'], code: () => I.tfill(1) }, 'ref.is_null': { in: ['ref'], out: 'i32', code: () => I.ref_is_null() }, 'ref.null': { in: [], out: 'ref', code: () => I.ref_null('funcref') },
  'sched_yield': { in: [], out: 'i32', code: () => I.call(0) }, 'fd_seek': { in: ['i32', 'i64', 'i32', 'i32'], out: 'i32', code: () => I.call(1) }, 'nop': { in: [], code: () => I.nop() }, 'data.drop': { in: [], code: () => I.data_drop(1) },
});
// locals: parameters 0..4 (i32 i64 f32 f64 i32), 5 a reference; 6..10 the result, by type; 11.. what is taken off the stack
const PAR = { i32: 0, i64: 1, f32: 2, f64: 3, ref: 5 };
const CONST = { i32: () => I.i32(3), i64: () => I.i64(9), f32: () => I.f32(2.5), f64: () => I.f64(3.5), ref: () => I.ref_null('funcref') };
const calc = (t, k) => (t === 'ref' ? [I.i32(k & 3), I.tget(1)] : [I.get(PAR[t]), I[t](k), I.op(t + '.add')]); // a value only a register can hold
const SRC = { r: (t, k) => calc(t, k), l: (t) => I.get(PAR[t]), c: (t) => CONST[t](), g: (t) => (t === 'ref' ? I.get(5) : I.gget(TY.indexOf(t))), m: (t, k) => (t === 'ref' ? [I.i32(2), I.tget(1)] : [I.i32(8 * (k & 3)), I.load(t + '.load', 32)]) };
export function ixForms(x, T3) { const S = x.in.length > (T3 ? 3 : 2) ? 'rlc' : 'rlcgm'; let f = ['']; for (const _ of x.in) f = f.flatMap((p) => [...S].map((s) => p + s)); return f; }
export function ixBody(x, srcs, dst, order, e) {
  const before = order ? [...TY].reverse() : TY, t = x.out, ti = TY.indexOf(t); const kinds = []; const code = []; const put = (ty, c) => { kinds.push(ty); code.push(c); };
  before.forEach((ty, i) => put(ty, calc(ty, 1 + i))); if (dst === 'store') code.push(I.i32(120));
  const mid = [x.in.map((ty, i) => (x.slot >= 0 && i === x.in.length - 1 ? (srcs[i] === 'c' ? I.i32(x.slot) : srcs[i] === 'l' ? [I.i32(x.slot), I.set(4), I.get(4)] : [I.get(0), I.i32(x.slot - 5), I.op('i32.add')]) : SRC[srcs[i]](ty, 10 + i))), x.code(e)]; const bt = t === 'ref' ? 'funcref' : t;
  const use = { stack: () => [mid], set: () => [mid, I.set(6 + ti)], tee: () => [mid, I.tee(6 + ti)], drop: () => [mid, I.drop()], gset: () => [mid, I.gset(ti)], store: () => [mid, I.store(t + '.store')], arg: () => [mid, I.call(e.id[ti])], if: () => [mid, I.if('', [I.i32(1), I.set(6)].flat(), [I.i32(2), I.set(6)].flat())], br_if0: () => I.block('', [mid, I.br_if(0), I.i32(3), I.set(6)].flat(Infinity)), br: () => I.block(bt, [mid, I.br(0)].flat(Infinity)), br_if: () => I.block(bt, [mid, I.get(0), I.br_if(0), I.drop(), calc(t, 30)].flat(Infinity)), block: () => I.block(bt, [mid].flat(Infinity)) };
  code.push(t ? use[dst]() : mid); if (t && ['stack', 'tee', 'arg', 'br', 'br_if', 'block'].includes(dst)) kinds.push(t);
  TY.forEach((ty, i) => put(ty, calc(ty, 5 + i)));
  // what is on the stack goes, from the top, into locals of its own, and these and all others into memory
  const locals = TY.map((y) => (y === 'ref' ? 'funcref' : y)); const tail = []; const out = []; let at = 256; const show = (ty, l) => { out.push(ty === 'ref' ? [I.i32(at), l, I.call(e.which), I.store('i32.store')] : [I.i32(at), l, I.store(ty + '.store')]); at += 8; };
  while (kinds.length) { const ty = kinds.pop(); locals.push(ty === 'ref' ? 'funcref' : ty); const l = 5 + locals.length; tail.push(I.set(l)); show(ty, I.get(l)); }
  TY.forEach((ty, i) => { show(ty, I.get(PAR[ty])); show(ty, I.get(6 + i)); if (i < 4) show(ty, I.gget(i)); }); show('i32', I.get(4));
  return { locals: ['funcref', ...locals], body: [I.i32(1), I.tget(1), I.set(5), code, tail, out].flat(Infinity) };
}
export const dests = (x) => (!x.out ? ['-'] : ['stack', 'set', 'tee', 'drop', 'arg', 'br', 'br_if', 'block', ...(x.out === 'ref' ? [] : ['gset', 'store']), ...(x.out === 'i32' ? ['if', 'br_if0'] : [])]);
export function ixSetup(m, alone) {
  m.importFunc('wasi_snapshot_preview1', 'sched_yield', [], ['i32']); m.importFunc('wasi_snapshot_preview1', 'fd_seek', ['i32', 'i64', 'i32', 'i32'], ['i32']); m.memory(1, 1); m.dataPassive(Array.from({ length: 64 }, (_, i) => 200 - i)); m.dataPassive([1]);
  const f = (t) => (t === 'ref' ? 'funcref' : t); const e = { m, id: [], none: [], two: [], tid: [], tnone: [], ttwo: [] }; const N = Array.from({ length: 8 }, (_, i) => m.func({ results: ['i32'], body: I.i32(70 + i) }));
  TY.slice(0, 4).forEach((t, i) => m.global(t, true, I[t](i + 6), 'g' + i));
  for (const t of TY) { e.id.push(m.func({ params: [f(t)], results: [f(t)], body: I.get(0) })); e.tid.push(m.type([f(t)], [f(t)])); } for (const t of TY) { e.none.push(m.func({ results: [f(t)], body: t === 'ref' ? [I.i32(3), I.tget(1)].flat() : I[t](41) })); e.tnone.push(m.type([], [f(t)])); } for (const t of TY) { e.two.push(m.func({ params: [f(t), 'i32'], results: [f(t)], body: I.get(0) })); e.ttwo.push(m.type([f(t), 'i32'], [f(t)])); }
  m.table('funcref', 40); m.table('funcref', 64); m.table('funcref', 1); m.table('funcref', 64); for (const t of [1, 3]) m.elemRaw([2, t, ...I.i32(0), 0x0b, 0, 64, ...Array.from({ length: 64 }, (_, i) => N[(i * 5) % 8])]); m.elem(I.i32(4), [...e.id, ...e.none, ...e.two]);
  e.which = m.func({ params: ['funcref'], results: ['i32'], body: [I.get(0), I.ref_is_null(), I.if('i32', I.i32(-1), [I.i32(0), I.get(0), I.tset(2), I.i32(0), I.call_indirect(m.type([], ['i32']), 2)].flat())].flat() });
  if (!alone) m.func({ body: [TY.slice(0, 4).map((t, i) => [I[t](i + 6), I.gset(i)]), Array.from({ length: 64 }, (_, i) => [I.i32(i), I.i32(i), I.tget(3), I.tset(1)])].flat(Infinity), name: 'reset' });
  return { reset: 'reset', env: e };
}
const Z = [0, 0, 0, 0, 0], NONE = { id: Z, none: Z, two: Z, tid: Z, tnone: Z, ttwo: Z, which: 0 };
export const ixLocals = (x, srcs, dst, order) => ixBody(x, srcs, dst, order, NONE).locals;
export const ixArgs = [V.i32(5), V.i64(6), V.f32(0x40e00000), V.f64(0x4020000000000000n), V.i32(2)];
export const ixMem = new Uint8Array(520); for (let i = 0; i < 32; i++) ixMem[i] = 3 * i + 1; for (let k = 0; k < 8; k++) ixMem[32 + 8 * k] = 7 + k; for (let i = 100; i < 256; i++) ixMem[i] = i;
// a module of its own: the memory is set by a data segment
export function ixModule(name, srcs, dst, order) { const m = new Mod(); const { env } = ixSetup(m, true); m.data(I.i32(0), ixMem); const g = ixBody(IX[name], srcs, dst, order, env); m.func({ params: ['i32', 'i64', 'f32', 'f64', 'i32'], locals: g.locals, body: g.body, name: 'p0' }); return m.build(); }

// ---- every signature of a block, loop, if or function, every way out of it, between values of every type
const leb = (n) => { const o = []; do { o.push((n & 127) | (n > 127 ? 128 : 0)); n >>= 7; } while (n); return o; };
const FT = (t) => (t === 'ref' ? 'funcref' : t); const lists = (n) => { let all = [[]], cur = [[]]; while (n--) { cur = cur.flatMap((l) => TY.map((t) => [...l, t])); all = all.concat(cur); } return all; };
export const sigs = (p, r) => lists(p).flatMap((a) => lists(r).map((b) => [a, b]));
export const SGFORMS = ['r', 'l', 'c', 'rl', 'lc', 'cr'];
export const OUTS = ['end', 'br', 'br_if taken', 'br_if not', 'br_table', 'outer', 'if 1', 'if 0', 'loop', 'fn end', 'fn return', 'fn br', 'fn br_if', 'fn br_table', 'fn inner return'];
export const junkOf = (out) => (['br', 'br_if taken', 'br_table', 'outer', 'fn return', 'fn br', 'fn br_if', 'fn br_table', 'fn inner return'].includes(out) ? [0, 1] : [0]);
export function sgBody([P, R], out, form, junk, e, indirect) {
  const kinds = []; const code = []; const put = (ty, c) => { kinds.push(ty); code.push(c); }; const fn = out.startsWith('fn'); const bt = () => (e.m ? { idx: e.m.type(P.map(FT), R.map(FT)) } : '');
  const vals = (l, k) => l.map((t, i) => SRC[form[i % form.length]](t, k + i));
  const eat = P.map((t, i) => I.set(6 + i)).reverse(); // into scratch locals of the right types
  const jk = junk ? TY.map((t, i) => (fn ? (t === 'ref' ? I.ref_null('funcref') : CONST[t]()) : calc(t, 40 + i))) : [];
  TY.forEach((ty, i) => put(ty, calc(ty, 1 + i))); code.push(vals(P, 10)); const rv = (k) => vals(R, k);
  const B = (...b) => b.flat(Infinity);
  if (!fn) code.push({
    end: () => I.block(bt(), B(eat, rv(20))), br: () => I.block(bt(), B(eat, jk, rv(20), I.br(0))), 'br_if taken': () => I.block(bt(), B(eat, jk, rv(20), I.get(4), I.br_if(0), I.unreachable())), 'br_if not': () => I.block(bt(), B(eat, rv(20), I.i32(0), I.br_if(0), R.map(() => I.drop()), rv(24))), br_table: () => I.block(bt(), B(eat, jk, rv(20), I.get(4), I.br_table([0, 0], 0))),
    outer: () => I.block(bt(), B(eat, jk, I.block('', B(rv(20), I.br(1))), I.unreachable())), 'if 1': () => B(I.get(4), I.if(bt(), B(eat, rv(20)), B(eat, rv(24)))), 'if 0': () => B(I.get(4), I.op('i32.eqz'), I.if(bt(), B(eat, rv(20)), B(eat, rv(24)))), loop: () => I.loop(bt(), B(eat, I.get(4), I.i32(1), I.op('i32.sub'), I.tee(4), I.if('', B(vals(P, 30), I.br(1))), rv(20))),
  }[out]()); else if (indirect && e.m) { const s = e.slot.n++; e.m.elemRaw([2, 4, ...I.i32(s), 0x0b, 0, 1, ...leb(e.f[0])]); code.push(I.i32(s), I.call_indirect(e.m.type(P.map(FT), R.map(FT)), 4)); } else code.push(I.call(e.f ? e.f[0] : 0));
  kinds.push(...R); TY.forEach((ty, i) => put(ty, calc(ty, 5 + i)));
  const locals = P.map(FT); while (locals.length < 2) locals.push('i32'); const tail = []; const o = []; let at = 256; const show = (ty, l) => { o.push(ty === 'ref' ? [I.i32(at), l, I.call(e.which), I.store('i32.store')] : [I.i32(at), l, I.store(ty + '.store')]); at += 8; };
  while (kinds.length) { const ty = kinds.pop(); locals.push(FT(ty)); const l = 5 + locals.length; tail.push(I.set(l)); show(ty, I.get(l)); }
  TY.forEach((ty) => show(ty, I.get(PAR[ty]))); P.forEach((ty, i) => show(ty, I.get(6 + i))); show('i32', I.get(4));
  return { locals: ['funcref', ...locals], body: B(I.i32(1), I.tget(1), I.set(5), code, tail, o) };
}
// the function called: it has all its values from its own parameters and from the table
export function sgHelper([P, R], out, form, junk) {
  const B = (...b) => b.flat(Infinity); const n = P.length; const own = (t, k, form) => { const i = P.indexOf(t); return t === 'ref' ? (i >= 0 && form === 'l' ? I.get(i) : [I.i32(k & 7), I.tget(1)]) : form === 'c' || i < 0 ? I[t](k) : form === 'l' ? I.get(i) : [I.get(i), I[t](k), I.op(t + '.add')]; };
  const rv = (k) => R.map((t, i) => own(t, k + i, form[i % form.length])); const jk = junk ? TY.map((t, i) => [own(t, 50 + i, form[0])]) : []; const one = [I.i32(1), I.set(n), I.get(n)];
  return { params: P.map(FT), results: R.map(FT), locals: ['i32'], body: { 'fn end': () => B(rv(20)), 'fn return': () => B(jk, rv(20), I.return()), 'fn br': () => B(jk, rv(20), I.br(0)), 'fn br_if': () => B(jk, rv(20), one, I.br_if(0), I.unreachable()), 'fn br_table': () => B(jk, rv(20), one, I.br_table([0], 0)), 'fn inner return': () => B(jk, I.block('', B(I.loop('', B(rv(20), I.return())))), I.unreachable()) }[out]() };
}
// as programs of lib/diff.mjs
export function sgSetup(m) { const s = ixSetup(m); m.table('funcref', 400); s.env.slot = { n: 0 }; return s; }
export function sgProgram(sig, out, form, junk, indirect) {
  const fn = out.startsWith('fn'); return { key: `sg:${sig.map((l) => l.join(',')).join('>')}:${out}:${form}${junk ? ':junk' : ''}${indirect ? ':indirect' : ''}`, params: ['i32', 'i64', 'f32', 'f64', 'i32'], args: [ixArgs], helpers: fn ? [sgHelper(sig, out, form, junk)] : undefined,
    locals: sgBody(sig, out, form, junk, { ...NONE, which: 0 }).locals, body: (e) => sgBody(sig, out, form, junk, e, indirect).body };
}
export function* sgPrograms(out, form, T) { for (const junk of junkOf(out)) for (const how of out.startsWith('fn') ? [0, 1] : [0]) for (const sig of T ? sigs(2, 3) : sigs(2, 2)) yield sgProgram(sig, out, form, junk, how); }
export function sgModule(sig, out, form, junk) { const m = new Mod(); const { env } = ixSetup(m, true); m.table('funcref', 4); env.slot = { n: 0 }; m.data(I.i32(0), ixMem); const p = sgProgram(sig, out, form, junk, 0); env.f = (p.helpers ?? []).map((h) => m.func(h)); m.func({ params: p.params, locals: p.locals, body: p.body(env), name: 'p0' }); return m.build(); }
// a few of them: no value, one, or two of different types, on either side
const FEW = [[], ...TY.map((t) => [t]), ...TY.map((t, i) => [t, TY[(i + 1) % 5]])]; export const sgFew = FEW.flatMap((a) => FEW.map((b) => [a, b]));
