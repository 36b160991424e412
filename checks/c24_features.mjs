// C24: nothing is half supported. Every opcode of every proposal the reference knows, with
// every form of immediates and every list of operands that makes it valid, reachable, dead or
// in a function never called, and every constant expression, and modules with parts of newer
// proposals: the module is refused when it is loaded, or it does what the reference does.
import { I, Mod, T, u, str } from '../lib/asm.mjs';
import { V, Chiwawa, Ref, Host, sameVals, jsToVal } from '../lib/host.mjs';
import { wasmPath } from '../lib/build.mjs';
import * as watch from '../lib/watch.mjs';

export const variants = ['tco', 'legacy'];
const fl = (b) => b.flat(Infinity);
// ---- opcodes: plain, and behind the prefixes GC, numeric/bulk, SIMD, threads
const OPC = []; for (let i = 0; i < 256; i++) if (i < 0xfb || i > 0xfe) OPC.push([i]); for (let i = 0; i < 0x20; i++) OPC.push([0xfb, ...u(i)]); for (let i = 0; i < 0x18; i++) OPC.push([0xfc, ...u(i)]); for (let i = 0; i < 0x114; i++) OPC.push([0xfd, ...u(i)]); for (let i = 0; i < 0x50; i++) OPC.push([0xfe, ...u(i)]);
const B16 = Array.from({ length: 16 }, (_, i) => (i * 5) % 32);
// shorter forms first
const IMM = [[], ...[0, 1, 2, 3].map((x) => [x]), ...[[0, 0], [0, 1], [1, 0], [1, 1], [2, 0], [3, 0], [4, 0], [0, 8], [2, 8]], ...[0, 1, 2, 3, 4].map((a) => [0x40 | a, 1, 0]), [0x42, 0, 8], [0, 0, 0], [1, 0, 1], [2, 8, 1], [3, 0, 1], [0x42, 1, 0, 1], B16, [0x40, 0x0b], [0x7f, 0x41, 5, 0x0b], [0x40, 0x05, 0x0b], [1, 0, 0], [2, 0, 0, 0], [1, 0x7f], [1, 0x70], [0x70], [0x6f], [0x6e], [0, 0, 0, 0x40], [0, 0, 0, 0, 0, 0, 0xf4, 0x3f], [0x40, 0, 0x0b], [0x40, 1, 2, 0, 0x0b], [0x6d], [0x6c]].sort((a, b) => a.length - b.length);
const KINDS = ['i32', 'i64', 'f32', 'f64', 'v128', 'funcref', 'externref'];
const PUSH = { i32: [[16, 3, 2], [1, 1000, 0]], i64: [[16, 3, 2], [-1, 0, 5]], f32: [[1.5, -2.25, 3], [-0.5, 1e9, 7]], f64: [[1.5, -2.25, 3], [-0.5, 1e19, 7]] };
function push(t, i, set) { if (t === 'v128') return [0xfd, 12, ...Array.from({ length: 16 }, (_, k) => (k * 37 + i * 11 + set * 101 + 3) & 255)]; if (t === 'funcref') return (i + set) & 1 ? I.ref_null('funcref') : I.ref_func(1); if (t === 'externref') return I.ref_null('externref'); return I[t](PUSH[t][set][i]); }
const LISTS = [[]]; for (let d = 0, from = 0; d < 3; d++) { const n = LISTS.length; for (; from < n; from++) for (const k of KINDS) LISTS.push([...LISTS[from], k]); }
const RES = [...['i32', 'i64', 'f32', 'f64'].map((t) => [t, []]), ['i64', [0xfd, 0x1d, 0]], ['i32', I.ref_is_null()]];
// a module with some of everything; `code` is the body of f, or of a function nobody calls
function base(code, result, place, mems) {
  const m = new Mod(); m.memory(1, 4); if (mems > 1) m.memory(1, 3, 'memory1'); m.table('funcref', 4, 6, 't0'); m.table('funcref', 3, undefined, 't1'); m.global('i32', true, I.i32(9), 'g0'); m.global('i64', true, I.i64(-9), 'g1');
  m.func({ body: fl([I.i32(100), I.i32(1), I.store('i32.store8')]) }); m.func({ results: ['i32'], body: I.i32(77) }); m.type(['i32'], ['i32']);
  const L = ['i32', 'i64', 'f32', 'f64'];
  if (place === 'here') m.func({ results: result ? [result] : [], locals: L, body: code, name: 'f' });
  else if (place === 'then' || place === 'nested') { const after = fl([I.i32(120), I.i32(17), I.store('i32.store8'), result ? (result === 'i32' ? I.i32(21) : I[result](22)) : []]), c = [...code, ...(result ? [0x1a] : [])]; m.func({ results: result ? [result] : [], locals: L, body: place === 'then' ? [...c, ...after] : fl([I.block('', [I.i32(1), I.if('', [...c, ...I.i32(124), ...I.i32(18), ...I.store('i32.store8')])].flat(Infinity)), after]), name: 'f' }); }
  else if (place === 'dead') m.func({ results: ['i32'], locals: L, body: [...I.i32(5), 0x0f, ...code, ...(result ? [0x1a] : []), ...I.i32(6)], name: 'f' });
  else { m.func({ results: ['i32'], locals: L, body: I.i32(5), name: 'f' }); m.func({ results: result ? [result] : [], locals: L, body: code }); }
  m.elem(I.i32(0), [0, 1]); m.elemRaw([1, 0, ...u(2), 1, 0]); m.elemRaw([3, 0, ...u(1), 1]); m.dataCount = true; m.datas.push([0, ...I.i32(0), 0x0b, ...u(64), ...Array.from({ length: 64 }, (_, i) => (i * 29 + 7) & 255)]); m.datas.push([1, 4, 1, 2, 3, 4]); if (mems > 1) m.datas.push([2, 1, ...I.i32(0), 0x0b, ...u(64), ...Array.from({ length: 64 }, (_, i) => (i * 31 + 5) & 255)]);
  return m.build();
}
const ok = (b) => WebAssembly.validate(b);
// every valid use of an opcode: [operand kinds, result index or -1]
function* uses(op, mems, tier) {
  const seen = [];
  for (const im of IMM) {
    if (seen.some((q) => q.every((x, i) => im[i] === x))) continue; // the opcode, and then others
    const code = [...op, ...im]; // nothing of what follows may be part of it
    if ((op[0] === 0x10 || op[0] === 0x12) && im[0] > 1) continue; // f itself: a recursion without end
    if (!ok(base([0x00, ...code, 0x00], null, 'here', mems)) || ![[], [0x1a], [0x1a, 0x1a]].some((z) => ok(base([0x00, ...code, ...z], null, 'here', mems)))) continue; seen.push(im); const good = new Set();
    for (const l of LISTS) { if (l.length > 1 && good.has(l.slice(2).join())) continue; // two operands too many
      const pre = fl(l.map((t, i) => push(t, i, 0))); if (!ok(base([...pre, ...code, 0x00], null, 'here', mems))) continue;
      if (ok(base([...pre, ...code], null, 'here', mems))) { good.add(l.join()); yield [code, l, -1]; continue; }
      for (let r = 0; r < RES.length; r++) if (ok(base([...pre, ...code, ...RES[r][1]], RES[r][0], 'here', mems))) { good.add(l.join()); yield [code, l, r]; break; }
    }
  }
}
// ---- constant expressions
const CE = { c1: I.i32(1), c5: I.i32(0x50000003), C: I.i64(0x5000000000000003n), f: I.f32(1.5), F: I.f64(2.5), add: [0x6a], sub: [0x6b], mul: [0x6c], Add: [0x7c], Sub: [0x7d], Mul: [0x7e], and: [0x71], fadd: [0x92], g0: I.gget(0), g1: I.gget(1), null: I.ref_null('funcref'), xnull: I.ref_null('externref'), rf: I.ref_func(0), nop: [1], wrap: [0xa7], eqz: [0x45], drop: [0x1a], v: [0xfd, 12, ...B16], get: I.get(0), call: I.call(0), i31: [0xfb, 28], eq: I.ref_null('funcref') };
const CEN = Object.keys(CE);
function ceMod(seq, where, ty) {
  const m = new Mod(); m.memory(1); const e = seq.flatMap((k) => CE[k]); m.table('funcref', 20, undefined, 't0'); m.func({ results: ['i32'], body: I.i32(8), name: 'h' });
  m.global('i32', false, I.i32(3), 'a'); m.global('i32', true, I.i32(4), 'b'); if (where === 'global') m.global(ty, false, e, 'x'); if (where === 'data') m.datas.push([0, ...e, 0x0b, 3, 1, 2, 3]); if (where === 'elem') m.elem(e, [0]); if (where === 'item') m.elemRaw([4, ...I.i32(2), 0x0b, 1, ...e, 0x0b]);
  m.func({ results: ['i32'], body: fl(where === 'global' && ty !== 'funcref' && ty !== 'v128' && ty !== 'externref' ? [I.gget(2), ...(ty === 'i32' ? [] : [I.set(0), I.i32(1)])] : [I.i32(1)]), locals: ty === 'i32' || !['i64', 'f32', 'f64'].includes(ty) ? [] : [ty], name: 'f' }); return m.build();
}
// ---- modules with parts of newer proposals, as sections
const sec = (id, b) => { const x = fl(b); return [id, ...u(x.length), ...x]; }; const H = [0, 0x61, 0x73, 0x6d, 1, 0, 0, 0];
const ft = (p, r) => [0x60, p.length, ...p, r.length, ...r]; const code = (...bs) => sec(10, [u(bs.length), bs.map((b) => { const x = [0, ...fl(b), 0x0b]; return [u(x.length), x]; })]);
const codeL = (loc, ...bs) => sec(10, [u(bs.length), bs.map((b) => { const x = [...loc, ...fl(b), 0x0b]; return [u(x.length), x]; })]);
const EXP = (...e) => sec(7, [u(e.length), e.map(([n, k, i]) => [str(n), k, i])]); const F = EXP(['f', 0, 0]), FM = EXP(['f', 0, 0], ['memory', 2, 0]);
const t1 = sec(1, [1, ft([], [0x7f])]), f1 = sec(3, [1, 0]), m1 = sec(5, [1, 0, 1]); const mk = (...s) => Uint8Array.from(fl([H, s]));
const two = (body, extra = []) => mk(t1, f1, sec(5, [2, 0, 1, 1, 2, 3]), EXP(['f', 0, 0], ['memory', 2, 0], ['m1', 2, 1]), sec(12, [3]), code(body), sec(11, [3, [0, I.i32(0), 0x0b, 4, 1, 2, 3, 4], [2, 1, I.i32(0), 0x0b, 4, 5, 6, 7, 8], [1, 4, 9, 10, 11, 12]]), ...extra);
const LD = (m) => [I.i32(0), 0x28, ...(m ? [0x42, m, 0] : [2, 0])];
export const PARTS = {
  'second memory unused': () => two(I.i32(3)), 'load from the second memory': () => two([LD(1)]), 'load from the first of two': () => two([LD(0)]), 'store to the second': () => two([I.i32(0), I.i32(99), 0x36, 0x42, 1, 0, LD(0)]), 'size of the second': () => two([0x3f, 1]), 'grow the second': () => two([I.i32(1), 0x40, 1]), 'grow the second beyond the first': () => two([I.i32(3), 0x40, 1]),
  'copy first to second': () => two([I.i32(8), I.i32(0), I.i32(4), 0xfc, 10, 1, 0, I.i32(8), 0x28, 0x42, 1, 0]), 'copy second to first': () => two([I.i32(8), I.i32(0), I.i32(4), 0xfc, 10, 0, 1, I.i32(8), 0x28, 2, 0]), 'fill the second': () => two([I.i32(0), I.i32(7), I.i32(4), 0xfc, 11, 1, LD(0)]), 'init the second': () => two([I.i32(0), I.i32(0), I.i32(4), 0xfc, 8, 2, 1, LD(0)]),
  'load from the second, dead': () => two([I.i32(1), 0x0f, LD(1)]), 'three memories': () => mk(t1, f1, sec(5, [3, 0, 1, 0, 2, 0, 3]), FM, code([0x3f, 2])), 'two empty memories': () => mk(t1, f1, sec(5, [2, 0, 0, 0, 1]), FM, code([0x3f, 0])), 'only the second exported': () => mk(t1, f1, sec(5, [2, 0, 1, 0, 2]), EXP(['f', 0, 0], ['memory', 2, 1]), code([0x3f, 0])),
  'shared memory': () => mk(t1, f1, sec(5, [1, 3, 1, 2]), F, code([0x3f, 0])), 'shared memory, atomic add': () => mk(t1, f1, sec(5, [1, 3, 1, 2]), F, code([I.i32(0), I.i32(5), 0xfe, 0x1e, 2, 0])), 'atomics on a plain memory': () => mk(t1, f1, m1, F, code([I.i32(0), I.i32(5), 0xfe, 0x1e, 2, 0, 0x1a, LD(0)])), fence: () => mk(t1, f1, m1, F, code([0xfe, 3, 0, I.i32(4)])), 'notify': () => mk(t1, f1, m1, F, code([I.i32(0), I.i32(1), 0xfe, 0, 2, 0])),
  memory64: () => mk(t1, f1, sec(5, [1, 4, 1]), F, code([I.i64(0), 0x28, 2, 0])), 'memory64 size': () => mk(t1, f1, sec(5, [1, 5, 1, 2]), F, code([0x3f, 0, 0xa7])), table64: () => mk(t1, f1, sec(4, [1, 0x70, 4, 2]), F, code([I.i32(1)])),
  'table with initialiser': () => mk(t1, f1, sec(4, [1, 0x40, 0, 0x70, 0, 2, 0xd2, 0, 0x0b]), F, code([I.i32(0), 0x25, 0, 0xd1])), 'table of externref': () => mk(t1, f1, sec(4, [1, 0x6f, 0, 2]), F, code([I.i32(0), 0x25, 0, 0xd1])), 'three tables': () => mk(t1, f1, sec(4, [3, 0x70, 0, 1, 0x70, 0, 2, 0x6f, 0, 3]), F, sec(9, [1, 2, 1, I.i32(1), 0x0b, 0, 1, 0]), code([I.i32(1), 0x25, 1, 0xd1])), 'table.size': () => mk(t1, f1, sec(4, [2, 0x70, 0, 1, 0x70, 0, 5]), F, code([0xfc, 16, 1])), 'table.grow': () => mk(t1, f1, sec(4, [1, 0x70, 0, 1]), F, code([0xd0, 0x70, I.i32(3), 0xfc, 15, 0])), 'table.copy': () => mk(t1, f1, sec(4, [1, 0x70, 0, 3]), F, sec(9, [1, 0, I.i32(0), 0x0b, 1, 0]), code([I.i32(1), I.i32(0), I.i32(1), 0xfc, 14, 0, 0, I.i32(1), 0x25, 0, 0xd1])), 'table.init': () => mk(t1, f1, sec(4, [1, 0x70, 0, 3]), F, sec(9, [1, 1, 0, 1, 0]), code([I.i32(1), I.i32(0), I.i32(1), 0xfc, 12, 0, 0, I.i32(1), 0x25, 0, 0xd1])), 'elem.drop': () => mk(t1, f1, sec(4, [1, 0x70, 0, 3]), F, sec(9, [1, 1, 0, 1, 0]), code([0xfc, 13, 0, I.i32(1)])),
  'return_call': () => mk(t1, sec(3, [2, 0, 0]), F, code([0x12, 1], I.i32(6))), 'return_call to itself': () => mk(sec(1, [1, ft([0x7f], [0x7f])]), f1, EXP(['f1', 0, 0]), code([I.get(0), 0x45, 0x04, 0x40, I.i32(4), 0x0f, 0x0b, I.get(0), I.i32(1), 0x6b, 0x12, 0])), 'return_call_indirect': () => mk(t1, sec(3, [2, 0, 0]), sec(4, [1, 0x70, 0, 2]), F, sec(9, [1, 0, I.i32(1), 0x0b, 1, 1]), code([I.i32(1), 0x13, 0, 0], I.i32(6))), 'return_call, dead': () => mk(t1, sec(3, [2, 0, 0]), F, code([I.i32(1), 0x0f, 0x12, 1], I.i32(6))),
  'tag and throw': () => mk(sec(1, [2, ft([], [0x7f]), ft([], [])]), f1, sec(13, [1, 0, 1]), F, code([0x08, 0])), 'try and catch': () => mk(sec(1, [2, ft([], [0x7f]), ft([], [])]), f1, sec(13, [1, 0, 1]), F, code([0x06, 0x7f, 0x08, 0, 0x07, 0, I.i32(5), 0x0b])), 'try_table': () => mk(sec(1, [2, ft([], [0x7f]), ft([], [])]), f1, sec(13, [1, 0, 1]), F, code([0x02, 0x40, 0x1f, 0x40, 1, 0, 0, 0, 0x08, 0, 0x0b, 0x0b, I.i32(5)])), 'unused tag': () => mk(sec(1, [2, ft([], [0x7f]), ft([], [])]), f1, m1, sec(13, [1, 0, 1]), F, code(I.i32(5))),
  'struct type': () => mk(sec(1, [2, ft([], [0x7f]), [0x5f, 1, 0x7f, 1]]), f1, F, code([0xfb, 1, 1, 0xfb, 2, 1, 0])), 'unused struct type': () => mk(sec(1, [2, ft([], [0x7f]), [0x5f, 1, 0x7f, 1]]), f1, F, code(I.i32(5))), 'array type': () => mk(sec(1, [2, ft([], [0x7f]), [0x5e, 0x7f, 1]]), f1, F, code([I.i32(3), 0xfb, 7, 1, 0xfb, 15])), 'recursive group': () => mk(sec(1, [1, 0x4e, 1, ft([], [0x7f])]), f1, F, code(I.i32(5))), 'subtype': () => mk(sec(1, [1, 0x50, 0, ft([], [0x7f])]), f1, F, code(I.i32(5))), i31: () => mk(t1, f1, F, code([I.i32(5), 0xfb, 28, 0xfb, 29])),
  'call_ref': () => mk(t1, sec(3, [2, 0, 0]), F, sec(9, [1, 3, 0, 1, 1]), code([0xd2, 1, 0x14, 0], I.i32(6))), 'ref.func': () => mk(t1, f1, F, sec(9, [1, 3, 0, 1, 0]), code([0xd2, 0, 0xd1])), 'ref.as_non_null': () => mk(t1, f1, F, code([0xd0, 0x70, 0xd4, 0xd1])), 'br_on_null': () => mk(t1, f1, F, code([0x02, 0x40, 0xd0, 0x70, 0xd5, 0, 0x1a, 0x0b, I.i32(5)])), 'typed reference local': () => mk(t1, f1, F, codeL([1, 1, 0x63, 0], [I.get(0), 0xd1])),
  'v128 local': () => mk(t1, f1, F, codeL([1, 1, 0x7b], I.i32(5))), 'v128 local used': () => mk(t1, f1, F, codeL([1, 1, 0x7b], [I.get(0), 0xfd, 0x1b, 0])), 'v128 type': () => mk(sec(1, [2, ft([], [0x7f]), ft([0x7b], [0x7b])]), sec(3, [2, 0, 1]), F, code(I.i32(5), I.get(0))), 'v128 call': () => mk(sec(1, [2, ft([], [0x7f]), ft([0x7b], [0x7b])]), sec(3, [2, 0, 1]), F, code([0xfd, 12, B16, I.call(1), 0xfd, 0x1b, 2], I.get(0))), 'v128 global': () => mk(t1, f1, sec(6, [1, 0x7b, 1, 0xfd, 12, B16, 0x0b]), F, code([I.gget(0), 0xfd, 0x1b, 1])), 'v128 global unused': () => mk(t1, f1, sec(6, [2, 0x7b, 1, 0xfd, 12, B16, 0x0b, 0x7f, 0, I.i32(3), 0x0b]), F, code([I.gget(1)])), 'v128 block': () => mk(t1, f1, F, code([0x02, 0x7b, 0xfd, 12, B16, 0x0b, 0xfd, 0x1b, 3])), 'v128 select': () => mk(t1, f1, F, code([0xfd, 12, B16, 0xfd, 12, B16.slice().reverse(), I.i32(0), 0x1b, 0xfd, 0x1b, 3])),
  'externref local': () => mk(t1, f1, F, codeL([1, 1, 0x6f], [I.get(0), 0xd1])), 'externref global': () => mk(t1, f1, sec(6, [1, 0x6f, 1, 0xd0, 0x6f, 0x0b]), F, code([I.gget(0), 0xd1])), 'externref elements': () => mk(t1, f1, sec(4, [1, 0x6f, 0, 2]), F, sec(9, [1, 6, 0, I.i32(0), 0x0b, 0x6f, 1, 0xd0, 0x6f, 0x0b]), code([I.i32(0), 0x25, 0, 0xd1])), 'externref block': () => mk(t1, f1, F, code([0x02, 0x6f, 0xd0, 0x6f, 0x0b, 0xd1])), 'externref call': () => mk(sec(1, [2, ft([], [0x7f]), ft([0x6f], [0x6f])]), sec(3, [2, 0, 1]), F, code([0xd0, 0x6f, I.call(1), 0xd1], I.get(0))),
  'imported memory': () => mk(t1, sec(2, [1, str('env'), str('memory'), 2, 0, 1]), f1, F, code([0x3f, 0])), 'imported table': () => mk(t1, sec(2, [1, str('env'), str('t'), 1, 0x70, 0, 1]), f1, F, code(I.i32(1))), 'imported global': () => mk(t1, sec(2, [1, str('env'), str('g'), 3, 0x7f, 0]), f1, F, code(I.gget(0))),
  'funcref global read': () => mk(t1, f1, sec(6, [1, 0x70, 1, 0xd2, 0, 0x0b]), F, code([I.gget(0), 0xd1])), 'funcref global written': () => mk(t1, f1, sec(6, [1, 0x70, 1, 0xd2, 0, 0x0b]), F, code([0xd0, 0x70, I.gset(0), I.i32(2)])), 'custom page size': () => mk(t1, f1, sec(5, [1, 8, 100, 0]), F, code([0x3f, 0])),
  'data count of zero': () => mk(t1, f1, m1, F, sec(12, [0]), code(I.i32(5))), 'empty sections': () => mk(t1, sec(2, [0]), f1, sec(4, [0]), m1, sec(6, [0]), F, sec(9, [0]), code(I.i32(5)), sec(11, [0])),
};
// must be accepted: what a custom section says is of no consequence
const CUSTOM = { 'name section that is garbage': [str('name'), 1, 0xff, 0xff, 0xff], 'name section cut': [str('name'), 1, 5, 1], 'empty name section': [str('name')], 'names of functions that are not there': [str('name'), 1, 5, 1, 99, 2, 0x61, 0x62], 'producers garbage': [str('producers'), 9, 9], 'target_features garbage': [str('target_features'), 255], 'dylink.0 garbage': [str('dylink.0'), 1, 2, 3], 'linking garbage': [str('linking'), 2, 0xff], 'reloc garbage': [str('reloc.CODE'), 1], 'sourceMappingURL': [str('sourceMappingURL'), 1], 'no name': [0], 'long': [str('x'.repeat(200)), Array(3000).fill(7)], 'branch hints': [str('metadata.code.branch_hint'), 1, 0, 1, 0, 1, 1], 'core dump': [str('core'), 1], 'component-type': [str('component-type'), 0] };
// components are not modules
const CH = [0, 0x61, 0x73, 0x6d, 0x0d, 0, 1, 0]; const COMPONENT = { empty: [], 'with a module inside': [1, ...u([...PARTS['data count of zero']()].length), ...PARTS['data count of zero']()], 'module sections': fl([t1, f1, m1, F, code(I.i32(5))]), custom: [0, 2, 1, 0x61], 'component type': [7, 1, 0] };

export const meta = {
  level: 'exploration', rule: 'one execution = one valid module offered to chiwawa: refused when loaded, or run, and then result or trap, memory, tables and globals compared with V8; non-trivial = modules which use the opcode, expression or part in question and which V8 accepts',
  bounds: (t) => [`opcodes: ${OPC.length} (one byte, and behind 0xfb 0xfc 0xfd 0xfe) x ${IMM.length} forms of immediates x every list of up to 3 operands of {${KINDS.join(', ')}} x 2 sets of values x {last, followed by others, within blocks, dead, never called} x one or two memories: whatever V8 validates`, `constant expressions: every sequence of up to ${t === 'thorough' ? 4 : 3} of ${CEN.length} instructions as initialiser of a global of each type, offset of a data or element segment, and element`, `${Object.keys(PARTS).length} modules with parts of newer proposals; ${Object.keys(CUSTOM).length} custom sections, before and after every section; ${Object.keys(COMPONENT).length} component binaries`],
  assumptions: ['V8 implements the proposals it accepts', 'accesses outside memory are left to C06 (known finding)'],
};
export async function plan(tier) {
  const jobs = []; for (const mems of [1, 2]) for (let i = 0; i < OPC.length; i += 8) jobs.push({ fam: 'op', from: i, to: Math.min(OPC.length, i + 8), mems, tier });
  for (const a of CEN) jobs.push({ fam: 'const', a, d: tier === 'thorough' ? 4 : 3 }); jobs.push({ fam: 'parts' }); return jobs;
}
export async function run(job) {
  const res = { evals: 0, nontrivial: 0, outcomes: {}, violations: [], samples: [] }; const bump = (k) => { res.outcomes[k] = (res.outcomes[k] ?? 0) + 1; }; const C = {};
  const look = (ref, c) => { // what can be seen from outside
    if (ref.x.memory) { let x; try { x = new Uint8Array(ref.x.memory.buffer); } catch { x = null; } const y = c.memBytes(); if (x && (x.length !== y.length || Buffer.compare(x, y))) return { memory: [x.length, y.length] }; }
    for (let t = 0, ts = null; ref.x['t' + t]; t++) { ts ??= c.tables(); const tb = ref.x['t' + t]; if (ts[t]?.length !== tb.length) return { table: t, expected: tb.length, got: ts[t]?.length }; for (let i = 0; i < tb.length; i++) if ((tb.get(i) === null) !== (ts[t][i].v === 0xffffffffn)) return { table: t, entry: i }; }
    if (ref.x.g0) { const gs = c.globals(); if (!sameVals([jsToVal(ref.x.g0.value, 'i32'), jsToVal(ref.x.g1.value, 'i64')], gs.slice(0, 2))) return { globals: gs.map(V.show) }; } return null;
  };
  const offer = (key, bytes, rt, opt = {}) => { for (const v of variants) {
    const kk = `${key}:${v}`; if (job.only && job.only !== kk) continue; watch.setKey(kk); res.evals++; if (!C[v] || C[v].dead) C[v] = new Chiwawa(wasmPath(v), new Host()); else C[v].fresh(new Host()); const c = C[v]; const l = c.load(bytes);
    const bad = (d) => { bump('bad'); if (res.violations.length < 60) res.violations.push({ key: kk, detail: d }); };
    if (opt.invalid) { bump(l.st === 'ok' ? 'bad' : 'not a module, refused'); if (l.st === 'ok') bad({ expected: 'refused', got: 'accepted' }); continue; } res.nontrivial++;
    if (l.st !== 'ok') { if (l.st === 'trap') c.dead = true; if (opt.must) bad({ expected: 'accepted', got: l.st, msg: l.msg }); else bump('refused when loaded'); continue; }
    let ref; try { ref = new Ref(bytes, new Host()); } catch (e) { if (e instanceof WebAssembly.RuntimeError || e instanceof WebAssembly.LinkError || e instanceof TypeError) { bad({ expected: 'instantiation fails: ' + e.message, got: 'instantiated' }); continue; } throw e; }
    { const d = look(ref, c); if (d) { bad({ initially: d }); continue; } }
    const a = ref.call(opt.name ?? 'f', opt.args ?? [], rt ? [rt] : []); if (a.st === 'trap' && /memory access out of bounds/.test(a.msg)) { bump('oob-skipped'); continue; }
    const b = c.call(opt.name ?? 'f', opt.args ?? []); const at = a.st === 'ok' ? 'ok' : 'trap', btt = b.st === 'ok' ? 'ok' : 'trap'; if (b.st === 'trap') c.dead = true;
    if (at !== btt || (at === 'ok' && !sameVals(a.vals, b.vals))) { bad({ expected: a.st === 'ok' ? a.vals.map(V.show) : a.msg, got: b.st === 'ok' ? b.vals.map(V.show) : (b.msg ?? b.st) }); continue; }
    const d = c.dead ? null : look(ref, c); if (d) { bad({ after: d }); continue; } bump('runs as the reference: ' + at); if (!res.samples.length) res.samples.push({ key: kk, outcome: at });
  } };
  const hex = (b) => Buffer.from(b).toString('hex');
  if (job.fam === 'op') for (let o = job.from; o < job.to; o++) { let n = 0; for (const [code, l, r] of uses(OPC[o], job.mems, job.tier)) {
    n++; const rt = r < 0 ? null : RES[r][0]; for (const set of job.mems > 1 ? [0] : [0, 1]) { const b = [...fl(l.map((t, i) => push(t, i, set))), ...code, ...(r < 0 ? [] : RES[r][1])]; const key = `op:${hex(code)}(${l}):${set}:${job.mems}`; offer(key + ':here', base(b, rt, 'here', job.mems), rt); if (!set && job.mems === 1) { for (const pl of ['then', 'nested']) offer(key + ':' + pl, base(b, rt, pl, job.mems), rt); offer(key + ':dead', base(b, rt, 'dead', job.mems), 'i32'); offer(key + ':uncalled', base(b, rt, 'uncalled', job.mems), 'i32'); } }
  } bump(n ? 'opcodes there are' : 'opcodes there are not'); }
  if (job.fam === 'const') { const rec = (s) => { for (const [where, tys] of [['global', ['i32', 'i64', 'f32', 'f64', 'v128', 'funcref', 'externref']], ['data', ['']], ['elem', ['']], ['item', ['']]]) for (const ty of tys) { const b = ceMod(s, where, ty); if (ok(b)) offer(`const:${where}${ty && ':' + ty}:${s.join(' ')}`, b, 'i32'); } if (s.length < job.d) for (const k of CEN) rec([...s, k]); }; rec([job.a]); }
  if (job.fam === 'parts') {
    for (const [k, f] of Object.entries(PARTS)) { const b = f(); if (!ok(b)) { bump('parts V8 does not know'); offer('part:' + k, b, 'i32', { invalid: true }); continue; } if (k === 'return_call to itself') offer('part:' + k, b, 'i32', { name: 'f1', args: [V.i32(5000)] }); else offer('part:' + k, b, 'i32'); }
    const S = [t1, f1, m1, F, code(I.i32(5))]; for (const [k, c] of Object.entries(CUSTOM)) for (let i = 0; i <= S.length; i++) offer(`custom:${k}:${i}`, mk(...S.slice(0, i), sec(0, c), ...S.slice(i)), 'i32', { must: true });
    for (const [k, c] of Object.entries(COMPONENT)) offer('component:' + k, Uint8Array.from([...CH, ...c]), null, { invalid: true });
  }
  return { job, ...res };
}
