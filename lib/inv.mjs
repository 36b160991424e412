// Byte strings that are nearly modules, family by family: [key, bytes, must be accepted if valid].
import { I, Mod, u, str, seq } from './asm.mjs';
const fl = (b) => b.flat(Infinity);
const HEAD = [0, 0x61, 0x73, 0x6d, 1, 0, 0, 0];
const S = (id, body) => [id, ...u(body.length), ...body];
export const LENS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 65536];
const PRE = { bom: [0xef, 0xbb, 0xbf], shebang: [...Buffer.from('#!/usr/bin/env chiwawa\n')], lf: [10], crlf: [13, 10], gzip: [0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3], zip: [0x50, 0x4b, 3, 4], ar: [...Buffer.from('!<arch>\n')], header: HEAD, magic: HEAD.slice(0, 4), component: [0, 0x61, 0x73, 0x6d, 0x0d, 0, 1, 0], custom: [0, 3, 1, 0x78, 1], text: [...Buffer.from('(module)')] };
// anything before, behind or between the sections
export function* around(bytes, sections, part) {
  const b = [...bytes]; const s = sections;
  if (part < 256) for (const n of LENS) { const p = Array(n).fill(part); if (n > 5000 && part % 51) continue; yield [`behind:${part}x${n}`, Uint8Array.from([...b, ...p])]; yield [`before:${part}x${n}`, Uint8Array.from([...p, ...b])]; if (n <= 33) for (let i = 0; i < s.length; i++) yield [`between${i}:${part}x${n}`, Uint8Array.from([...HEAD, ...s.slice(0, i).flatMap((x) => [...x]), ...p, ...s.slice(i).flatMap((x) => [...x])])]; }
  else {
    for (const [k, p] of Object.entries(PRE)) { yield [`before:${k}`, Uint8Array.from([...p, ...b])]; yield [`behind:${k}`, Uint8Array.from([...b, ...p])]; yield [`both:${k}`, Uint8Array.from([...p, ...b, ...p])]; for (let i = 0; i < s.length; i++) yield [`between${i}:${k}`, Uint8Array.from([...HEAD, ...s.slice(0, i).flatMap((x) => [...x]), ...p, ...s.slice(i).flatMap((x) => [...x])])]; }
    for (let i = 0; i < 65536; i += 1) if (i % 257 === 0 || i < 512 || (i & (i - 1)) === 0) { const h = b.slice(); h[4] = i & 255; h[5] = i >> 8; yield [`version:${i}`, Uint8Array.from(h)]; h[6] = h[4]; h[7] = h[5]; h[4] = 1; h[5] = 0; if (i) yield [`version:hi${i}`, Uint8Array.from(h)]; }
    yield ['twice', Uint8Array.from([...b, ...b])]; yield ['twice body', Uint8Array.from([...b, ...b.slice(8)])]; yield ['empty', new Uint8Array(0)]; yield ['only header', Uint8Array.from(HEAD)];
  }
}
// every way of writing an integer, at every place an integer stands
const bodyAt = { 'i32.const': [[0x41], [0x1a]], 'i64.const': [[0x42], [0x1a]], 'local.get': [[0x20], [0x1a]], 'local.set': [[0x41, 1, 0x21], []], 'local.tee': [[0x41, 1, 0x22], [0x1a]], 'global.get': [[0x23], [0x1a]], 'global.set': [[0x41, 1, 0x24], []], 'call': [[0x10], []], 'br': [[0x02, 0x40, 0x0c], [0x0b]], 'br_if': [[0x02, 0x40, 0x41, 0, 0x0d], [0x0b]], 'br_table n': [[0x02, 0x40, 0x41, 0, 0x0e], [0, 0x0b]], 'br_table label': [[0x02, 0x40, 0x41, 0, 0x0e, 1], [0, 0x0b]], 'br_table default': [[0x02, 0x40, 0x41, 0, 0x0e, 1, 0], [0x0b]], 'align': [[0x41, 0, 0x28], [0, 0x1a]], 'offset': [[0x41, 0, 0x28, 2], [0x1a]], 'store align': [[0x41, 0, 0x41, 0, 0x36], [0]], 'store offset': [[0x41, 0, 0x41, 0, 0x36, 2], []], 'load8 align': [[0x41, 0, 0x2c], [0, 0x1a]], 'load64 align': [[0x41, 0, 0x29], [0, 0x1a]], 'memory.size': [[0x3f], [0x1a]], 'memory.grow': [[0x41, 0, 0x40], [0x1a]], 'call_indirect type': [[0x41, 0, 0x11], [0]], 'call_indirect table': [[0x41, 0, 0x11, 0], []], 'block type': [[0x02], [0x0b]], 'loop type': [[0x03], [0x0b]], 'if type': [[0x41, 0, 0x04], [0x0b]], 'prefix fc': [[0x41, 0, 0x41, 0, 0x41, 0, 0xfc], [0, 0]], 'memory.init data': [[0x41, 0, 0x41, 0, 0x41, 0, 0xfc, 8], [0]], 'memory.init mem': [[0x41, 0, 0x41, 0, 0x41, 0, 0xfc, 8, 0], []], 'memory.copy 1': [[0x41, 0, 0x41, 0, 0x41, 0, 0xfc, 10], [0]], 'memory.copy 2': [[0x41, 0, 0x41, 0, 0x41, 0, 0xfc, 10, 0], []], 'memory.fill': [[0x41, 0, 0x41, 0, 0x41, 0, 0xfc, 11], []], 'table.get': [[0x41, 0, 0x25], [0x1a]], 'table.set': [[0x41, 0, 0xd0, 0x70, 0x26], []], 'table.fill': [[0x41, 0, 0xd0, 0x70, 0x41, 0, 0xfc, 17], []], 'table.size': [[0xfc, 16], [0x1a]], 'ref.func': [[0xd2], [0x1a]], 'ref.null': [[0xd0], [0x1a]], 'select t n': [[0x41, 0, 0x41, 0, 0x41, 0, 0x1c], [0x7f, 0x1a]], 'select t': [[0x41, 0, 0x41, 0, 0x41, 0, 0x1c, 1], [0x1a]] };
export const PLACES = Object.keys(bodyAt);
function place(k, enc) {
  const [a, z] = bodyAt[k]; const body = [...a, ...enc, ...z]; const code = [0, ...body, 0x0b];
  return Uint8Array.from([...HEAD, ...S(1, [1, 0x60, 0, 0]), ...S(3, [2, 0, 0]), ...S(4, [1, 0x70, 0, 3]), ...S(5, [1, 0, 1]), ...S(6, [1, 0x7f, 1, 0x41, 5, 0x0b]), ...S(7, [1, 1, 0x66, 0, 0]), ...S(9, [1, 0, 0x41, 0, 0x0b, 1, 0]), ...S(12, [1]), ...S(10, [2, ...u(code.length + 2), 1, 1, 0x7f, ...code.slice(1), 2, 0, 0x0b]), ...S(11, [1, 1, 1, 9])]);
}
export function* ints(k) {
  for (let n = 1; n <= 11; n++) for (const mid of n > 1 ? [0x80, 0x81, 0xff] : [0]) for (let x = 0; x < 256; x++) yield [`int:${k}:${n}:${mid}:${x}`, place(k, [...Array(n - 1).fill(mid), x]), !(k.endsWith('offset') && n > 5) && !['ref.func', 'ref.null', 'prefix fc', 'table.size', 'select t n'].includes(k)]; // (V8 reads offsets as 64-bit integers)
}
// sizes and counts of the sections written in more bytes than needed, and too large or small by a few
export function* sizes(bytes, sections) {
  const leb = (v, n) => { const r = []; for (let i = 0; i < n; i++) { r.push((v & 127) | (i < n - 1 ? 128 : 0)); v = Math.floor(v / 128); } return r; };
  const cat = (s) => Uint8Array.from([...HEAD, ...s.flatMap((x) => [...x])]);
  for (let i = 0; i < sections.length; i++) {
    const s = [...sections[i]]; let p = 1; while (s[p] & 128) p++; p++; const body = s.slice(p); let q = 0; while (body[q] & 128) q++; const count = body[0] & 127; const rest = body.slice(q + 1);
    const rep = (x) => cat([...sections.slice(0, i), x, ...sections.slice(i + 1)]);
    for (let n = 1; n <= 7; n++) { if (body.length < 128 ** n) yield [`size${i}:in${n}`, rep([s[0], ...leb(body.length, n), ...body])]; if (q === 0) { const b2 = [...leb(count, n), ...rest]; yield [`count${i}:in${n}`, rep([s[0], ...u(b2.length), ...b2])]; } for (let x = 0; x < 256; x += 1) if (n === 5) yield [`size${i}:5th${x}`, rep([s[0], ...leb(body.length, 5).slice(0, 4), x, ...body])]; }
    for (let d = -8; d <= 300; d++) if (d) { if (body.length + d >= 0) yield [`size${i}:${d}`, rep([s[0], ...u(body.length + d), ...body])]; if (q === 0 && count + d >= 0) { const b2 = [...u(count + d), ...rest]; yield [`count${i}:${d}`, rep([s[0], ...u(b2.length), ...b2])]; } }
    for (let id = 0; id < 256; id++) yield [`id${i}:${id}`, rep([id, ...s.slice(1)])];
    for (let n = 1; n <= 16; n++) for (const x of [0, 1, 0x0b, 0xff]) { const b2 = [...body, ...Array(n).fill(x)]; yield [`tail${i}:${x}x${n}`, rep([s[0], ...u(b2.length), ...b2])]; }
  }
}
// every constant expression of up to three instructions, at every place one stands
const CT = { i32: [0x41, 1], i64: [0x42, 1], f32: [0x43, 0, 0, 0x80, 0x3f], f64: [0x44, 0, 0, 0, 0, 0, 0, 0xf0, 0x3f], nullf: [0xd0, 0x70], nulle: [0xd0, 0x6f], func: [0xd2, 0], func1: [0xd2, 1], func9: [0xd2, 9], gi: [0x23, 0], gm: [0x23, 1], g9: [0x23, 9], gself: [0x23, 2], add: [0x6a], nop: [0x01], drop: [0x1a], get: [0x20, 0], blk: [0x02, 0x40, 0x0b], blki: [0x02, 0x7f, 0x41, 0, 0x0b], call: [0x10, 1], size: [0x3f, 0], load: [0x28, 2, 0], un: [0x00], ret: [0x0f], end: [0x0b], eqz: [0x45] };
export const CNAMES = Object.keys(CT); export const SITES = ['g.i32', 'g.i64', 'g.f32', 'g.f64', 'g.funcref', 'g.externref', 'elem', 'elem item', 'data'];
const TY = { i32: 0x7f, i64: 0x7e, f32: 0x7d, f64: 0x7c, funcref: 0x70, externref: 0x6f };
export function* consts(site, depth, imp) {
  const go = (toks) => {
    const e = [...toks.flatMap((t) => CT[t]), 0x0b]; const gl = [[0x7f, 1, 0x41, 3, 0x0b]]; if (site.startsWith('g.')) gl.push([TY[site.slice(2)], 0, ...e]);
    const el = site === 'elem' ? [0, ...e, 1, 0] : site === 'elem item' ? [5, 0x70, 1, ...e] : null;
    return Uint8Array.from([...HEAD, ...S(1, [1, 0x60, 0, 0]), ...(imp ? S(2, [1, 1, 0x65, 1, 0x67, 3, 0x7f, 0]) : []), ...S(3, [2, 0, 0]), ...S(4, [1, 0x70, 0, 4]), ...S(5, [1, 0, 1]), ...S(6, [gl.length, ...gl.flat()]), ...S(7, [1, 1, 0x66, 0, 0]), ...(el ? S(9, [1, ...el]) : []), ...S(10, [2, 2, 0, 0x0b, 2, 0, 0x0b]), ...(site === 'data' ? S(11, [1, 0, ...e, 1, 7]) : [])]);
  };
  const rec = function* (l) { yield [`const:${site}:${imp ? 'imp' : 'own'}:${l.join('.')}`, go(l)]; if (l.length < depth) for (const t of CNAMES) yield* rec([...l, t]); };
  yield* rec([]);
}
// names: every string of up to three bytes out of those where UTF-8 decides, and four after a lead of four
const UB = [0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xff];
export const LEADS = UB;
export function* names(lead) {
  const mod = (kind, nm) => { const m = new Mod(); if (kind === 'export') return Uint8Array.from([...HEAD, ...S(1, [1, 0x60, 0, 0]), ...S(3, [1, 0]), ...S(7, [1, ...u(nm.length), ...nm, 0, 0]), ...S(10, [1, 2, 0, 0x0b])]); return Uint8Array.from([...HEAD, ...S(0, [...u(nm.length), ...nm, 1, 2]), ...S(1, [1, 0x60, 0, 0]), ...S(3, [1, 0]), ...S(10, [1, 2, 0, 0x0b])]); };
  for (const kind of ['export', 'custom']) {
    const rec = function* (l, d) { yield [`name:${kind}:${l.join('.')}`, mod(kind, l), true]; if (l.length < d) for (const x of UB) yield* rec([...l, x], d); };
    yield* rec([lead], lead >= 0xf0 ? (kind === 'export' ? 4 : 3) : 3);
  }
}
// limits of memories and tables: every pair out of the magnitudes, with every flag byte
const MAGS = [0, 1, 2, 3, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 65537, 131072, 2 ** 24, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32, 2 ** 33, 2 ** 35 - 1];
export function* limits(kind) {
  for (const flag of [0, 1, 2, 3, 4, 5, 7, 8, 0x10, 0x40, 0x7f, 0x80]) for (const min of MAGS) for (const max of flag & 1 ? MAGS : [-1]) {
    if (kind === 'table' && min > 1e7) { if (!(flag & 1) || max >= min) continue; } // (a valid table of that size is only a matter of space)
    if (kind === 'memory' && min > 512 && min <= 65536) continue; const lim = [flag, ...u(min), ...(max >= 0 ? u(max) : [])];
    for (const ty of kind === 'table' ? [0x70, 0x6f, 0x7f, 0x40] : [0]) yield [`limits:${kind}:${flag}:${min}:${max}:${ty}`, Uint8Array.from([...HEAD, ...S(kind === 'table' ? 4 : 5, [1, ...(kind === 'table' ? [ty] : []), ...lim])])];
  }
}
// sections a tool may add, with any content: never a reason to refuse a valid module
export const CUSTOMS = ['name', 'producers', 'target_features', 'linking', 'reloc.CODE', 'reloc.DATA', 'dylink', 'dylink.0', 'sourceMappingURL', 'external_debug_info', '.debug_info', '.debug_line', 'build_id', 'component-type', 'metadata.code.branch_hint', 'core', 'corestack', ''];
const KB = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 0x41, 0x7f, 0x80, 0xfe, 0xff];
export function* customs(bytes, sections, name) {
  const rec = function* (l) { yield l; if (l.length < 2) for (const x of KB) yield* rec([...l, x]); };
  const nm = [...Buffer.from(name)]; const s = sections.map((x) => [...x]);
  const more = [[0, 2, 1, 0x78], [0, 5, 1, 0x78], [0, 3, 2, 0xff, 0xfe], [1, 4, 1, 0, 1, 0x66], [1, 4, 1, 99, 1, 0x66], [1, 7, 2, 1, 1, 0x66, 0, 1, 0x67], [1, 7, 2, 0, 1, 0x66, 0, 1, 0x67], [1, 0x80, 0x80, 0x80, 0x80, 0x10], [2, 6, 1, 0, 1, 0, 1, 0x78], [1, 4, 1, 0, 1, 0x66, 0, 2, 1, 0x78], Array(300).fill(0x80), Array(300).fill(0), [1, 8, 0x6c, 0x61, 0x6e, 0x67, 1, 1, 0x43, 0]];
  for (const c of [...rec([]), ...more]) for (const at of [0, s.length]) { const cs = S(0, [...u(nm.length), ...nm, ...c]); yield [`custom:${name}:${at ? 'end' : 'start'}:${c.slice(0, 12).join('.')}${c.length > 12 ? 'x' + c.length : ''}`, Uint8Array.from([...HEAD, ...s.slice(0, at).flat(), ...cs, ...s.slice(at).flat()]), true]; }
}
