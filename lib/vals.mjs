// Boundary values per type, as unsigned bit patterns (BigInt).
const dv = new DataView(new ArrayBuffer(8));
const f32 = (x) => { dv.setFloat32(0, x); return BigInt(dv.getUint32(0)); };
const f64 = (x) => { dv.setFloat64(0, x); return dv.getBigUint64(0); };
const uniq = (xs) => [...new Set(xs)];
const i32s = [0, 1, 2, 3, 5, 7, 8, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffd, 0xfffffffe, 0xffffffff, 0x55555555, 0xaaaaaaaa, 0x12345678, 0xff80, 0xff7f].map(BigInt);
const i64s = [0n, 1n, 2n, 3n, 7n, 31n, 32n, 33n, 62n, 63n, 64n, 65n, 127n, 128n, 255n, 0x7fffn, 0x8000n, 0xffffn, 0x7fffffffn, 0x80000000n, 0xffffffffn, 0x100000000n, 0x20000000000001n, 0x7ffffffffffffffen, 0x7fffffffffffffffn, 0x8000000000000000n, 0x8000000000000001n, 0xfffffffffffffffdn, 0xfffffffffffffffen, 0xffffffffffffffffn, 0x5555555555555555n, 0xaaaaaaaaaaaaaaaan, 0x123456789abcdef0n, 0xffffffff80000000n, 0xffffffff7fffffffn];
const fl = [0, 0.5, 1, 1.5, 2, 2.5, 3.5, 0.1, 100.25, 8388607.5, 8388608, 8388609, 16777217, 2147483520, 2147483648, 2147483904, 4294967040, 4294967296, 4294967808, 9007199254740991, 9223371487098961920, 9223372036854775808, 18446742974197923840, 18446744073709551616, 1e30, Infinity];
const f64x = [0.49999999999999994, 2147483647, 2147483647.5, 2147483648.5, 4294967295, 4294967295.5, 4503599627370495.5, 4503599627370497.5, 9007199254740993, 9223372036854774784, 18446744073709549568, 1e300, 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, 3.4028234663852886e38, 3.4028235677973366e38, 1.401298464324817e-45, 7.006492321624085e-46, 1.1754943508222875e-38, 1.1754942807573643e-38];
const f32s = uniq([...fl, ...fl.map((x) => -x)].map(f32).concat([0x3effffffn, 0xbeffffffn, 0x00000001n, 0x80000001n, 0x007fffffn, 0x00800000n, 0x80800000n, 0x7f7fffffn, 0xff7fffffn, 0x7fc00000n, 0xffc00000n, 0x7f800001n, 0xffabcdefn, 0xbf7fffffn, 0xcf000001n, 0x3f800001n]));
const f64s = uniq([...fl, ...f64x, ...fl.map((x) => -x), ...f64x.map((x) => -x)].map(f64).concat([0x7ff8000000000000n, 0xfff8000000000000n, 0x7ff0000000000001n, 0xfffabcdef0123456n, 0xbfefffffffffffffn, 0x3ff0000000000001n, 0xc1e00000001fffffn, 0xc1e0000000200000n, 0xc3e0000000000001n, 0x000fffffffffffffn]));
export const FULL = { i32: i32s, i64: i64s, f32: f32s, f64: f64s };
export const SMALL = {
  i32: [0n, 1n, 2n, 31n, 0x80n, 0x7fffffffn, 0x80000000n, 0xffffffffn, 0x12345678n], i64: [0n, 1n, 2n, 63n, 0xffffffffn, 0x7fffffffffffffffn, 0x8000000000000000n, 0xffffffffffffffffn, 0x123456789abcdef0n],
  f32: [f32(0), f32(-0), f32(1.5), f32(-2.5), f32(Infinity), 0x7fc00000n, 0x7f800001n, 0x00000001n], f64: [f64(0), f64(-0), f64(1.5), f64(-2.5), f64(-Infinity), 0x7ff8000000000000n, 0x7ff0000000000001n, 0x1n],
};
export const W = { i32: 4, i64: 8, f32: 4, f64: 8 };
export const isNaNBits = (t, v) => (t === 'f32' ? (v & 0x7fffffffn) > 0x7f800000n : t === 'f64' ? (v & 0x7fffffffffffffffn) > 0x7ff0000000000000n : false);
// results of these ops may be any NaN (spec non-determinism)
export const nanFree = (name) => /^f(32|64)\.(add|sub|mul|div|min|max|sqrt|ceil|floor|trunc|nearest|demote_f64|promote_f32)$/.test(name);

// long lists for sweeps
const memo = new Map(); const once = (k, f) => { if (!memo.has(k)) memo.set(k, f()); return memo.get(k); };
export const LINE = (t, deep = false) => once(`L${t}${deep}`, () => {
  const n = W[t] * 8; const N = BigInt(n); const M = (1n << N) - 1n; const out = new Set();
  if (t[0] === 'i') {
    const b = (i) => 1n << BigInt(i); const add = (x) => { out.add(x & M); out.add(~x & M); };
    for (let i = 0; i < n; i++) for (let j = i; j < n; j++) { for (let k = j; k < n; k++) add(b(i) | b(j) | b(k)); const run = (b(j - i + 1) - 1n) << BigInt(i); add(run); add(run + 1n); add(run - 1n); }
    for (const x of FULL[t]) add(x); // and what lies beside the middle of neighbouring floats
    if (n === 64) for (let e = 25; e < 64; e++) for (const [w, top] of [[24, b(23)], [24, b(23) | 1n], [24, b(24) - 1n], [53, b(52)], [53, b(52) | 1n], [53, b(53) - 1n]]) { if (e < w) continue; const u = b(e - w + 1) >> 1n; const m = (top << BigInt(e - w + 1)) | u; for (const d of [0n, 1n, -1n]) add(m + d); }
  } else {
    const mb = n === 32 ? 23 : 52, ex = n === 32 ? 256 : 2048; const MM = (1n << BigInt(mb)) - 1n; const man = new Set([0n]); const b = (i) => 1n << BigInt(i); for (let i = 0; i < mb; i++) { man.add(b(i)); if (deep && n === 32 || n === 32) for (let j = 0; j < i; j++) man.add(b(i) | b(j)); } for (const x of [...man]) man.add(~x & MM);
    if (n === 64) { for (const m of [0n, 1n, 0x7ffffen, 0x7fffffn]) for (const d of [0n, 1n, -1n]) man.add(((m << 29n) + (1n << 28n) + d) & MM); if (deep) for (let i = 0; i < mb; i++) for (let j = 0; j < i; j += 3) man.add(b(i) | b(j)); }
    for (const s of [0n, 1n]) for (let e = 0; e < ex; e++) for (const m of man) out.add((s << BigInt(n - 1)) | (BigInt(e) << BigInt(mb)) | m);
    for (const x of FULL[t]) out.add(x);
  }
  return [...out];
});
export const GRID = (t, deep = false) => once(`G${t}${deep}`, () => {
  const n = W[t] * 8; const M = (1n << BigInt(n)) - 1n; const b = (i) => 1n << BigInt(i); const out = new Set(FULL[t]);
  if (t[0] === 'i') { for (let i = 0; i < n; i++) for (const x of [b(i), b(i) - 1n, b(i) + 1n]) { out.add(x & M); if (deep || i % 4 === 3) out.add(~x & M); } } else {
    const mb = n === 32 ? 23 : 52, ex = n === 32 ? 256 : 2048, bias = ex / 2 - 1; const MM = b(mb) - 1n;
    for (const e of [0, 1, 2, bias - mb - 1, bias - mb, bias - 2, bias - 1, bias, bias + 1, bias + 2, bias + mb, bias + mb + 1, ex - 3, ex - 2, ex - 1]) for (const m of [0n, 1n, MM, b(mb - 1), ...(deep ? [2n, MM - 1n, b(mb - 1) | 1n, MM >> 1n] : [])]) for (const s of [0n, 1n]) out.add((s << BigInt(n - 1)) | (BigInt(e) << BigInt(mb)) | m);
  }
  return [...out];
});
