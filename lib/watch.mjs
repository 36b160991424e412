// Progress record shared with the main thread, so that a guest which never returns is
// noticed (the worker is then ended and the program reported), not waited for.
export const SIZE = 8192;
let ctr = null, buf = null; const te = new TextEncoder();
export function attach(sab) { ctr = new Int32Array(sab, 0, 2); buf = new Uint8Array(sab, 8); }
export function setKey(key) { if (!buf) return; const r = te.encodeInto(key, buf.subarray(4)); new DataView(buf.buffer, 8).setUint32(0, r.written, true); }
export function enter() { if (ctr) { Atomics.add(ctr, 0, 1); Atomics.store(ctr, 1, 1); } }
export function leave() { if (ctr) Atomics.store(ctr, 1, 0); }
// main-thread side
export function look(sab) { const c = new Int32Array(sab, 0, 2); const b = new Uint8Array(sab, 8); const n = new DataView(sab, 8).getUint32(0, true); return { n: Atomics.load(c, 0), inside: Atomics.load(c, 1) === 1, key: Buffer.from(b.slice(4, 4 + n)).toString() }; }
