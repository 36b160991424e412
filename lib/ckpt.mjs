// Checkpoint explorer. A guest run is cut at a chosen poll: the real runtime writes its
// image, a new process loads the same module, restores the image and carries on. The
// explorer enumerates the cut points and compares the outcome with the uncut run.
import { Chiwawa, Host, sameVals, V } from './host.mjs';
import * as watch from './watch.mjs';

export const show = (r) => (r.st === 'ok' ? r.vals.map(V.show).join(' ') : r.st === 'exit' ? `exit ${r.code}` : r.st + (r.msg ? ': ' + r.msg.slice(0, 80) : ''));
export const outcome = (r) => (r.st === 'err' ? 'trap' : r.st);
// the same outside world seen by the next process: files, output, input position, clock; descriptors start over
export function nextProcess(h) { const n = new Host({ args: h.args, env: h.env }); n.files = h.files; n.out = h.out; n.err = h.err; n.stdin = h.stdin; n.inpos = h.inpos; n.clock = h.clock; n.rnd = h.rnd; n.hook = h.hook; return n; }
export class Lab {
  constructor(wasmA, wasmB, bytes, opt = {}) { this.bytes = bytes; this.opt = opt; this.a = new Chiwawa(wasmA, this.host()); this.b = wasmB === wasmA && !opt.two ? null : null; this.wasmB = wasmB; this.b = new Chiwawa(wasmB, this.host()); this.la = 0; }
  host() { return this.opt.host ? this.opt.host() : new Host(); }
  start(host) { // a new process with the guest loaded
    if (this.a.dead || ++this.la % 256 === 0 || this.opt.freshA) this.a.fresh(host); else { this.a.host = host; this.rebind(this.a, host); }
    const l = this.a.load(this.bytes, this.opt.argv); if (l.st !== 'ok') throw new Error('load ' + l.st + ' ' + l.msg); return this.a;
  }
  rebind(c, host) { c.fresh(host); }
  state(c) { return { mem: Buffer.from(c.memBytes()), glob: c.globals(), tabs: c.tables() }; }
  uncut(g) {
    const h = this.host(); const c = this.start(h); let n = 0; c.poll = () => { n++; return 0; }; const r = c.call(g.name, g.args ?? [], 1);
    return { r, n, state: c.dead ? null : this.state(c), err: h.stderr(), host: h };
  }
  // run with a cut at poll k; returns {image, host} or the outcome if it never got there
  cut(g, k) {
    const h = this.host(); const c = this.start(h); c.poll = (i) => (i === k ? 1 : 0); const r = c.call(g.name, g.args ?? [], 1);
    return { r, image: r.st === 'ckpt' ? h.file('checkpoint.bin')?.slice() : null, host: h };
  }
  // restore an image in a new process and run it; fire(i) says whether to cut again
  resume(image, host, fire) {
    const h = nextProcess(host); const c = this.b; c.fresh(h); const l = c.load(this.bytes, this.opt.argv); if (l.st !== 'ok') throw new Error('load ' + l.st + ' ' + l.msg);
    let n = 0; c.poll = () => { n++; return fire && fire(n) ? 1 : 0; }; const r = c.restore(image, 1);
    return { r, n, image: r.st === 'ckpt' ? h.file('checkpoint.bin')?.slice() : null, state: c.dead || r.st === 'ckpt' || r.st === 'rejected' ? null : this.state(c), err: h.stderr(), host: h };
  }
  // null when b shows the same as the uncut run a
  diff(a, b) {
    if (b.r.st === 'rejected') return { expected: show(a.r), got: 'image rejected: ' + b.r.msg };
    if (outcome(a.r) !== outcome(b.r)) return { expected: show(a.r), got: show(b.r) };
    if (a.r.st === 'ok' && !sameVals(a.r.vals, b.r.vals)) return { expected: show(a.r), got: show(b.r) };
    if (a.r.st === 'exit' && a.r.code !== b.r.code) return { expected: show(a.r), got: show(b.r) };
    if (a.err !== b.err) return { output: { expected: a.err.slice(-200), got: b.err.slice(-200) } };
    if (a.state && b.state) {
      const x = a.state, y = b.state; if (x.mem.length !== y.mem.length) return { memorySize: { expected: x.mem.length, got: y.mem.length } };
      if (x.mem.compare(y.mem)) { let q = 0; while (x.mem[q] === y.mem[q]) q++; return { memoryAt: q, expected: x.mem.subarray(q, q + 16).toString('hex'), got: y.mem.subarray(q, q + 16).toString('hex') }; }
      if (!sameVals(x.glob, y.glob)) return { globals: { expected: x.glob.map(V.show).join(' '), got: y.glob.map(V.show).join(' ') } };
      if (x.tabs.length !== y.tabs.length || x.tabs.some((t, i) => !sameVals(t, y.tabs[i]))) return { tables: { expected: x.tabs.map((t) => t.map((v) => v.v.toString(16)).join(' ')), got: y.tabs.map((t) => t.map((v) => v.v.toString(16)).join(' ')) } };
    }
    return null;
  }
}
