// In-memory WASI preview1 host under full control of the explorer.
// One Host object models the outside world (files, stdio, clock, randomness) and
// can serve either chiwawa (which forwards guest calls) or V8 running the guest
// directly (the reference).  Every call can be logged, scripted or made to fail.
export class Exit extends Error { constructor(code) { super('exit ' + code); this.code = code; } }

export const E = { OK: 0, BADF: 8, EXIST: 20, FAULT: 21, INVAL: 28, IO: 29, ISDIR: 31, NOENT: 44, NOSPC: 51, NOSYS: 52, NOTDIR: 54, PERM: 63, NOTCAPABLE: 76, AGAIN: 6, INTR: 27 };

// signatures of every preview1 function: name -> wasm param types (w=i32, W=i64)
export const SIG = {
  args_get: 'ww', args_sizes_get: 'ww', environ_get: 'ww', environ_sizes_get: 'ww', clock_res_get: 'ww', clock_time_get: 'wWw',
  fd_advise: 'wWWw', fd_allocate: 'wWW', fd_close: 'w', fd_datasync: 'w', fd_fdstat_get: 'ww', fd_fdstat_set_flags: 'ww', fd_fdstat_set_rights: 'wWW',
  fd_filestat_get: 'ww', fd_filestat_set_size: 'wW', fd_filestat_set_times: 'wWWw', fd_pread: 'wwwWw', fd_prestat_get: 'ww', fd_prestat_dir_name: 'www',
  fd_pwrite: 'wwwWw', fd_read: 'wwww', fd_readdir: 'wwwWw', fd_renumber: 'ww', fd_seek: 'wWww', fd_sync: 'w', fd_tell: 'ww', fd_write: 'wwww',
  path_create_directory: 'www', path_filestat_get: 'wwwww', path_filestat_set_times: 'wwwwWWw', path_link: 'wwwwwww', path_open: 'wwwwwWWww',
  path_readlink: 'wwwwww', path_remove_directory: 'www', path_rename: 'wwwwww', path_symlink: 'wwwww', path_unlink_file: 'www',
  poll_oneoff: 'wwww', proc_exit: 'w', proc_raise: 'w', sched_yield: '', random_get: 'ww', sock_accept: 'www', sock_recv: 'wwwwww', sock_send: 'wwwww', sock_shutdown: 'ww',
};

const dec = new TextDecoder('utf-8', { fatal: false });
const enc = new TextEncoder();
const norm = (p) => { const parts = []; for (const x of p.split('/')) { if (x === '' || x === '.') continue; if (x === '..') parts.pop(); else parts.push(x); } return parts.join('/'); };

const NOMEM = new ArrayBuffer(0); // a guest without memory
export class Host {
  constructor({ args = ['chiwawa'], env = [], files = {}, stdin = [] } = {}) {
    this.args = args; this.env = env; this.files = new Map(Object.entries(files).map(([k, v]) => [norm(k), { data: v, len: v.length }]));
    this.fds = new Map([[0, { k: 'in' }], [1, { k: 'out' }], [2, { k: 'err' }], [3, { k: 'dir', path: '' }]]);
    this.next = 4; this.out = []; this.err = []; this.stdin = Uint8Array.from(stdin); this.inpos = 0;
    this.clock = 1000n; this.rnd = 1; this.log = null; this.hook = null; this.ops = []; this.trackOps = false;
  }
  file(n) { const f = this.files.get(norm(n)); return f ? f.data.subarray(0, f.len) : undefined; }
  setFile(n, data) { this.files.set(norm(n), { data, len: data.length }); }
  delFile(n) { this.files.delete(norm(n)); }
  stdout() { return this.out.map((b) => Buffer.from(b).toString('latin1')).join(''); }
  stderr() { return this.err.map((b) => Buffer.from(b).toString('latin1')).join(''); }
  snapshot() { // cheap copy of the world (file bytes are copied on write by append path below)
    const h = new Host(); h.args = this.args; h.env = this.env;
    h.files = new Map([...this.files].map(([k, f]) => [k, { data: f.data.slice(0, f.len), len: f.len }]));
    h.fds = new Map([...this.fds].map(([k, v]) => [k, { ...v, file: v.file ? h.files.get(v.path) ?? v.file : undefined }])); h.next = this.next;
    h.out = this.out.slice(); h.err = this.err.slice(); h.stdin = this.stdin; h.inpos = this.inpos; h.clock = this.clock; h.rnd = this.rnd; return h;
  }
  // an independent copy of the world, sharing file bytes until they are written
  fork() { const h = new Host(); h.args = this.args; h.env = this.env; h.files = new Map([...this.files].map(([k, f]) => [k, { data: f.data, len: f.len, cow: true }])); h.out = this.out.slice(); h.err = this.err.slice(); h.stdin = this.stdin; h.inpos = this.inpos; h.clock = this.clock; h.rnd = this.rnd; h.hook = this.hook; return h; }
  _write(f, pos, chunk) {
    const need = pos + chunk.length;
    if (need > f.data.length || f.cow) { const n = new Uint8Array(Math.max(need, f.data.length * 2, 256)); n.set(f.data.subarray(0, f.len)); f.data = n; f.cow = false; }
    if (pos > f.len) f.data.fill(0, f.len, pos);
    f.data.set(chunk, pos); if (need > f.len) f.len = need;
  }

  // mem: () => WebAssembly.Memory
  imports(mem) {
    const H = this;
    let bufc = null, u8 = null, dv = null;
    const m = () => { const b = mem()?.buffer ?? NOMEM; if (b !== bufc) { bufc = b; u8 = new Uint8Array(b); dv = new DataView(b); } };
    const r32 = (p) => dv.getUint32(p >>> 0, true);
    const w32 = (p, v) => dv.setUint32(p >>> 0, v, true);
    const w64 = (p, v) => dv.setBigUint64(p >>> 0, BigInt.asUintN(64, BigInt(v)), true);
    const sl = (p, n) => { p >>>= 0; n >>>= 0; if (p + n > u8.length) throw new RangeError('oob'); return u8.subarray(p, p + n); };
    const pathOf = (fd, p, n) => { const d = H.fds.get(fd); if (!d || d.k !== 'dir') return null; const x = dec.decode(sl(p, n)); return norm((d.path ? d.path + '/' : '') + x); };
    const filestat = (p, f, isdir) => { for (let i = 0; i < 64; i++) u8[(p >>> 0) + i] = 0; w64(p + 8, 1); u8[(p >>> 0) + 16] = isdir ? 3 : 4; w64(p + 24, 1); w64(p + 32, f ? f.len : 0); };
    const F = {
      args_sizes_get: (a, b) => { w32(a, H.args.length); w32(b, H.args.reduce((x, y) => x + enc.encode(y).length + 1, 0)); return 0; },
      args_get: (a, b) => { a >>>= 0; b >>>= 0; for (const x of H.args) { const e = enc.encode(x); w32(a, b); a += 4; u8.set(e, b); u8[b + e.length] = 0; b += e.length + 1; } return 0; },
      environ_sizes_get: (a, b) => { w32(a, H.env.length); w32(b, H.env.reduce((x, y) => x + enc.encode(y).length + 1, 0)); return 0; },
      environ_get: (a, b) => { a >>>= 0; b >>>= 0; for (const x of H.env) { const e = enc.encode(x); w32(a, b); a += 4; u8.set(e, b); u8[b + e.length] = 0; b += e.length + 1; } return 0; },
      clock_res_get: (id, p) => { w64(p, 1000n); return 0; },
      clock_time_get: (id, prec, p) => { H.clock += 7n; w64(p, H.clock); return 0; },
      // a request of 16 bytes may be the interpreter's own (hash seeds, Rust std): it must not advance the world of the guest
      random_get: (p, n) => { const b = sl(p, n); if (b.length === 16) { for (let i = 0; i < 16; i++) b[i] = 90 + 37 * i; return 0; } for (let i = 0; i < b.length; i++) { H.rnd = (H.rnd * 1103515245 + 12345) & 0x7fffffff; b[i] = H.rnd >>> 16; } return 0; },
      sched_yield: () => 0,
      proc_exit: (c) => { throw new Exit(c); },
      fd_write: (fd, iovs, n, out) => {
        const d = H.fds.get(fd); if (!d) return E.BADF; let t = 0; const chunks = [];
        for (let i = 0; i < n; i++) { const p = r32(iovs + 8 * i), l = r32(iovs + 8 * i + 4); if (l) chunks.push(sl(p, l).slice()); t += l; }
        let lim = t; if (H.shortWrite && d.k === 'file') lim = Math.min(t, H.shortWrite(d, t));
        if (lim < 0) return -lim; let left = lim;
        for (let c of chunks) { if (left <= 0) break; if (c.length > left) c = c.subarray(0, left); left -= c.length;
          if (d.k === 'out') H.out.push(c); else if (d.k === 'err') H.err.push(c);
          else if (d.k === 'file') { H._write(d.file, d.pos, c); d.pos += c.length; } else return E.BADF; }
        w32(out, lim); return 0;
      },
      fd_read: (fd, iovs, n, out) => {
        const d = H.fds.get(fd); if (!d) return E.BADF; let t = 0;
        for (let i = 0; i < n; i++) {
          const p = r32(iovs + 8 * i), l = r32(iovs + 8 * i + 4); if (!l) continue;
          let src; if (d.k === 'in') { src = H.stdin.subarray(H.inpos, H.inpos + l); H.inpos += src.length; } else if (d.k === 'file') { src = d.file.data.subarray(d.pos, Math.min(d.file.len, d.pos + l)); d.pos += src.length; } else return d.k === 'dir' ? E.ISDIR : E.BADF;
          sl(p, l).set(src); t += src.length; if (src.length < l) break;
        }
        w32(out, t); return 0;
      },
      fd_close: (fd) => (H.fds.delete(fd) ? 0 : E.BADF),
      fd_seek: (fd, off, wh, p) => { const d = H.fds.get(fd); if (!d) return E.BADF; if (d.k !== 'file') return 70; const base = wh === 0 ? 0 : wh === 1 ? d.pos : d.file.len; const n = base + Number(off); if (n < 0) return E.INVAL; d.pos = n; w64(p, n); return 0; },
      fd_tell: (fd, p) => { const d = H.fds.get(fd); if (!d) return E.BADF; w64(p, d.pos ?? 0); return 0; },
      fd_fdstat_get: (fd, p) => { const d = H.fds.get(fd); if (!d) return E.BADF; for (let i = 0; i < 24; i++) u8[(p >>> 0) + i] = 0; u8[p >>> 0] = d.k === 'dir' ? 3 : d.k === 'file' ? 4 : 2; w64(p + 8, 0x1fffffffn); w64(p + 16, 0x1fffffffn); return 0; },
      fd_fdstat_set_flags: () => 0, fd_sync: (fd) => (H.fds.has(fd) ? 0 : E.BADF), fd_datasync: (fd) => (H.fds.has(fd) ? 0 : E.BADF),
      fd_prestat_get: (fd, p) => { if (fd !== 3) return E.BADF; w32(p, 0); w32(p + 4, 1); return 0; },
      fd_prestat_dir_name: (fd, p, n) => { if (fd !== 3) return E.BADF; u8[p >>> 0] = 46; return 0; },
      fd_filestat_get: (fd, p) => { const d = H.fds.get(fd); if (!d) return E.BADF; filestat(p, d.file, d.k === 'dir'); return 0; },
      path_filestat_get: (fd, fl, p, n, out) => { const x = pathOf(fd, p, n); if (x === null) return E.BADF; if (x === '') { filestat(out, null, true); return 0; } const f = H.files.get(x); if (!f) return E.NOENT; filestat(out, f, false); return 0; },
      path_open: (fd, df, p, n, ofl, rb, ri, fdf, out) => {
        const x = pathOf(fd, p, n); if (x === null) return E.BADF; let f = H.files.get(x);
        if (x === '') { const nf = H.next++; H.fds.set(nf, { k: 'dir', path: '' }); w32(out, nf); return 0; }
        if (!f) { if (!(ofl & 1)) return E.NOENT; f = { data: new Uint8Array(0), len: 0 }; H.files.set(x, f); if (H.trackOps) H.ops.push(['create', x]); } else if (ofl & 4) return E.EXIST;
        if (ofl & 8) { f = { data: new Uint8Array(0), len: 0 }; H.files.set(x, f); }
        const nf = H.next++; H.fds.set(nf, { k: 'file', path: x, file: f, pos: (fdf & 1) ? f.len : 0 }); w32(out, nf); return 0;
      },
      path_unlink_file: (fd, p, n) => { const x = pathOf(fd, p, n); if (x === null) return E.BADF; return H.files.delete(x) ? 0 : E.NOENT; },
      path_rename: (fd, p, n, fd2, p2, n2) => { const x = pathOf(fd, p, n), y = pathOf(fd2, p2, n2); const f = H.files.get(x); if (!f) return E.NOENT; H.files.delete(x); H.files.set(y, f); return 0; },
      poll_oneoff: (i, o, n, ne) => { const cnt = n >>> 0; for (let k = 0; k < cnt; k++) { for (let z = 0; z < 32; z++) u8[(o >>> 0) + 32 * k + z] = 0; for (let z = 0; z < 8; z++) u8[(o >>> 0) + 32 * k + z] = u8[(i >>> 0) + 48 * k + z]; u8[(o >>> 0) + 32 * k + 10] = u8[(i >>> 0) + 48 * k + 8]; } w32(ne, cnt); return 0; },
    };
    const out = {};
    for (const name of Object.keys(SIG)) {
      const f = F[name] ?? (() => E.NOSYS);
      out[name] = (...a) => {
        m();
        if (H.hook) { const r = H.hook(name, a, { u8, dv, r32, w32, w64, sl }, f); if (r !== undefined) return r; }
        return f(...a);
      };
    }
    return out;
  }
}
