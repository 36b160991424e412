// What each preview1 function takes and gives back, as data, and a host which answers any
// of them from a script while writing down exactly what it was asked to do.
//   w W  scalar (i32, i64)        h b  scalar of 16 / 8 bits
//   P    path (pointer, length)   B    result buffer (pointer, length)
//   c    list of buffers to write (pointer, count)      i  list of buffers to fill
//   oN   pointer to a result of N bytes
//   q    poll_oneoff's (in, out, count)     A  argument vector (array, strings)  E  environment
export const SPEC = {
  args_get: ['A'], args_sizes_get: ['o4', 'o4'], environ_get: ['E'], environ_sizes_get: ['o4', 'o4'], clock_res_get: ['w', 'o8'], clock_time_get: ['w', 'W', 'o8'],
  fd_advise: ['w', 'W', 'W', 'b'], fd_allocate: ['w', 'W', 'W'], fd_close: ['w'], fd_datasync: ['w'], fd_fdstat_get: ['w', 'o24'], fd_fdstat_set_flags: ['w', 'h'], fd_fdstat_set_rights: ['w', 'W', 'W'],
  fd_filestat_get: ['w', 'o64'], fd_filestat_set_size: ['w', 'W'], fd_filestat_set_times: ['w', 'W', 'W', 'h'], fd_pread: ['w', 'i', 'W', 'o4'], fd_prestat_get: ['w', 'o8'], fd_prestat_dir_name: ['w', 'B'],
  fd_pwrite: ['w', 'c', 'W', 'o4'], fd_read: ['w', 'i', 'o4'], fd_readdir: ['w', 'B', 'W', 'o4'], fd_renumber: ['w', 'w'], fd_seek: ['w', 'W', 'b', 'o8'], fd_sync: ['w'], fd_tell: ['w', 'o8'], fd_write: ['w', 'c', 'o4'],
  path_create_directory: ['w', 'P'], path_filestat_get: ['w', 'w', 'P', 'o64'], path_filestat_set_times: ['w', 'w', 'P', 'W', 'W', 'h'], path_link: ['w', 'w', 'P', 'w', 'P'], path_open: ['w', 'w', 'P', 'h', 'W', 'W', 'h', 'o4'],
  path_readlink: ['w', 'P', 'B', 'o4'], path_remove_directory: ['w', 'P'], path_rename: ['w', 'P', 'w', 'P'], path_symlink: ['P', 'w', 'P'], path_unlink_file: ['w', 'P'],
  poll_oneoff: ['q', 'o4'], sched_yield: [], random_get: ['B'], sock_accept: ['w', 'h', 'o4'], sock_recv: ['w', 'i', 'h', 'o4', 'o2'], sock_send: ['w', 'c', 'h', 'o4'], sock_shutdown: ['w', 'b'],
};
const hex = (b) => Buffer.from(b).toString('hex');
// Answers a call from `script` {errno, count}: result buffers get bytes which depend on
// what they are, counts are count(available). Returns the errno; appends to `log`.
export function answer(name, a, m, script, log) {
  const spec = SPEC[name]; const rec = [name]; const fills = []; const outs = []; let k = 0, avail = 0; log.push(name); // recorded even if the ranges below lie nowhere
  for (const p of spec) {
    switch (p[0]) {
      case 'w': rec.push(a[k++] >>> 0); break; case 'W': rec.push(String(BigInt.asUintN(64, a[k++]))); break;
      case 'h': rec.push(a[k++] & 0xffff); break; case 'b': rec.push(a[k++] & 0xff); break;
      case 'P': rec.push('p' + hex(m.sl(a[k], a[k + 1]))); k += 2; break;
      case 'B': rec.push('b' + (a[k + 1] >>> 0)); fills.push([a[k], a[k + 1] >>> 0]); avail += a[k + 1] >>> 0; k += 2; break;
      case 'c': { const l = []; for (let i = 0; i < a[k + 1] >>> 0; i++) { const q = m.r32(a[k] + 8 * i), n = m.r32(a[k] + 8 * i + 4); l.push(n ? hex(m.sl(q, n)) : ''); avail += n; } rec.push(l); k += 2; break; }
      case 'i': { const l = []; for (let i = 0; i < a[k + 1] >>> 0; i++) { const q = m.r32(a[k] + 8 * i), n = m.r32(a[k] + 8 * i + 4); l.push(n); if (n) fills.push([q, n]); avail += n; } rec.push(l); k += 2; break; }
      case 'q': { const n = a[k + 2] >>> 0; rec.push(n, hex(m.sl(a[k], 48 * n))); fills.push([a[k + 1], 32 * n]); avail = n; k += 3; break; }
      case 'o': outs.push([a[k++], Number(p.slice(1))]); break;
      default: throw new Error(p);
    }
  }
  log[log.length - 1] = JSON.stringify(rec); if (script.errno) return script.errno;
  const lists = spec.some((p) => 'ciBq'.includes(p[0])); const count = lists ? script.count(avail) : 0; let left = spec.includes('q') ? Infinity : lists ? count : Infinity; let z = 1;
  for (const [p, n] of fills) { const d = m.sl(p, n); const t = Math.min(left, n); for (let i = 0; i < t; i++) d[i] = (z = (z * 37 + 11) & 255); left -= t; }
  let first = true;
  for (const [p, n] of outs) { const d = m.sl(p, n); if (first && lists) { for (let i = 0; i < n; i++) d[i] = Math.floor(count / 256 ** i) & 255; } else for (let i = 0; i < n; i++) d[i] = (z = (z * 53 + 29) & 255); first = false; }
  return 0;
}
// A Host hook which answers from the script. What the interpreter itself says on stderr
// (guests here never write to descriptor 2) and how it ends are not the guest's calls.
export const hookFor = (script, log) => (n, a, m) => (!SPEC[n] || (n === 'fd_write' && a[0] === 2) ? undefined : answer(n, a, m, script(), log));
