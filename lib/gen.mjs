// Enumeration of every valid function body over a token alphabet.
// Plain token: {i:[types], o:[types], b:bytes}. '*' pops any type.
// Control token: {c:'block'|'loop'|'if'|'else'|'end'|'br'|'br_if'|'br_table'|'return'|'unreachable', ...}
//   block/loop/if: {p:[types], r:[types], b: bytes emitted (opcode + block type)}; `if` and `br_if`/`br_table` push their own condition.
//   br/br_if: {d:depth}; br_table: {ds:[depths], d:default}
// One token of dead code is allowed after a terminator (so that skipping dead code is exercised) unless opt.dead says otherwise.
const eq = (a, b) => a === '?' || b === '?' || a === b;
export function initState(results) { return { stack: [], ctl: [{ k: 'func', ins: [], outs: results, h: 0, un: false, dead: 0, else: false }] }; }
const clone = (s) => ({ stack: s.stack.slice(), ctl: s.ctl.map((f) => ({ ...f })) });
const top = (s) => s.ctl[s.ctl.length - 1];
function pop(s, t) { const f = top(s); if (s.stack.length === f.h) return f.un ? (t === '*' ? '?' : t) : null; const x = s.stack.pop(); if (t !== '*' && !eq(x, t)) return null; return x === '?' ? (t === '*' ? '?' : t) : x; }
function popAll(s, ts) { for (let k = ts.length - 1; k >= 0; k--) if (pop(s, ts[k]) === null) return false; return true; }
function unreach(s) { const f = top(s); s.stack.length = f.h; f.un = true; }
const labelTypes = (f) => (f.k === 'loop' ? f.ins : f.outs);
const label = (s, d) => s.ctl[s.ctl.length - 1 - d];
// does the top frame hold exactly its results?
function closes(s) { const t = clone(s); const f = top(t); return popAll(t, f.outs) && t.stack.length === f.h; }
export function applyTok(s0, d, opt) {
  const s = clone(s0); const f = top(s);
  if (f.un && d.c !== 'end' && d.c !== 'else') { if (++f.dead > (opt.dead ?? 1)) return null; }
  if (d.pre && !popAll(s, d.pre)) return null;
  switch (d.c) {
    case undefined: { if (!popAll(s, d.i)) return null; s.stack.push(...d.o); break; }
    case 'block': case 'loop': case 'if': { if (!popAll(s, d.p)) return null; if (s.ctl.length > (opt.nest ?? 3)) return null; s.ctl.push({ k: d.c, ins: d.p, outs: d.r, h: s.stack.length, un: false, dead: 0, else: false }); s.stack.push(...d.p); break; }
    case 'else': { if (f.k !== 'if' || f.else || !closes(s)) return null; s.stack.length = f.h; s.stack.push(...f.ins); f.un = false; f.dead = 0; f.else = true; break; }
    case 'end': { if (s.ctl.length === 1 || !closes(s)) return null; if (f.k === 'if' && !f.else && (f.ins.length !== f.outs.length || f.ins.some((t, i) => t !== f.outs[i]))) return null; s.stack.length = f.h; s.ctl.pop(); s.stack.push(...f.outs); break; }
    case 'br': { const l = label(s, d.d); if (!l || !popAll(s, labelTypes(l))) return null; unreach(s); break; }
    case 'br_if': { const l = label(s, d.d); if (!l) return null; const ts = labelTypes(l); if (!popAll(s, ts)) return null; s.stack.push(...ts); break; }
    case 'br_table': {
      const ls = [...d.ds, d.d].map((x) => label(s, x)); if (ls.some((l) => !l)) return null; const tn = labelTypes(ls[ls.length - 1]);
      for (const l of ls) { const ts = labelTypes(l); if (ts.length !== tn.length || ts.some((t, i) => t !== tn[i])) return null; }
      if (!popAll(s, tn)) return null; unreach(s); break;
    }
    case 'return': { if (!popAll(s, s.ctl[0].outs)) return null; unreach(s); break; }
    case 'unreachable': unreach(s); break;
    default: throw new Error(d.c);
  }
  return s.stack.length > (opt.maxStack ?? 4) ? null : s;
}
// yields token-name arrays of complete bodies of length 1..depth extending prefix
export function* bodies(A, toks, depth, opt, prefix = [], state = initState(opt.results ?? [])) {
  if (prefix.length && state.ctl.length === 1 && closes(state)) yield prefix;
  if (prefix.length >= depth) return;
  const left = depth - prefix.length;
  for (const t of toks) {
    const s = applyTok(state, A[t], opt); if (!s) continue;
    if (s.ctl.length - 1 > left - 1) continue; // cannot close every frame any more
    yield* bodies(A, toks, depth, opt, [...prefix, t], s);
  }
}
// all reachable prefixes of exactly n tokens (for sharding) plus the shorter complete bodies
export function shards(A, toks, n, depth, opt) {
  const out = [];
  const rec = (p, s) => { if (p.length === n) { out.push(p); return; } for (const t of toks) { const q = applyTok(s, A[t], opt); if (!q || q.ctl.length - 1 > depth - p.length - 1) continue; rec([...p, t], q); } };
  rec([], initState(opt.results ?? [])); return out;
}
export function stateAfter(A, p, opt) { let s = initState(opt.results ?? []); for (const t of p) s = applyTok(s, A[t], opt); return s; }
