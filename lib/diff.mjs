// Batch differential execution: many small guest functions, each run in chiwawa and in
// V8 from the same initial state; results, memory window and globals are compared.
import { Mod, I } from './asm.mjs';
import * as watch from './watch.mjs';
import { Chiwawa, Ref, Host, sameVals, sameVal, V } from './host.mjs';

export function hex(b) { return Buffer.from(b).toString('hex'); }

// programs: [{key, params, results, locals, body, args: [[vals]...]}]
// opt: {wasm, setup(m) -> {reset?: name}, win: bytes of memory compared/reset, initMem: Uint8Array}
export function runBatch(programs, opt, res) {
  const out = res ?? { evals: 0, outcomes: {}, violations: [], samples: [] };
  const bump = (k) => { out.outcomes[k] = (out.outcomes[k] ?? 0) + 1; };
  const CH = opt.chunk ?? 400; const chunks = []; for (let i = 0; i < programs.length; i += CH) chunks.push(programs.slice(i, i + CH));
  const work = chunks.slice();
  while (work.length) {
    const ps = work.pop();
    const m = new Mod(); const su = opt.setup ? opt.setup(m) : {};
    // helpers: extra functions of one program; body may be a function of {f: [function index], t: [table-0 slot]}
    let slot = 0;
    ps.forEach((p, i) => {
      const env = { f: [], t: [], ...(su.env ?? {}) };
      if (p.helpers) { env.self = m.nimp + m.funcs.length + p.helpers.length; for (const h of p.helpers) { env.f.push(m.func({ ...h, body: [] })); env.t.push(slot++); } p.helpers.forEach((h, k) => m.setBody(env.f[k], typeof h.body === 'function' ? h.body(env) : h.body)); if (opt.table) m.elem(I.i32(env.t[0]), env.f); }
      m.func({ params: p.params ?? [], results: p.results ?? [], locals: p.locals ?? [], body: typeof p.body === 'function' ? p.body(env) : p.body, name: 'p' + i });
    });
    if (opt.table) m.table('funcref', Math.max(1, slot), undefined, 'tab');
    const bytes = m.build();
    let ref, mod, done = 0; try { mod = new WebAssembly.Module(bytes); ref = new Ref(mod, opt.host ? opt.host() : new Host()); } catch (e) { if (ps.length > 1) { for (const p of ps) work.push([p]); continue; } throw new Error('generator produced an invalid module: ' + e.message + ' ' + ps[0].key); }
    watch.setKey(ps[0].key); const c = new Chiwawa(opt.wasm, opt.host ? opt.host() : new Host()); const l = c.load(bytes, opt.argv);
    if (l.st !== 'ok') {
      if (ps.length > 1) { const h = ps.length >> 1; work.push(ps.slice(0, h), ps.slice(h)); continue; }
      out.evals++; bump('load:' + l.st); out.violations.push({ key: ps[0].key, detail: { load: l.st, msg: l.msg } }); continue;
    }
    const win = opt.win ?? 0; const init = opt.initMem ?? new Uint8Array(win);
    for (let i = 0; i < ps.length; i++) {
      const p = ps[i]; watch.setKey(p.key);
      for (const args of p.args ?? [[]]) {
        if (opt.freshEach && done++) { ref = new Ref(mod, opt.host ? opt.host() : new Host()); c.fresh(opt.host ? opt.host() : new Host()); c.load(bytes, opt.argv); }
        if (c.dead) { c.fresh(opt.host ? opt.host() : new Host()); c.load(bytes, opt.argv); }
        if (win) { ref.memBytes().set(init, 0); c.memBytes().set(init, 0); }
        if (su.reset) { ref.x[su.reset](); c.call(su.reset); }
        const a = ref.call('p' + i, args, p.results ?? []);
        // accesses outside linear memory belong to the memory-trap check (C06); past one, chiwawa's own heap is undefined
        if (a.st === 'trap' && /memory access out of bounds/.test(a.msg)) { bump('oob-skipped'); continue; }
        const b = c.call('p' + i, args); out.evals++;
        let bad = null;
        if (a.st === 'trap') { bump('trap'); if (b.st !== 'trap' && b.st !== 'err') bad = { expected: 'trap', got: b.st, vals: b.vals?.map(V.show) }; } else if (a.st !== b.st) bad = { expected: a.st, vals: a.vals?.map(V.show), got: b.st, msg: b.msg };
        else if (!sameVals(a.vals, b.vals)) bad = { expected: a.vals.map(V.show), got: b.vals.map(V.show) };
        else bump('value');
        if (!bad && win && a.st === 'ok') { const x = ref.memBytes().subarray(0, win), y = c.memBytes().subarray(0, win); if (Buffer.compare(x, y)) bad = { memory: { expected: hex(x), got: hex(y) } }; }
        if (!bad && opt.wholeMem && a.st === 'ok') { const x = ref.memBytes(), y = c.memBytes(); if (x.length !== y.length) bad = { memorySize: { expected: x.length, got: y.length } }; else if (Buffer.compare(x, y)) { let q = 0; while (x[q] === y[q]) q++; bad = { memoryAt: q, expected: hex(x.subarray(q, q + 16)), got: hex(y.subarray(q, q + 16)) }; } }
        if (!bad && su.globals && (a.st === 'ok' || su.observeOnTrap) && (b.st === 'ok' || b.st === 'err')) { const gs = c.globals(); su.globals.forEach((g, k) => { const e = ref.x[g.name].value; const ev = V[g.t](g.t[0] === 'i' ? e : 0); if (g.t[0] === 'i' && !sameVal(ev, gs[k])) bad = { global: g.name, expected: V.show(ev), got: V.show(gs[k]) }; }); }
        if (!bad && su.observe && a.st === 'ok') { const x = ref.call(su.observe.name, [], su.observe.results), y = c.call(su.observe.name); if (x.st !== y.st || (x.st === 'ok' && !sameVals(x.vals, y.vals))) bad = { state: { expected: x.vals?.map(V.show) ?? x.st, got: y.vals?.map(V.show) ?? y.st } }; }
        if (bad) { out.violations.push({ key: p.key, detail: { ...bad, args: args.map(V.show) } }); break; }
        if (out.samples.length < 1 && out.evals > 20 && a.st === 'ok' && a.vals.length) out.samples.push({ program: p.key, args: args.map(V.show), result: a.vals.map(V.show) });
      }
    }
  }
  return out;
}
