// Runs the product itself (chiwawa.wasm, no seam) as a process: a fresh instance of the
// command, its _start called once under a Host.
import { loadModule } from './host.mjs';
import { Host, Exit } from './wasi.mjs';
import { wasmPath } from './build.mjs';
import * as watch from './watch.mjs';

export function runCli(variant, host, args) {
  host.args = ['chiwawa', ...args]; const mod = loadModule(wasmPath('cli-' + variant)); let inst;
  inst = new WebAssembly.Instance(mod, { wasi_snapshot_preview1: host.imports(() => inst.exports.memory) });
  let st = 'exit', code = 0, msg = ''; watch.enter();
  try { inst.exports._start(); } catch (e) { if (e instanceof Exit) code = e.code; else if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) { st = 'trap'; code = 134; msg = e.message; } else throw e; } finally { watch.leave(); }
  return { st, code, msg, stdout: host.stdout(), stderr: host.stderr() };
}
export { Host };
