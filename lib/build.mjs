// Builds the harness (and the CLI binary) from /repo's current working tree.
import { execFile } from 'node:child_process';
import fs from 'node:fs';
import path from 'node:path';
import crypto from 'node:crypto';

const VERIF = path.resolve(new URL('..', import.meta.url).pathname);
const REPO = process.env.MC_REPO ?? '/repo';
const BUILD = path.join(VERIF, '.build');
const BASE = '-C target-feature=+bulk-memory,+mutable-globals,+nontrapping-fptoint,+reference-types,+sign-ext';
const V = {
  // harness builds (poll seam on)
  tco: { pkg: 'harness', feats: ['tco'], flags: `${BASE},+multivalue,+tail-call --cfg chiwawa_mc` },
  legacy: { pkg: 'harness', feats: [], flags: `${BASE} --cfg chiwawa_mc` },
  'tco-obs': { pkg: 'harness', feats: ['tco', 'stats', 'trace'], flags: `${BASE},+multivalue,+tail-call --cfg chiwawa_mc` },
  'legacy-obs': { pkg: 'harness', feats: ['stats', 'trace'], flags: `${BASE} --cfg chiwawa_mc` },
  // the same, built with the repository's own release profile (fat LTO, one codegen unit): which calls are tail calls depends on it
  'tco-fat': { pkg: 'harness', fat: true, feats: ['tco'], flags: `${BASE},+multivalue,+tail-call --cfg chiwawa_mc` },
  'tco-obs-fat': { pkg: 'harness', fat: true, feats: ['tco', 'stats', 'trace'], flags: `${BASE},+multivalue,+tail-call --cfg chiwawa_mc` },
  // the product itself, no seam
  'cli-tco': { pkg: 'cli', feats: ['wasmtime', 'tco'], flags: `${BASE},+multivalue,+tail-call` },
  'cli-tco-obs': { pkg: 'cli', feats: ['wasmtime', 'tco', 'stats', 'trace'], flags: `${BASE},+multivalue,+tail-call` },
  'cli-legacy-obs': { pkg: 'cli', feats: ['wasmtime', 'stats', 'trace'], flags: BASE },
  'cli-legacy': { pkg: 'cli', feats: ['wasmtime'], flags: BASE },
};
export const wasmPath = (v) => path.join(BUILD, v, 'wasm32-wasip1/release', V[v].pkg === 'cli' ? 'chiwawa.wasm' : 'mc_harness.wasm');

function treeHash() {
  const h = crypto.createHash('sha256');
  const walk = (d) => { for (const e of fs.readdirSync(d, { withFileTypes: true }).sort((a, b) => (a.name < b.name ? -1 : 1))) { const p = path.join(d, e.name); if (e.isDirectory()) walk(p); else { h.update(p); h.update(fs.readFileSync(p)); } } };
  walk(path.join(REPO, 'src')); for (const f of ['Cargo.toml', 'Cargo.lock']) h.update(fs.readFileSync(path.join(REPO, f)));
  walk(path.join(VERIF, 'harness/src')); h.update(fs.readFileSync(path.join(VERIF, 'harness/Cargo.toml')));
  return h.digest('hex');
}
function env(flags, fat) {
  return { ...process.env, HOME: '/root', PATH: `/opt/wasmtime/bin:/root/.cargo/bin:/usr/local/cargo/bin:${process.env.PATH}`, RUSTUP_TOOLCHAIN: '1.97.0', RUSTUP_AUTO_INSTALL: '0', CARGO_NET_OFFLINE: 'true', CARGO_TERM_COLOR: 'never', CARGO_INCREMENTAL: '0', RUSTC_WRAPPER: '', CARGO_PROFILE_RELEASE_LTO: fat ? 'fat' : 'off', CARGO_PROFILE_RELEASE_CODEGEN_UNITS: fat ? '1' : '16', RUSTFLAGS: flags, CARGO_BUILD_RUSTFLAGS: '', CARGO_ENCODED_RUSTFLAGS: undefined };
}
const run = (cmd, args, opts) => new Promise((res) => execFile(cmd, args, { ...opts, maxBuffer: 1 << 28 }, (err, so, se) => res({ err, so, se })));

async function buildOne(v, hash) {
  const spec = V[v]; const dir = path.join(BUILD, v); fs.mkdirSync(dir, { recursive: true });
  const stamp = path.join(dir, 'stamp'); const out = wasmPath(v);
  if (fs.existsSync(stamp) && fs.existsSync(out) && fs.readFileSync(stamp, 'utf8') === hash) return;
  const e = env(spec.flags, spec.fat); for (const k of Object.keys(e)) if (e[k] === undefined) delete e[k];
  const manifest = spec.pkg === 'cli' ? path.join(REPO, 'Cargo.toml') : path.join(VERIF, 'harness/Cargo.toml');
  // cwd is VERIF so that /repo/.cargo/config.toml is not consulted; every setting is explicit
  if (fs.existsSync(path.join(dir, 'wasm32-wasip1'))) { // never trust mtimes: content changed, so recompile the crates under test
    await run('cargo', ['clean', '--release', '--target', 'wasm32-wasip1', '--target-dir', dir, '--manifest-path', manifest, '--offline', '-p', 'chiwawa', ...(spec.pkg === 'cli' ? [] : ['-p', 'mc-harness'])], { cwd: VERIF, env: e });
  }
  const args = ['build', '--release', '--target', 'wasm32-wasip1', '--target-dir', dir, '--manifest-path', manifest, '--offline', '--locked'];
  if (spec.pkg === 'cli') args.push('--bin', 'chiwawa');
  if (spec.feats.length) args.push('--features', spec.feats.join(','));
  const r = await run('cargo', args, { cwd: VERIF, env: e });
  if (r.err) { process.stderr.write(r.se); throw new Error(`build of variant ${v} failed`); }
  fs.writeFileSync(stamp, hash);
}
export async function ensure(variants) {
  fs.mkdirSync(BUILD, { recursive: true });
  const hash = treeHash();
  await Promise.all(variants.map((v) => buildOne(v, hash)));
}
if (process.argv[1] && path.resolve(process.argv[1]) === new URL(import.meta.url).pathname) {
  const vs = process.argv.slice(2); await ensure(vs.length ? vs : Object.keys(V)); console.log('built', (vs.length ? vs : Object.keys(V)).join(' '));
}
