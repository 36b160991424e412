// Guests compiled by rustc and clang from guests/, for several optimisation levels and feature sets.
import { execFile } from 'node:child_process';
import crypto from 'node:crypto';
import fs from 'node:fs';
import path from 'node:path';

const VERIF = path.resolve(new URL('..', import.meta.url).pathname);
const OUT = path.join(VERIF, '.build', 'guests');
const rust = (o, f = '') => ({ src: 'real.rs', cmd: 'rustc', args: (out) => ['--target', 'wasm32-wasip1', '--edition', '2021', '-C', `opt-level=${o}`, '-C', 'panic=abort', '-C', 'strip=symbols', '-C', 'overflow-checks=on', '-C', 'link-arg=-zstack-size=65536', '-C', 'link-arg=--initial-memory=262144', ...(f ? ['-C', `target-feature=${f}`] : []), 'real.rs', '-o', out] });
const MV = ['-mcpu=generic', '-mbulk-memory', '-mnontrapping-fptoint', '-msign-ext', '-mmultivalue', '-Xclang', '-target-abi', '-Xclang', 'experimental-mv'];
const c = (o, f) => ({ src: 'gen.c', cmd: 'clang', args: (out) => ['--target=wasm32', '-nostdlib', '-ffreestanding', '-fno-builtin', `-O${o}`, ...f, '-fvisibility=hidden', '-Wl,--no-entry', '-Wl,--export-dynamic', '-Wl,-z,stack-size=16384', '-Wl,--initial-memory=131072', '-Wl,--strip-all', 'gen.c', '-o', out] });
export const RUST = { r0: rust('0'), r1: rust('1'), r2: rust('2'), r3: rust('3'), rs: rust('s'), rz: rust('z'), rmvp: rust('2', '-bulk-memory,-sign-ext,-nontrapping-fptoint,-multivalue,-reference-types') };
export const C = {}; for (const o of ['0', '1', '2', '3', 's', 'z']) { C[`c${o}mvp`] = c(o, ['-mcpu=mvp']); C[`c${o}mv`] = c(o, MV); }
export const GO = { go: { src: 'go/main.go', cwd: 'go', cmd: 'go', env: { GOCACHE: path.join(VERIF, '.build', 'gocache'), GOTOOLCHAIN: 'local', GOFLAGS: '-mod=mod', GOPROXY: 'off', GOOS: 'wasip1', GOARCH: 'wasm' }, args: (out) => ['build', '-trimpath', '-buildvcs=false', '-ldflags=-s -w -buildid=', '-o', out, '.'] } };
const ALL = { ...RUST, ...C, ...GO };
export const guestPath = (n) => path.join(OUT, n + '.wasm');
export async function ensureGuests(only) {
  fs.mkdirSync(OUT, { recursive: true }); const dir = path.join(VERIF, 'guests');
  const env = { ...process.env, HOME: '/root', PATH: `/root/.cargo/bin:/usr/local/cargo/bin:${process.env.PATH}`, RUSTUP_TOOLCHAIN: '1.97.0', RUSTUP_AUTO_INSTALL: '0', RUSTFLAGS: '' };
  await Promise.all(Object.entries(ALL).filter(([n]) => !only || only.includes(n)).map(([n, g]) => new Promise((ok, no) => {
    const out = guestPath(n), tmp = out + '.tmp'; const h = crypto.createHash('sha256').update(fs.readFileSync(path.join(dir, g.src))).update(JSON.stringify([g.cmd, g.args('')])).digest('hex'); const stamp = out + '.stamp';
    if (fs.existsSync(out) && fs.existsSync(stamp) && fs.readFileSync(stamp, 'utf8') === h) return ok();
    execFile(g.cmd, g.args(tmp), { cwd: path.join(dir, g.cwd ?? ''), env: { ...env, ...g.env }, maxBuffer: 1 << 26 }, (e, so, se) => { if (e) return no(new Error(`guest ${n}: ${se || e}`)); fs.renameSync(tmp, out); fs.writeFileSync(stamp, h); ok(); });
  })));
}
