// Development tool: writes /verif/seeded/<id>/ from a definition {edit, guests, demo, meta}.
// The patch is produced by editing a scratch worktree of /repo. Not used by any check.
import fs from 'node:fs';
import path from 'node:path';
import { execFileSync } from 'node:child_process';
const V = path.dirname(path.dirname(new URL(import.meta.url).pathname));
const HEAD = `#!/bin/bash
# exit 0: chiwawa behaves as the property says; nonzero: it does not
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$W"' EXIT
cp "$D"/*.wasm "$W"/
export PATH=/opt/wasmtime/bin:$PATH
run() { local m=$1; shift; timeout 100 wasmtime run --dir "$W::." "target/vp/$m/wasm32-wasip1/release/chiwawa.wasm" "$@" 2>&1; }
bad=0
expect() { # expect MODE 'text that must be printed' ARGS...
  local m=$1 want=$2; shift 2; local out; out=$(run "$m" "$@")
  case "$out" in *"$want"*) ;; *) echo "$m $*: expected '$want', got: $out"; bad=1;; esac
}
refute() { # refute MODE 'text that must not be printed' ARGS...
  local m=$1 no=$2; shift 2; local out; out=$(run "$m" "$@")
  case "$out" in *"$no"*) echo "$m $*: must not print '$no', got: $out"; bad=1;; esac
}
relay() { # relay MODE 'text' ARGS...: checkpoint again and again, restoring in new processes
  local m=$1 want=$2; shift 2; local out n=0
  rm -f "$W/checkpoint.bin"; : > "$W/checkpoint.trigger"; out=$(run "$m" "$@" --cr)
  while [[ "$out" == *"stopped for checkpoint"* ]] && [ $n -lt 40 ]; do n=$((n+1)); : > "$W/checkpoint.trigger"; out=$(run "$m" "$@" --cr --restore checkpoint.bin); done
  [ $n -gt 0 ] || { echo "no checkpoint taken: $out"; bad=1; }
  case "$out" in *"$want"*) ;; *) echo "$m $* after $n checkpoints: expected '$want', got: $out"; bad=1;; esac
}
`;
export function plant(p) {
  const dir = path.join(V, 'seeded', p.id); fs.mkdirSync(dir, { recursive: true });
  const wt = "/tmp/plantwt"; if (!fs.existsSync(wt)) execFileSync("git", ["clone", "-q", "/repo", wt]); execFileSync("git", ["-C", wt, "fetch", "-q"]);
  execFileSync('git', ['-C', wt, 'checkout', '-q', '-f', '--detach', execFileSync('git', ['-C', '/repo', 'rev-parse', 'HEAD']).toString().trim()]);
  for (const [f, a, b] of p.edit) { const fn = path.join(wt, f); const s = fs.readFileSync(fn, 'utf8'); const n = s.split(a).length - 1; if (n !== 1) throw new Error(`${p.id}: ${n} matches in ${f}: ${a.slice(0, 60)}`); fs.writeFileSync(fn, s.replace(a, () => b)); }
  fs.writeFileSync(path.join(dir, 'patch.diff'), execFileSync('git', ['-C', wt, 'diff']));
  execFileSync('git', ['-C', wt, 'checkout', '-q', '-f', '--', '.']);
  for (const [n, m] of Object.entries(p.guests)) fs.writeFileSync(path.join(dir, n + '.wasm'), m.build ? m.build() : m);
  for (const [n, t] of Object.entries(p.files ?? {})) fs.writeFileSync(path.join(dir, n), t);
  fs.writeFileSync(path.join(dir, 'demo.sh'), HEAD + p.demo.trim() + '\nexit $bad\n', { mode: 0o755 });
  fs.writeFileSync(path.join(dir, 'meta.json'), JSON.stringify({ property: p.property, needs: p.needs, what_it_breaks: p.what }, null, 1) + '\n');
}
