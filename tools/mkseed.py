"""Writes and confirms planted bugs: python3 tools/mkseed.py FILE.py [id ...]

FILE.py defines SEEDS: {id: dict(property, edits=[(file, old, new)], demo=rust, needs, breaks)}.
Each is tried in a scratch copy of /repo: it must build, pass the tests, and its demo must
fail with the change and pass without it."""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

REPO = '/repo'
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_TERM_COLOR='never')
DEMO = r'''#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src" && cp "$here/demo.rs" "$tmp/src/main.rs" || exit 2
[ -f Cargo.lock ] && cp Cargo.lock "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
nobject-rs = { path = "$PWD" }
[workspace]
END
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$tmp/target"
cargo build --quiet --offline --manifest-path "$tmp/Cargo.toml" || exit 3
cd "$tmp" && timeout 60 "$tmp/target/debug/demo"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, capture_output=True, text=True, **kw)


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    ids = sys.argv[2:] or list(seeds)
    base = tempfile.mkdtemp(prefix='seed-')
    tree = os.path.join(base, 'repo')
    sh(['git', 'clone', '-q', REPO, tree], '/')
    ENV['CARGO_TARGET_DIR'] = os.path.join(base, 'target')
    added = sh(['git', 'diff', '-U0', 'ae48a81..HEAD'], REPO).stdout
    mine = {l[1:].strip() for l in added.splitlines() if l.startswith('+') and not l.startswith('+++')}
    try:
        for i in ids:
            s = seeds[i]
            sh(['git', 'checkout', '-q', '--', '.'], tree)
            for f, old, new in s['edits']:
                p = os.path.join(tree, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(i, 'edit matches', t.count(old), 'times in', f)
                    break
                open(p, 'w').write(t.replace(old, new))
            else:
                d = os.path.join(OUT, i)
                os.makedirs(d, exist_ok=True)
                diff = sh(['git', 'diff'], tree).stdout
                gone = [l[1:].strip() for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
                orig = [g for g in gone if g and g not in mine]
                t = sh(['cargo', 'test', '--offline', '--quiet'], tree)
                if t.returncode:
                    print(i, 'TESTS FAIL', re.findall(r'error.*|---- .* stdout', t.stdout + t.stderr)[:6])
                    shutil.rmtree(d)
                    continue
                open(os.path.join(d, 'patch.diff'), 'w').write(diff)
                open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
                os.chmod(os.path.join(d, 'demo.sh'), 0o755)
                open(os.path.join(d, 'demo.rs'), 'w').write(s['demo'].strip() + '\n')
                json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                          open(os.path.join(d, 'meta.json'), 'w'), indent=1)
                bad = sh(['bash', os.path.join(d, 'demo.sh')], tree)
                sh(['git', 'checkout', '-q', '--', '.'], tree)
                good = sh(['bash', os.path.join(d, 'demo.sh')], tree)
                ok = bad.returncode not in (0, 2, 3) and good.returncode == 0 and orig
                print(i, 'ok' if ok else 'NOT OK', 'patched', bad.returncode, 'clean', good.returncode, 'original lines', len(orig),
                      '' if ok else (bad.stderr[-600:] + good.stderr[-600:]))
    finally:
        shutil.rmtree(base)


main()
