#!/usr/bin/env python3
"""Builds and verifies planted bugs.  usage: mkseed.py tools/seeds/BATCH.py [ID...]

A batch defines SEEDS = [dict(id, property, edits=[(file, old, new)...], needs, breaks, demo=rust main body)].
Each one is applied to a scratch copy of /repo, built, tested against the stable tests and demonstrated, and
kept as /verif/seeded/<id>/ only when all of that works out."""
import re, sys, os, json, subprocess, shutil, runpy
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = '/verif/seeded'
WT = '/tmp/seedwt'
PRE = open(HERE + '/seeds/prelude.rs').read()
DEMO = '''#!/bin/bash
# Runs the demonstration program beside this file against the crate in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
dir="$(mktemp -d)"
trap 'rm -rf -- "${dir:?}"' EXIT
mkdir "$dir/src"
cp "$here/main.rs.txt" "$dir/src/main.rs"
cat > "$dir/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
cmacro = { path = "$PWD" }
syn = "2"
T
export CARGO_TARGET_DIR="$dir/target" TMPDIR="$dir"
cargo build --quiet --offline --manifest-path "$dir/Cargo.toml" 2> "$dir/log" || { cat "$dir/log"; exit 3; }
timeout 60 "$dir/target/debug/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    want = sys.argv[2:]
    for s in seeds:
        if want and s['id'] not in want: continue
        sh(f'rm -rf {WT}/src'); os.makedirs(WT, exist_ok=True)
        if not os.path.isdir(WT + '/.git'): sh(f'cp -a /repo/. {WT}/')
        sh(f'git -C {WT} fetch -q /repo HEAD && git -C {WT} checkout -qf FETCH_HEAD && git -C {WT} reset -q --hard')
        ok = True
        base = sh(f'git -C {WT} rev-list --max-parents=0 HEAD').stdout.strip()
        for f, old, new in s['edits']:
            t = open(f'{WT}/{f}').read()
            if t.count(old) != 1: print(s['id'], 'EDIT', f, 'matches', t.count(old)); ok = False; break
            open(f'{WT}/{f}', 'w').write(t.replace(old, new))
        if not ok: continue
        diff = sh(f'git -C {WT} diff').stdout
        # changed lines must be original ones
        notorig = []
        for f, old, new in s['edits']:
            bl = sh(f'git -C {WT} blame -s {base}.. HEAD -- {f}').stdout
            d = sh(f'git -C {WT} diff -U0 -- {f}').stdout
            blame = sh(f'git -C {WT} blame -s HEAD -- {f}').stdout.split('\n')
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', d, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                for i in range(a, a + n):
                    if not blame[i-1].startswith('^'): notorig.append((f, i))
        if notorig: print(s['id'], 'warning: not original', notorig)
        d = f"{OUT}/{s['id']}"
        os.makedirs(d, exist_ok=True)
        open(d + '/main.rs.txt', 'w').write(PRE + '\nfn main() {\n' + s['demo'] + '\n}\n')
        open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
        open(d + '/patch.diff', 'w').write(diff)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        good = sh(f'bash {d}/demo.sh', cwd='/repo')
        bad = sh(f'bash {d}/demo.sh', cwd=WT)
        W = '/tmp/seedwork'
        if not os.path.isdir(W):
            sh(f'mkdir -p {W}/tests; cp /opt/vp/work/Cargo.* {W}/; ln -s {WT}/src {W}/src; ln -s {WT}/ReadMe.md {W}/ReadMe.md; cd {W}/tests; for f in {WT}/tests/*; do [ $(basename $f) = headers.rs ] || ln -s $f .; done')
        t = sh('cargo test --offline --no-fail-fast 2>&1 | tail -80', cwd=W, env={**os.environ, 'CARGO_TARGET_DIR': WT + '/target', 'CARGO_INCREMENTAL': '1'})
        fails = [l for l in t.stdout.split('\n') if 'FAILED' in l or 'error' in l or 'panicked' in l or ' failed' in l and '0 failed' not in l]
        st = 'ok' if good.returncode == 0 and bad.returncode not in (0, 3) and not fails else 'BAD'
        passed = sum(int(x) for x in re.findall(r'(\d+) passed', t.stdout))
        if passed < 97: st = 'BAD'
        print(s['id'], st, passed, 'clean', good.returncode, 'bug', bad.returncode, fails[:3])
        if good.returncode: print('  clean:', (good.stdout + good.stderr)[-600:])
        if bad.returncode in (0, 3): print('  bug:', (bad.stdout + bad.stderr)[-600:])
        if st != 'ok': shutil.rmtree(d)
main()
