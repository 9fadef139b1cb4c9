#!/usr/bin/env python3
"""Writes and confirms the planted bugs under /verif/seeded (see DESIGN.md).

usage: plant.py FILE.py [id ...]     FILE.py defines BUGS, a list of dicts with
    id, prop, needs, breaks, subs = [(file, old, new)], demo (Rust source), optional features, profile

For each: applies the substitutions to a scratch copy of /repo, checks that every removed line is the
original repository's, that the library builds and its stable tests pass, and that the demonstration passes
without and fails with the change; then writes patch.diff, demo.sh, main.rs and meta.json.
"""
import json, os, re, shutil, subprocess, sys, tempfile, runpy
SEEDED = '/verif/seeded'
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change; run with the repository as working directory
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER
tmp=$(mktemp -d) || exit 99
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/main.rs" "$tmp/src/main.rs"
cp "$here/Cargo.lock" "$tmp/Cargo.lock"
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
publish = false
[workspace]
[dependencies]
mixed-num = { path = "$repo"@FEATURES@ }
fixed = "=1.31.0"
typenum = "=1.20.1"
[dependencies.num]
version = "=0.4.3"
default-features = false
TOML
export CARGO_TARGET_DIR="$tmp/target"
cargo build --quiet --offline@PROFILE@ --manifest-path "$tmp/Cargo.toml" || exit 99
timeout 100 "$tmp/target/@DIR@/demo"
'''
KINDS = {
  'tsan': """unset RUSTUP_TOOLCHAIN
RUSTFLAGS=-Zsanitizer=thread cargo +nightly build --quiet --offline -Zbuild-std --release --target x86_64-unknown-linux-gnu --manifest-path "$tmp/Cargo.toml" || exit 99
TSAN_OPTIONS=halt_on_error=1:exitcode=66 timeout 100 "$tmp/target/x86_64-unknown-linux-gnu/release/demo"
""",
  'miri': """unset RUSTUP_TOOLCHAIN
export MIRI_SYSROOT="$tmp/sysroot"
cargo +nightly miri setup --quiet || exit 99
timeout 200 cargo +nightly miri run --quiet --offline --manifest-path "$tmp/Cargo.toml"
"""}
def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)

def tests(copy):
    log = copy + '/target/plant.log'
    with open(log, 'w') as f:
        r = subprocess.run('export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never CARGO_TARGET_DIR=%s/target; find src tests -name "*.rs" -exec touch {} +; timeout 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 8' % copy, shell=True, executable='/bin/bash', cwd=copy, stdout=f, stderr=subprocess.STDOUT)
    subprocess.run(['git', 'checkout', '-q', '--', 'figures'], cwd=copy)
    out = copy + '/target/plant.json'
    run(['python3', '/opt/vp/results.py', out, 'cargo:' + log], copy)
    try:
        res = json.load(open(out))
    except Exception:
        return None, open(log).read()[-1500:]
    return res, open(log).read()[-1500:]

def passed(res):
    # {"passed": [...], "failed": [...]}
    return set(res.get('passed', []))

def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    want = sys.argv[2:]
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = None
    for k in ('stable', 'passed', 'tests', 'stable_tests'):
        if isinstance(base.get(k), list): stable = set(base[k]); break
    assert stable, base.keys()
    copy = tempfile.mkdtemp(prefix='plant.')
    try:
        subprocess.run(['cp', '-a', '/repo/.', copy], check=True)
        run(['git', 'checkout', '-q', '--', '.'], copy)
        basec = run(['git', 'log', '--reverse', '--format=%h'], copy).stdout.split()[0]
        for b in bugs:
            if want and b['id'] not in want: continue
            ok = plant(b, copy, stable, basec)
            if not ok: shutil.rmtree('%s/%s' % (SEEDED, b['id']), ignore_errors=True)
            print(b['id'], 'OK' if ok else '*** REJECTED', flush=True)
            run(['git', 'checkout', '-q', '--', '.'], copy)
    finally:
        shutil.rmtree(copy)

def plant(b, copy, stable, basec):
    for (f, old, new) in b['subs']:
        p = copy + '/' + f
        s = open(p).read()
        if s.count(old) != 1:
            print('   %s: %d matches of %r' % (f, s.count(old), old)); return False
        open(p, 'w').write(s.replace(old, new))
    diff = run(['git', 'diff', '-U3'], copy).stdout
    # removed lines must be original
    rem = 0
    f = None; ln = 0
    for l in diff.splitlines():
        if l.startswith('--- a/'): f = l[6:]
        elif l.startswith('@@'): ln = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('---') or l.startswith('+++') or l.startswith('diff') or l.startswith('index'): pass
        elif l.startswith('-'):
            bl = run(['git', 'blame', '-s', '-L%d,%d' % (ln, ln), 'HEAD', '--', f], copy).stdout
            if not bl.lstrip('^').startswith(basec[:7]):
                print('   not original:', bl.strip()); return False
            rem += 1; ln += 1
        elif l.startswith('+') or l.startswith('\\'): pass
        else: ln += 1
    if rem == 0: print('   no original line changed'); return False
    res, log = tests(copy)
    if res is None: print('   no results', log); return False
    miss = stable - passed(res)
    if miss: print('   stable tests fail:', sorted(miss)[:8], log if len(miss) > 50 else ''); return False
    d = '%s/%s' % (SEEDED, b['id'])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/main.rs', 'w').write(b['demo'].strip() + '\n')
    shutil.copy('/verif/tools/demo.lock', d + '/Cargo.lock')
    prof = b.get('profile', 'dev')
    sh = DEMO.replace('@FEATURES@', (', features = %s' % json.dumps(b['features'])) if b.get('features') else '')
    sh = sh.replace('@PROFILE@', ' --release' if prof == 'release' else '').replace('@DIR@', 'release' if prof == 'release' else 'debug')
    if b.get('kind'): sh = sh[:sh.index('cargo build')] + KINDS[b['kind']]
    open(d + '/demo.sh', 'w').write(sh); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=2)
    open(d + '/meta.json', 'a').write('\n')
    w = run(['bash', d + '/demo.sh'], copy)
    if w.returncode in (0, 99): print('   demo with the change:', w.returncode, w.stderr[-600:]); return False
    run(['git', 'checkout', '-q', '--', '.'], copy)
    o = run(['bash', d + '/demo.sh'], copy)
    if o.returncode != 0: print('   demo on the unchanged tree:', o.returncode, o.stderr[-800:]); return False
    a = run(['git', 'apply', '--check', d + '/patch.diff'], copy)
    if a.returncode: print('   patch:', a.stderr); return False
    print('  ', (w.stderr.strip().splitlines() or ['(rc %d)' % w.returncode])[1 if len(w.stderr.strip().splitlines())>1 else 0][:200])
    return True
main()
