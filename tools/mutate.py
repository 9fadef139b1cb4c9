#!/usr/bin/env python3
"""Random small changes of the library, to find what the monitors do not see (a development tool, not a check).

usage: mutate.py SEED COUNT [file substring]
Works on scratch copies under $MUT_DIR, or /tmp/mut (removed by hand). For each random change: the library must build
and pass its stable tests; then the monitors most likely to see it run first, then all others, in the
checked build and, if that is quiet, the release build. Prints which one saw it, or SURVIVED with the change.
"""
import json, os, random, re, shutil, subprocess, sys
M = os.environ.get('MUT_DIR', '/tmp/mut')
REPO, HAR, TGT = M + '/repo', M + '/harness', M + '/target'
_B = json.load(open('/opt/vp/BASELINE.json'))
STABLE = set(_B.get('stable', _B.get('passed', [])))
ORDER = {
 'complex/ops.rs': 'C01 C06 C05 C02 C04 C18 C11 C03', 'cartesian_impl.rs': 'C01 C03 C07 C04 C02 C09 C06 C05 C18', 'polar_impl.rs': 'C05 C06 C07 C03 C09',
 'num_complex_impl.rs': 'C19', 'fixed_impl.rs': 'C15 C09 C10 C11 C12 C08 C13 C14', 'float_impl.rs': 'C09 C10 C11 C07 C13 C08', 'f32_impl.rs': 'C16 C17 C12', 'f64_impl.rs': 'C16 C17 C12',
 'int_impl.rs': 'C09 C10 C11', 'trigonometry.rs': 'C14 C08 C11 C10', 'atan.rs': 'C13', 'sqrt.rs': 'C12', 'complex_traits.rs': 'C06', 'math_traits.rs': 'C10 C16', 'traits.rs': 'C10 C07', 'complex.rs': 'C01'}
ALL = ['C%02d' % i for i in range(1, 23)]

def setup():
    os.makedirs(M, exist_ok=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '/repo/', REPO + '/'], check=False) if shutil.which('rsync') else None
    if not os.path.isdir(REPO):
        shutil.copytree('/repo', REPO)
    if os.path.isdir(HAR):
        shutil.rmtree(HAR)
    shutil.copytree('/verif/harness', HAR)
    p = HAR + '/Cargo.toml'
    s = open(p).read().replace('path = "/repo"', 'path = "%s"' % REPO)
    open(p, 'w').write(s)
    if not os.path.isdir(TGT):
        os.makedirs(TGT)

SUBS = [(r'<=', '<'), (r'>=', '>'), (r'(?<![-<=>])<(?![<=>:-])(?=\s)', '<='), (r'(?<=\s)>(?=\s)', '>='), (r'(?<=[\w)\s])\+(?=[\w(\s])(?!=)', '-'), (r'(?<=[\w)\s])-(?=[\w(\s])(?![>=])', '+'),
        (r'(?<=[\w)])\*(?=[\w(])', '/'), (r'(?<=[\w)])/(?=[\w(])', '*'), (r'\+=', '-='), (r'-=', '+='), (r'\*=', '/='), (r'/=', '*='), (r'&&', '||'), (r'\|\|', '&&'),
        (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\.re\b', '.im'), (r'\.im\b', '.re'), (r'\.mag\b', '.ang'), (r'\.ang\b', '.mag'), (r'mixed_sin\b', 'mixed_cos'), (r'mixed_cos\b', 'mixed_sin'),
        (r'\bmixed_abs\b', 'clone'), (r'\bmixed_zero\b', 'mixed_one'), (r'\bmixed_one\b', 'mixed_zero'), (r'mixed_max_value', 'mixed_min_value'), (r'mixed_min_value', 'mixed_max_value'), (r'==', '!='), (r'!=', '=='),
        (r'\blibm::(\w+)f\(', None), (r'(?<![\w.])(\d+\.\d+)(?!\w)', 'num'), (r'(?<![\w.])([1-9]\d*)(?![\w.])', 'int'), (r'^\s+[\w.*]+\s*[-+*/]?=\s[^;]*;\s*$', 'delete'), (r'\(\s*-(?=\w)', '('), (r'return -', 'return '),
        (r'(?<=\bif )[^{;]+?(?=\s*\{|\s*$)', 'true'), (r'(?<=\bif )[^{;]+?(?=\s*\{|\s*$)', 'false'), (r'(?<=\bwhile )[^{;]+?(?=\s*\{|\s*$)', 'false'),
        (r'FRAC_PI_2', 'FRAC_PI_4'), (r'cordic::sin\b', 'cordic::cos'), (r'\bself\b(?=, other)', 'other'), (r'\bmixed_powi\(2\)', 'mixed_abs()'), (r'sign_plus', 'sign_minus'), (r'rhs\.re', 'self.re'), (r'\bf32\b', 'f64')]

def sites():
    out = []
    for d, _, fs in os.walk(REPO + '/src'):
        for f in fs:
            p = os.path.join(d, f)
            rel = p[len(REPO) + 1:]
            lines = open(p).read().split('\n')
            test = False
            for i, l in enumerate(lines):
                if '#[cfg(test)]' in l:
                    test = True
                if test or (f == 'fixed_impl.rs' and i > 374) or l.strip().startswith(('//', '#', 'use ', 'pub use', 'impl', 'where', 'mod ', 'pub mod', 'type ')):
                    continue
                code = l.split('//')[0]
                for k, (pat, _) in enumerate(SUBS):
                    for m in re.finditer(pat, code):
                        out.append((rel, i, k, m.start(), m.end()))
    return out

def mutated(line, k, a, b):
    pat, rep = SUBS[k]
    t = line[a:b]
    if rep is None: return None
    if rep == 'num': r = random.choice([repr(float(t) * 1.01), repr(float(t) * 1.0001), repr(float(t) * 0.5)])
    elif rep == 'int': r = str(int(t) + random.choice([1, -1]))
    elif rep == 'delete': return ''
    else: r = rep
    return line[:a] + r + line[b:]

ENV = dict(os.environ, HOME='/root', PATH='/root/.cargo/bin:' + os.environ['PATH'], CARGO_NET_OFFLINE='true', RUSTFLAGS='-Awarnings', CARGO_INCREMENTAL='0', CARGO_TERM_COLOR='never')
def tests_pass():
    env = dict(ENV, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_TARGET_DIR=M + '/ttarget', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
    with open(M + '/test.log', 'w') as f:
        try:
            subprocess.run('timeout 300 cargo test --workspace --no-fail-fast --offline -- --test-threads 8', shell=True, cwd=REPO, env=env, stdout=f, stderr=subprocess.STDOUT)
        except Exception:
            return None
    if 'could not compile' in open(M + '/test.log').read(): return None
    subprocess.run(['python3', '/opt/vp/results.py', M + '/res.json', 'cargo:' + M + '/test.log'])
    r = json.load(open(M + '/res.json'))
    return STABLE <= set(r.get('passed', []))

def seen(pid, profile):
    env = dict(ENV, CARGO_TARGET_DIR=TGT)
    flags = ['--profile', 'checked'] if profile == 'checked' else ['--release']
    r = subprocess.run(['cargo', 'build', '--offline', '--quiet', '--bin', pid.lower()] + flags + (['--features', 'std'] if pid == 'C19' and profile == 'release' else []), cwd=HAR, env=env, capture_output=True, text=True)
    if r.returncode: return 'does not build: ' + r.stderr[-300:]
    out = M + '/out.json'
    e = dict(ENV, VERIF_SEED='1', VERIF_TIER='quick', MON_PROFILE=profile, MON_OUT=out, MON_DEADLINE='100', VERIF_KNOWN='/verif/known_findings.txt', MON_DIGEST_DIR=M, MON_DICT=DICT)
    try:
        r = subprocess.run([f'{TGT}/{profile}/{pid.lower()}'], env=e, timeout=300, capture_output=True, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        return 'timeout'
    return None if r.returncode == 0 else f'rc {r.returncode}'

def main():
    global DICT
    seed, count = int(sys.argv[1]), int(sys.argv[2])
    want = sys.argv[3] if len(sys.argv) > 3 else ''
    setup()
    sys.path.insert(0, '/verif'); import check
    check.REPO = REPO
    all_ = [s for s in sites() if want in s[0]]
    random.seed(seed)
    random.shuffle(all_)
    done = 0
    for rel, i, k, a, b in all_:
        if done >= count: break
        p = REPO + '/' + rel
        src = open(p).read()
        lines = src.split('\n')
        new = mutated(lines[i], k, a, b)
        if new is None: continue
        old = lines[i]
        lines[i] = new
        open(p, 'w').write('\n'.join(lines))
        try:
            t = tests_pass()
            if not t: continue
            done += 1
            DICT = check.literals()
            first = next((v for kk, v in ORDER.items() if rel.endswith(kk)), '').split()
            hit = None
            for prof in ('checked', 'release'):
                for pid in first + [x for x in ALL if x not in first]:
                    r = seen(pid, prof)
                    if r: hit = (pid, prof, r); break
                if hit: break
            print(('seen by %s %s (%s)' % hit if hit else '*** SURVIVED'), f'{rel}:{i+1}: {old.strip()}  ->  {new.strip()}', flush=True)
        finally:
            open(p, 'w').write(src)
main()
