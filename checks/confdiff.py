#!/usr/bin/env python3
"""C25: behaviour does not depend on the configuration (see confdiff/src/main.rs).

  confdiff.py build
  confdiff.py check C25 quick|thorough
  confdiff.py replay FILE

Three parts: histories run on many instantiations of one build (node sizes, feature parameters, index
widths); the same histories run on builds of the crate with different optional features, optimisation,
assertions and toolchain; construction with permitted and refused node sizes.
"""
import fcntl, hashlib, json, os, random, re, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.environ.get('VERIF_SEED', '1')
CRATE = os.path.join(ROOT, 'confdiff')
TMP = os.path.join(ROOT, 'tmp')
BASE = os.path.join(ROOT, 'target', 'confdiff')
# cases run on many instantiations, cases run on all builds
TIER = {'quick': (40000, 4000), 'thorough': (1500000, 150000)}
# name: (toolchain, profile, features)
BUILDS = {
    'main': ('stable', 'release', 'full,fuzz,serde'),
    'plain': ('stable', 'opt', ''),
    'serde': ('stable', 'release', 'serde'),
    'fuzz': ('stable', 'opt', 'fuzz'),
    'fuzz+serde': ('stable', 'opt', 'fuzz,serde'),
    'nightly': ('nightly', 'release', 'nightly,serde'),
}
THOROUGH = {'allm': ('stable', 'release', 'allm,fuzz,serde')}
HANG = 30

def env(name):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER', 'CARGO_INCREMENTAL'):
        e.pop(k, None)
    tc = {**BUILDS, **THOROUGH}[name][0]
    e.update(RUSTUP_TOOLCHAIN=tc, CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=os.path.join(BASE, name), RUST_BACKTRACE='0')
    return e

def binary(name):
    return os.path.join(BASE, name, {**BUILDS, **THOROUGH}[name][1], 'confdiff')

def repo_hash():
    h = hashlib.sha256()
    for p in ['/repo/Cargo.toml'] + [os.path.join(d, f) for d, _, fs in sorted(os.walk('/repo/src')) for f in sorted(fs)]:
        h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()

def build1(name, rh):
    """path of the library"""
    tc, profile, features = {**BUILDS, **THOROUGH}[name]
    d = os.path.join(BASE, name)
    os.makedirs(d, exist_ok=True)
    e = env(name)
    hp = os.path.join(d, '.repohash')
    if os.path.isdir(os.path.join(d, profile)) and (open(hp).read() if os.path.exists(hp) else None) != rh:
        subprocess.run(['cargo', 'clean', '--offline', '--profile', profile, '-p', 'sherman', '-p', 'confdiff'], cwd=CRATE, env=e,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    c = ['cargo', 'build', '--offline', '--profile', profile, '--message-format=json-render-diagnostics']
    if features:
        c += ['--features', features]
    p = subprocess.run(c, cwd=CRATE, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        print(p.stderr[-4000:], file=sys.stderr)
        print(f'ERROR: confdiff ({name}) does not build against /repo', file=sys.stderr)
        return None
    open(hp, 'w').write(rh)
    lib, dirs = None, set()
    for l in p.stdout.splitlines():
        if l.startswith('{'):
            m = json.loads(l)
            if m.get('reason') == 'compiler-artifact':
                dirs |= {os.path.dirname(f) for f in m['filenames']}
                if m['target']['name'] == 'sherman':
                    lib = next(f for f in m['filenames'] if f.endswith('.rlib'))
    if lib:
        # what programs outside of cargo need to link with it (the metadata may be in a file of its own)
        meta = lib[:-len('.rlib')] + '.rmeta'
        json.dump({'externs': [f for f in (meta, lib) if os.path.exists(f)], 'dirs': sorted(dirs)}, open(os.path.join(d, 'lib.json'), 'w'))
    return lib

def build(names=None):
    os.makedirs(BASE, exist_ok=True)
    with open(os.path.join(BASE, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        rh = repo_hash()
        names = list(names or BUILDS)
        with ThreadPoolExecutor(4) as ex:
            libs = dict(zip(names, ex.map(lambda n: build1(n, rh), names)))
        if not all(libs.values()):
            sys.exit(2)
        return libs

# -- node sizes -------------------------------------------------------------------------------

PROBE = r'''
#![allow(warnings)]
use sherman::param::*; use sherman::*;
struct V(String);
impl<I> Slice<I> for V { const MAY_JOIN: bool = false; fn split_at(&mut self, _: I) -> Self { V(self.0.clone()) } }
fn built<T>(f: impl FnOnce() -> T) -> bool {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) { Ok(t) => { std::mem::forget(t); true } Err(_) => false }
}
macro_rules! m { ($($m:literal)*) => { $(
    println!("{} NoFeatures new {}", $m, built(|| RleTree::<usize, V, NoFeatures, $m>::new(V("x".into()), 1)));
    println!("{} NoFeatures new_empty {}", $m, built(|| RleTree::<u8, V, NoFeatures, $m>::new_empty()));
    println!("{} AllowCow new {}", $m, built(|| RleTree::<usize, V, AllowCow, $m>::new(V("x".into()), 1)));
    println!("{} AllowCow new_empty {}", $m, built(|| RleTree::<u16, V, AllowCow, $m>::new_empty()));
    println!("{} AllowSliceRefs new {}", $m, built(|| RleTree::<usize, V, AllowSliceRefs, $m>::new(V("x".into()), 1)));
    println!("{} AllowSliceRefs new_empty {}", $m, built(|| RleTree::<u128, V, AllowSliceRefs, $m>::new_empty()));
)* } }
fn main() { std::panic::set_hook(Box::new(|_| {})); m!(MS); }
'''
GOOD = [1, 2, 3, 5, 6, 64, 126, 127]
WRONG = [0, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512]

def probe(lib, name, ms, tag):
    """{m: {constructor: accepted}}, or None if it does not compile because of the node size"""
    d = os.path.join(TMP, f'conf-{os.getpid()}-{tag}')
    os.makedirs(d, exist_ok=True)
    try:
        src = os.path.join(d, 'p.rs')
        open(src, 'w').write(PROBE.replace('MS', ' '.join(map(str, ms))))
        c = ['rustc', '--edition', '2021', '--cap-lints', 'allow', '-C', 'opt-level=0', '-C', 'debuginfo=0', '--extern', f'sherman={lib}',
             '-L', f'dependency={os.path.join(os.path.dirname(lib))}', '-o', os.path.join(d, 'p'), src]
        p = subprocess.run(c, env=env(name), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if p.returncode != 0:
            if len(ms) == 1 and ('E0080' in p.stdout or 'evaluation' in p.stdout):
                return None
            if len(ms) > 1:
                with ThreadPoolExecutor(8) as ex:
                    rs = list(ex.map(lambda m: probe(lib, name, [m], f'{tag}-{m}'), ms))
                return {m: (r or {m: {'any': False}})[m] for m, r in zip(ms, rs)}
            print(p.stdout[-3000:], file=sys.stderr)
            print('ERROR: the node size probe does not compile', file=sys.stderr)
            sys.exit(2)
        r = subprocess.run([os.path.join(d, 'p')], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        out = {m: {} for m in ms}
        for l in r.stdout.splitlines():
            m, p, c, v = l.split()
            out[int(m)][p + '::' + c] = v == 'true'
        for m in ms:
            if len(out[m]) != 6:
                out[m]['process'] = f'ended with {r.returncode}'
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)

def check_sizes(libs):
    """None or (message, m)"""
    n = 0
    for name in ('main', 'plain'):
        res = probe(libs[name], name, GOOD + WRONG, f'm{name}')
        for m in GOOD + WRONG:
            r = res[m] if res else {'any': False}
            n += len(r)
            for k, v in r.items():
                if v is not (m in GOOD):
                    return n, (f'node size {m}: {k} ' + ('was refused' if v is False else 'was accepted' if v is True else v) + f' ({name} build)', m)
    return n, None

# -- histories --------------------------------------------------------------------------------

def run(cmd, text=None, timeout=None):
    try:
        p = subprocess.run(cmd, input=text, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return None, ''

def verdict_one(b, case):
    """within one build; None or message"""
    rc, o = run([b, 'exec'], case, HANG)
    if rc == 0:
        return None
    if rc is None:
        return f'no result after {HANG} s'
    return o.strip() if rc == 10 else f'process ended with {rc}'

def verdict_builds(names, case):
    rs = {n: run([binary(n), 'obs'], case, HANG) for n in names}
    a = names[0]
    for n in names[1:]:
        if rs[n] != rs[a]:
            if rs[n][0] != 0 or rs[a][0] != 0:
                return f'builds {a} / {n} end with {rs[a][0]} / {rs[n][0]}'
            la, ln = rs[a][1].splitlines(), rs[n][1].splitlines()
            k = next((i for i in range(min(len(la), len(ln))) if la[i] != ln[i]), min(len(la), len(ln)))
            x = (la + ['-'])[min(k, len(la))]
            y = (ln + ['-'])[min(k, len(ln))]
            return f'builds {a} and {n} of the crate differ: {x} / {y}'
    return None

def shrink(case, judge, budget):
    t0 = time.time()
    lines = case.splitlines()
    head = [l for l in lines if not l.startswith(('op ', 'insts '))]
    insts = next((l.split()[1:] for l in lines if l.startswith('insts ')), [])
    ops = [l for l in lines if l.startswith('op ')]
    mk = lambda i, o: '\n'.join(head + ['insts ' + ' '.join(i)] + o) + '\n'
    for x in list(insts):
        if judge(mk([x], ops)):
            insts = [x]
            break
    with ThreadPoolExecutor(8) as ex:
        n = max(1, len(ops) // 2)
        while n >= 1 and time.time() - t0 < budget:
            cands = [ops[:i] + ops[i + n:] for i in range(0, len(ops), n)]
            rs = list(ex.map(lambda c: judge(mk(insts, c)), cands))
            ok = [c for c, r in zip(cands, rs) if r]
            if ok:
                ops = ok[0]
                n = min(n, max(1, len(ops) // 2)) if ops else 0
            else:
                n //= 2
    return mk(insts, ops)

def report(kind, case, msg):
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    path = os.path.join(ROOT, 'replays', f'C25-{hashlib.sha1((kind + case).encode()).hexdigest()[:16]}.case')
    with open(path, 'w') as f:
        f.write(''.join(f'# {l}\n' for l in msg.splitlines()) + f'engine confdiff {kind}\n' + ''.join(l + '\n' for l in case.splitlines() if not l.startswith('engine')))
    print(msg)
    print('\n'.join('  ' + l for l in case.splitlines()[:40]))
    print(f'VIOLATION property=C25 replay={path}')

def check(tier):
    t0 = time.time()
    names = list(BUILDS) + (list(THOROUGH) if tier == 'thorough' else [])
    libs = build(names)
    tb = time.time() - t0
    n_inst, n_build = TIER[tier]
    main = 'allm' if tier == 'thorough' else 'main'
    violations = 0
    st = {'cases': 0, 'nontrivial': 0, 'runs': 0, 'longest': 0, 'bits': {}, 'used': set(), 'samples': []}
    probes, bad = check_sizes(libs)
    if bad:
        violations = 1
        report('sizes', f'node size {bad[1]}\n', bad[0])
    tag = f'conf-{os.getpid()}'
    status = lambda i: os.path.join(TMP, f'{tag}-{i}.status')
    def worker(i):
        rc, o = run([binary(main), 'worker', '--seed', SEED, '--from', str(i), '--to', str(n_inst), '--step', '8', '--status', status(i)])
        return i, rc, o
    fail = None
    if not violations:
        with ThreadPoolExecutor(8) as ex:
            for i, rc, o in ex.map(worker, range(8)):
                m = re.search(r'^FAIL (\d+) (.*)$', o, re.M)
                if m:
                    fail = min(fail or (1 << 60, ''), (int(m.group(1)), m.group(2)))
                elif rc != 0:
                    k = struct.unpack('<Q', open(status(i), 'rb').read(8))[0]
                    if rc in (-9, -15):
                        print('ERROR: a worker was killed', file=sys.stderr)
                        sys.exit(2)
                    fail = min(fail or (1 << 60, ''), (k, f'the process running this case ended with {rc}'))
                for l in o.splitlines():
                    w = l.split(' ', 1)
                    if w[0] == 'DONE':
                        a = list(map(int, w[1].split()))
                        st['cases'] += a[0]; st['nontrivial'] += a[1]; st['runs'] += a[2]; st['longest'] = max(st['longest'], a[3])
                    elif w[0] == 'BITS':
                        b, c = w[1].split()
                        st['bits'][b] = st['bits'].get(b, 0) + int(c)
                    elif w[0] == 'USED':
                        st['used'].add(w[1])
                    elif w[0] == 'SAMPLE':
                        st['samples'].append(w[1])
        if fail:
            violations = 1
            k, msg = fail
            case = subprocess.run([binary(main), 'gen', '--seed', SEED, '--case', str(k)], stdout=subprocess.PIPE, text=True).stdout
            judge = lambda c: verdict_one(binary(main), c)
            if not msg.startswith('no result') and judge(case):
                case = shrink(case, judge, 90)
                msg = judge(case) or msg
            report(main, case, msg)
    compared = 0
    if not violations:
        # the same histories on every build; cases beyond those above
        vs = list(BUILDS)
        lo, step = 10_000_000, max(250, n_build // 32)
        def hashes(a):
            n, k = a
            return a, run([binary(n), 'hash', '--seed', SEED, '--from', str(k), '--to', str(min(lo + n_build, k + step)), '--status', status(f'{n}-{k}')])
        jobs = [(n, k) for k in range(lo, lo + n_build, step) for n in vs]
        res = {}
        with ThreadPoolExecutor(8) as ex:
            for a, r in ex.map(hashes, jobs):
                res[a] = r
        bad = None
        for k in range(lo, lo + n_build, step):
            want = res[(vs[0], k)]
            for n in vs:
                if res[(n, k)][0] in (-9, -15):
                    print('ERROR: a worker was killed', file=sys.stderr)
                    sys.exit(2)
                if res[(n, k)] != want or want[0] != 0:
                    x, y = want[1].splitlines(), res[(n, k)][1].splitlines()
                    j = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
                    h = re.search(r'^HANG (\d+)$', want[1] + res[(n, k)][1], re.M)
                    bad = bad or (int(h.group(1)) if h else k + j, vs[0], n, bool(h))
            compared += len(want[1].splitlines())
        if bad:
            violations = 1
            k, a, n, hung = bad
            case = subprocess.run([binary(a), 'gen', '--seed', SEED, '--case', str(k)], stdout=subprocess.PIPE, text=True).stdout
            judge = lambda c: verdict_builds([a, n], c)
            msg = f'no result after a minute in a build among {a}, {n}' if hung else judge(case)
            if msg and not hung:
                case = shrink(case, judge, 90)
                msg = judge(case) or msg
            report(f'builds {a} {n}', case, msg or f'builds {a} and {n} of the crate differ on generated case {k}')
    for f in os.listdir(TMP):
        if f.startswith(tag):
            os.remove(os.path.join(TMP, f))
    ms = {int(u.split('/')[2]) for u in st['used']}
    ev = {
        'property': 'C25', 'tier': tier, 'seed': int(SEED), 'level': 'exploration', 'wall_s': round(time.time() - t0, 1), 'violations': violations,
        'coverage': {
            'evaluations': st['runs'] + compared * len(BUILDS) + probes,
            'distinct_nontrivial': st['nontrivial'],
            'rule': 'random histories (insertions of every kind, lookups, ranges, clones, references, refused calls; totals up to the maximum of 8, 16, 32, 64 and 128 '
                    'bits; fills up to and around the capacity of nodes of every size) run on instantiations with other node sizes, feature parameters and index types, '
                    'every observation compared with the default one; and on builds of the crate with other features, assertions, optimisation and toolchain. '
                    'Non-trivial = at least two other instantiations, and joins/splits among three or more runs or more than ten runs',
            'histories': st['cases'], 'runs on another instantiation': st['runs'], 'histories by index width': st['bits'],
            'instantiations used': len(st['used']), 'node sizes used': len(ms), 'longest history': st['longest'],
            'histories compared between builds': compared, 'builds': {k: ' '.join(v) for k, v in BUILDS.items()},
            'constructor calls with permitted and refused node sizes': probes,
            'samples': [s[:700] for s in st['samples'][:4]] or ['node size probes only'],
        },
        'assumptions': ['insertions that join with both neighbours at once are left out (recorded finding)'],
    }
    with open(os.path.join(ROOT, 'evidence', 'C25.json'), 'w') as f:
        json.dump(ev, f, indent=2)
    print(f'C25: {st["cases"]} histories on {len(st["used"])} instantiations ({len(ms)} node sizes), {compared} on {len(BUILDS)} builds, build {tb:.0f}s, {time.time() - t0:.1f}s')
    return 1 if violations else 0

def replay(path):
    text = open(path).read()
    kind = re.search(r'^engine confdiff (.*)$', text, re.M).group(1).split()
    case = ''.join(l + '\n' for l in text.splitlines() if not l.startswith(('#', 'engine')))
    if kind[0] == 'sizes':
        _, bad = check_sizes(build())
        msg = bad and bad[0]
    elif kind[0] == 'builds':
        build(kind[1:])
        msg = verdict_builds(kind[1:], case)
    else:
        build([kind[0]])
        msg = verdict_one(binary(kind[0]), case)
    if msg:
        print(msg)
        print(f'VIOLATION property=C25 replay={path}')
        return 1
    print('C25: holds on this case')
    return 0

if __name__ == '__main__':
    os.makedirs(TMP, exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    a = sys.argv[1:]
    if a[0] == 'build':
        build()
    elif a[0] == 'check':
        sys.exit(check(a[2]))
    elif a[0] == 'replay':
        sys.exit(replay(a[1]))
