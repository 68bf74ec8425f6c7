#!/usr/bin/env python3
"""Parts of checks that run under an interpreter or a sanitizer.

  ext.py check <property> <tier>      native check, then the parts below, merged into the evidence
  ext.py build                        prebuild everything (setup)
  ext.py replay FILE                  re-run a case saved by a part (line `engine <name>`)

Parts execute generated cases of one or more property drivers (`harness exec-range`) under
  miri      Miri, debug assertions off (so `unreachable_unchecked` and friends are what they are
            in a release build); reports undefined behaviour and data races
  asan      AddressSanitizer build, debug assertions off
"""
import json, os, re, subprocess, sys, threading, time, hashlib, queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.environ.get('VERIF_SEED', '1')
H = os.path.join(ROOT, 'harness')
NATIVE = os.path.join(ROOT, 'target/release/harness')
TMP = os.path.join(ROOT, 'tmp')

# (engine, driver, cases, judge) per property and tier. judge 'ub': only undefined behaviour counts;
# 'all': the driver's own verdicts count as well
PARTS = {
    'C21': {
        'quick': [('miri', 'C21', 40, 'ub'), ('miri', 'C07', 12, 'ub'), ('miri', 'C13', 12, 'ub'), ('miri', 'C16', 12, 'ub')]
            + [('miri', 'C03', 16, 'ub'), ('miri', 'C08', 24, 'ub'), ('asan', 'C21', 10000, 'ub')]
            + [('asan', d, 800, 'ub') for d in ('C05', 'C08', 'C09', 'C12', 'C13', 'C16', 'C18')],
        'thorough': [('asan', 'C21', 1000000, 'ub')]
            + [('asan', d, 60000, 'ub') for d in ('C01', 'C03', 'C05', 'C07', 'C08', 'C09', 'C11', 'C12', 'C13', 'C16', 'C18', 'C19', 'C20')]
            + [('miri', 'C21', 6000, 'ub'), ('miri', 'C08', 2000, 'ub'), ('miri', 'C13', 1000, 'ub')]
            + [('miri', d, 800, 'ub') for d in ('C01', 'C02', 'C03', 'C05', 'C06', 'C07', 'C09', 'C11', 'C12', 'C14', 'C16', 'C18', 'C19', 'C20')],
    },
    'C10': {'quick': [('miri', 'C10', 200, 'all')], 'thorough': [('miri', 'C10', 6000, 'all')]},
}
WALL = {'quick': 240, 'thorough': 3 * 3600}
CASE_LIMIT = 240

def env_for(engine):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN'):
        e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TARGET_DIR'] = os.path.join(ROOT, 'target', engine)
    if engine == 'miri':
        e['MIRIFLAGS'] = '-Zmiri-disable-isolation -Zmiri-preemption-rate=0.1 -Zmiri-ignore-leaks'
        e['CARGO_PROFILE_DEV_DEBUG_ASSERTIONS'] = 'false'
        e['CARGO_PROFILE_DEV_OVERFLOW_CHECKS'] = 'true'
    else:
        e['RUSTFLAGS'] = '-Zsanitizer=address -Zub-checks=yes'
        e['CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS'] = 'false'
        e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=77'
    return e

TRIPLE = 'x86_64-unknown-linux-gnu'

def cmd_for(engine, args):
    if engine == 'miri':
        return ['cargo', '+nightly', 'miri', 'run', '-q', '--offline', '--'] + args
    return [os.path.join(ROOT, 'target/asan', TRIPLE, 'release/harness')] + args

def repo_hash():
    h = hashlib.sha256()
    for base in ('src', 'fuzz-utils/src'):
        for d, _, fs in sorted(os.walk(os.path.join('/repo', base))):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()

def build(engine):
    """returns None, or the reason why the engine cannot be used"""
    import fcntl
    d = os.path.join(ROOT, 'target', engine)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = env_for(engine)
        hp = os.path.join(d, '.repohash')
        rh = repo_hash()
        old = open(hp).read() if os.path.exists(hp) else None
        if old != rh:
            a = ['cargo', '+nightly', 'clean', '--offline', '-p', 'sherman', '-p', 'harness']
            if engine == 'asan':
                a += ['--release', '--target', TRIPLE]
            if old is not None or os.path.isdir(os.path.join(d, TRIPLE)):
                if engine == 'miri':
                    a = ['cargo', '+nightly', 'clean', '--offline', '-p', 'sherman', '-p', 'harness', '--target', TRIPLE]
                subprocess.run(a, cwd=H, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if engine == 'miri':
            c = cmd_for('miri', ['noop'])
        else:
            c = ['cargo', '+nightly', 'build', '--offline', '--release', '--target', TRIPLE, '--features', 'heap']
        p = subprocess.run(c, cwd=H, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            return p.stdout[-3000:]
        open(hp, 'w').write(rh)
    return None

UB = re.compile(r'(error: Undefined Behavior|unsafe precondition\(s\) violated|ERROR: AddressSanitizer|error: .*deadlock|process exited.*SIG)')

def verdict(rc, out, err, judge):
    """None = nothing found; otherwise the message"""
    m = UB.search(err)
    if m:
        i = m.start()
        return err[i:i + 2500]
    if rc is not None and rc < 0:
        return f'process died with signal {-rc}: {err[-500:]}'
    if rc == 10 and judge == 'all':
        return out.strip()[-1500:]
    return None

def run_proc(engine, args, timeout, stdin=None):
    t0 = time.time()
    p = subprocess.Popen(cmd_for(engine, args), cwd=H, env=env_for(engine), stdin=subprocess.PIPE if stdin else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True)
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
        return None, out, err

def case_text(driver, k, tier):
    return subprocess.run([NATIVE, 'gen', driver, '--case', str(k), '--tier', tier, '--seed', SEED], stdout=subprocess.PIPE, text=True).stdout

def parse(text):
    lines = [l for l in text.splitlines() if l and not l.startswith('#')]
    return [l for l in lines if not l.startswith('op ')], [l for l in lines if l.startswith('op ')]

def shrink(engine, driver, text, judge, msg, budget):
    head, ops = parse(text)
    t0 = time.time()
    def fails(ops):
        rc, out, err = run_proc(engine, ['exec-stdin', driver, '--root', ROOT], 60, '\n'.join(head + ops) + '\n')
        return verdict(rc, out, err, judge)
    if fails(ops) is None:
        return text, msg
    n = max(1, len(ops) // 2)
    while n >= 1 and time.time() - t0 < budget:
        i = 0
        while i < len(ops) and time.time() - t0 < budget:
            cand = ops[:i] + ops[i + n:]
            m = fails(cand)
            if m:
                ops, msg = cand, m
            else:
                i += n
        if n == 1:
            break
        n = (n + 1) // 2
    return '\n'.join(head + ops) + '\n', msg

def parts(prop, todo, deadline, stats):
    """Run all parts in one pool of workers. Returns None or (engine, judge, case text, message)"""
    base = 5_000_000_000
    q = queue.Queue()
    for engine, driver, cases, judge in todo:
        step = max(1, min(4, cases // 8)) if engine == 'miri' else max(1, min(500, cases // 16))
        for a in range(0, cases, step):
            q.put((engine, driver, judge, a, min(cases, a + step)))
        stats[f'{engine}: cases of {driver}'] = {'cases': 0, 'non-trivial': 0, 'functional failures left to the property concerned': 0}
    found = []
    lock = threading.Lock()
    def work():
        while not found:
            try:
                engine, driver, judge, a, b = q.get_nowait()
            except queue.Empty:
                return
            st = stats[f'{engine}: cases of {driver}']
            tier = 'mini' if engine == 'miri' else 'quick'
            left = deadline - time.time()
            if left < 5:
                with lock:
                    st['not run (time)'] = st.get('not run (time)', 0) + b - a
                continue
            args = ['exec-range', driver, '--from', str(base + a), '--to', str(base + b), '--tier', tier, '--seed', SEED, '--root', ROOT]
            if judge == 'ub':
                args.append('--keep-going')
            t0 = time.time()
            rc, out, err = run_proc(engine, args, min(CASE_LIMIT, left))
            v = verdict(rc, out, err, judge)
            ks = re.findall(r'^case (\d+)$', err, re.M)
            k = int(ks[-1]) if ks else base + a
            with lock:
                st['cpu_s'] = round(st.get('cpu_s', 0) + time.time() - t0, 1)
                if v:
                    found.append((k, engine, driver, judge, tier, v))
                    return
                m = re.search(r'^done (\d+) (\d+) (\d+)$', out, re.M)
                if m:
                    st['cases'] += int(m.group(1)); st['non-trivial'] += int(m.group(2))
                    st['functional failures left to the property concerned'] += int(m.group(3))
                elif rc is None:
                    st['unfinished (time)'] = st.get('unfinished (time)', 0) + b - a
                else:
                    found.append((k, engine, driver, judge, tier, f'the process ended with {rc}: {(out + err)[-1500:]}'))
    ts = [threading.Thread(target=work) for _ in range(8)]
    [t.start() for t in ts]; [t.join() for t in ts]
    if found:
        k, engine, driver, judge, tier, msg = min(found)
        text, msg = shrink(engine, driver, case_text(driver, k, tier), judge, msg, 90)
        return engine, judge, text, f'from generated case {k} ({tier}, seed {SEED})\n{msg}'
    return None

def check(prop, tier):
    rc = subprocess.run([NATIVE, 'check', prop, '--tier', tier, '--seed', SEED, '--root', ROOT]).returncode
    if rc != 0:
        return rc
    t0 = time.time()
    stats, problem = {}, None
    todo = PARTS.get(prop, {}).get(tier, [])
    for engine in sorted({p[0] for p in todo}):
        why = None if os.environ.get('EXT_BUILT') else build(engine)
        if why:
            print(f'{engine} is not usable here: {why}', file=sys.stderr)
            stats[engine] = {'not run': why[-300:]}
            todo = [p for p in todo if p[0] != engine]
    problem = parts(prop, todo, time.time() + WALL[tier], stats)
    if problem:
        engine, judge, text, msg = problem
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        path = os.path.join(ROOT, 'replays', f'{prop}-{engine}-{hashlib.sha1(text.encode()).hexdigest()[:16]}.case')
        with open(path, 'w') as f:
            f.write(''.join(f'# {l}\n' for l in msg.splitlines()))
            f.write(f'engine {engine} {judge} {prop}\n' + text)
        print(msg)
        print('\n'.join(text.splitlines()[:60]))
        print(f'VIOLATION property={prop} replay={path}')
    p = os.path.join(ROOT, 'evidence', prop + '.json')
    ev = json.load(open(p))
    ev['coverage']['parts'] = stats
    ev['coverage']['evaluations'] += sum(s.get('cases', 0) for s in stats.values())
    ev['wall_s'] += time.time() - t0
    if problem:
        ev['violations'] = ev.get('violations', 0) + 1
    json.dump(ev, open(p, 'w'), indent=2)
    for k, s in stats.items():
        print(f'{prop}: {k}: {s}')
    print(f'{prop}: parts {time.time() - t0:.1f}s')
    return 1 if problem else 0

def replay(path):
    text = open(path).read()
    m = re.search(r'^engine (\S+) (\S+) (\S+)$', text, re.M)
    engine, judge, prop = m.groups()
    why = build(engine)
    if why:
        print(why); return 2
    driver = re.search(r'^prop (\S+)', text, re.M).group(1)
    body = '\n'.join(l for l in text.splitlines() if not l.startswith('#') and not l.startswith('engine ')) + '\n'
    for _ in range(10):
        rc, out, err = run_proc(engine, ['exec-stdin', driver, '--root', ROOT], 300, body)
        v = verdict(rc, out, err, judge)
        if v:
            print(v)
            print(f'VIOLATION property={prop} replay={path}')
            return 1
    print(f'{prop}: holds on this case')
    return 0

if __name__ == '__main__':
    os.makedirs(TMP, exist_ok=True)
    a = sys.argv[1:]
    if a[0] == 'build':
        for e in sorted({p[0] for t in PARTS.values() for ps in t.values() for p in ps}):
            why = build(e)
            if why:
                print(f'{e} is not usable here: {why}', file=sys.stderr)
        sys.exit(0)
    if a[0] == 'check':
        sys.exit(check(a[1], a[2]))
    if a[0] == 'replay':
        sys.exit(replay(a[1]))
