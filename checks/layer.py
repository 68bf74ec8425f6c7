#!/usr/bin/env python3
"""C23: the fuzzing command layer (see cmdfuzz/src/main.rs).

  layer.py build
  layer.py check C23 quick|thorough
  layer.py replay FILE
"""
import json, os, re, subprocess, sys, time, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.environ.get('VERIF_SEED', '1')
CRATE = os.path.join(ROOT, 'cmdfuzz')
TARGET = os.path.join(ROOT, 'target', 'cmdfuzz')
BIN = os.path.join(TARGET, 'release', 'cmdfuzz')
TMP = os.path.join(ROOT, 'tmp')
# (cases, emit the texts of every n-th, most texts compiled)
TIER = {'quick': (160000, 960), 'thorough': (3000000, 9600)}

def env():
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'RUSTC_WRAPPER'):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=TARGET, RUST_BACKTRACE='0')
    return e

def repo_hash():
    h = hashlib.sha256()
    for base in ('src', 'fuzz-utils/src'):
        for d, _, fs in sorted(os.walk(os.path.join('/repo', base))):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()

def build():
    """path of the library the printed tests are compiled against"""
    import fcntl
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        hp, rh = os.path.join(TARGET, '.repohash'), repo_hash()
        old = open(hp).read() if os.path.exists(hp) else None
        if old != rh and os.path.isdir(os.path.join(TARGET, 'release')):
            subprocess.run(['cargo', 'clean', '--offline', '--release', '-p', 'sherman', '-p', 'sherman-fuzz-utils', '-p', 'cmdfuzz'],
                           cwd=CRATE, env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        p = subprocess.run(['cargo', 'build', '--offline', '--release', '--message-format=json-render-diagnostics'], cwd=CRATE, env=env(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            print(p.stderr[-4000:], file=sys.stderr)
            print('ERROR: cmdfuzz does not build against /repo', file=sys.stderr)
            sys.exit(2)
        open(hp, 'w').write(rh)
        for l in p.stdout.splitlines():
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('reason') == 'compiler-artifact' and d['target']['name'] == 'sherman':
                    return next(f for f in d['filenames'] if f.endswith('.rlib'))
    sys.exit(2)

PRELUDE = r'''
#![allow(warnings)]
pub mod prelude {
    pub use sherman::param::*;
    pub use sherman::*;

    #[derive(Debug, Copy, Clone, PartialEq, Eq)]
    pub struct Solo(pub u8);
    impl<I> Slice<I> for Solo {
        const MAY_JOIN: bool = false;
        fn split_at(&mut self, _: I) -> Self { *self }
        fn try_join(self, other: Self) -> Result<Self, (Self, Self)> { Err((self, other)) }
    }
    #[derive(Debug, Copy, Clone, PartialEq, Eq)]
    pub struct Seg<I>(pub u8, pub I, pub Option<I>);
    impl<I: Copy + PartialEq + std::ops::Add<Output = I>> Slice<I> for Seg<I> {
        const MAY_JOIN: bool = true;
        fn split_at(&mut self, at: I) -> Self {
            let cut = self.1 + at;
            let r = Seg(self.0, cut, self.2);
            self.2 = Some(cut);
            r
        }
        fn try_join(self, other: Self) -> Result<Self, (Self, Self)> {
            if self.0 == other.0 && self.2 == Some(other.1) { Ok(Seg(self.0, self.1, other.2)) } else { Err((self, other)) }
        }
    }
}
/// the tree, except that it gives wrong cursors
pub mod lying {
    pub use super::prelude::{AllowCow, AllowSliceRefs, BoundedCursor, Constant, Cursor, NoCursor, NoFeatures, PathComponent, Seg, Solo};
    use super::prelude::*;
    pub struct Liar<T>(T);
    impl<T> std::ops::Deref for Liar<T> {
        type Target = T;
        fn deref(&self) -> &T { &self.0 }
    }
    impl<T> std::ops::DerefMut for Liar<T> {
        fn deref_mut(&mut self) -> &mut T { &mut self.0 }
    }
    impl<T: Clone> Clone for Liar<T> {
        fn clone(&self) -> Self { Liar(self.0.clone()) }
    }
    impl<I: Index, S: Slice<I>, P: RleTreeConfig<I, S, M>, const M: usize> Liar<sherman::RleTree<I, S, P, M>> {
        pub fn new_empty() -> Self { Liar(sherman::RleTree::new_empty()) }
        pub fn cursor_to<C: Cursor>(&self, _: I) -> C {
            // longer than any path in these trees
            let mut c = C::new_empty();
            for p in steps().into_iter().cycle().take(12) {
                c.prepend_to_path(p);
            }
            c
        }
    }
    struct Grab(Vec<PathComponent>);
    impl Cursor for Grab {
        fn new_empty() -> Self { Grab(Vec::new()) }
        fn prepend_to_path(&mut self, c: PathComponent) { self.0.insert(0, c) }
        type PathIter = std::vec::IntoIter<PathComponent>;
        fn into_path(self) -> Self::PathIter { self.0.into_iter() }
    }
    fn steps() -> Vec<PathComponent> {
        let mut t: sherman::RleTree<u8, Solo, NoFeatures, 1> = sherman::RleTree::new_empty();
        for i in 0..20 {
            t.insert(i, Solo(i), 1);
        }
        t.cursor_to::<Grab>(19).0
    }
    pub type RleTree<I, S, P = NoFeatures, const M: usize = 3> = Liar<sherman::RleTree<I, S, P, M>>;
}
'''

class Text:
    def __init__(self, path):
        lines = open(path).read().split('\n')
        self.name = os.path.basename(path)
        self.types, self.kind, self.passes, self.lying, self.why = lines[0].split('|'), lines[1], lines[2] == 'true', lines[3] == 'true', lines[4]
        self.body = '\n'.join(lines[5:])
        self.case = int(self.name[1:].split('_')[0])
    def source(self):
        i, s, p, m = self.types
        return f'use crate::{"lying" if self.lying else "prelude"}::*;\ntype FuzzTree = RleTree<{i}, {s}, {p}, {m}>;\n{self.body}\n'

def compile_and_run(lib, d, texts):
    """{name: None or what is wrong}; `texts` become one crate in directory `d`"""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    out = {}
    live = list(texts)
    while live:
        with open(os.path.join(d, 'main.rs'), 'w') as f:
            f.write(PRELUDE + ''.join(f'mod {t.name};\n' for t in live))
        for t in live:
            open(os.path.join(d, t.name + '.rs'), 'w').write(t.source())
        cmd = ['rustc', '--test', '--edition', '2021', '--cap-lints', 'allow', '-C', 'debug-assertions=on', '-C', 'overflow-checks=on', '-C', 'opt-level=0',
               '-C', 'debuginfo=0', '--extern', f'sherman={lib}', '-L', f'dependency={os.path.dirname(lib)}', '-o', os.path.join(d, 'bin'),
               '--error-format=short', os.path.join(d, 'main.rs')]
        p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if p.returncode == 0:
            break
        bad = {}
        for l in p.stdout.splitlines():
            m = re.search(r'(t\d+_\d+)\.rs:\d+:\d+: error', l)
            if m:
                bad.setdefault(m.group(1), l)
        if not bad:
            raise RuntimeError('the printed tests do not compile:\n' + p.stdout[-3000:])
        for n, l in bad.items():
            out[n] = 'the printed test does not compile: ' + l
        live = [t for t in live if t.name not in bad]
    if not live:
        return out
    def run(args):
        try:
            p = subprocess.run([os.path.join(d, 'bin')] + args, env=env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', timeout=300)
            return p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            return None, ''
    rc, o = run(['--test-threads=2'])
    verdict = {}
    if rc in (0, 101):
        for m in re.finditer(r'^test (t\d+_\d+)::\S+ \.\.\. (ok|FAILED)', o, re.M):
            verdict.setdefault(m.group(1), []).append(m.group(2))
    for t in live:
        v = verdict.get(t.name)
        if rc not in (0, 101):
            r, o1 = run(['--test-threads=1', t.name + '::'])
            v = re.findall(r'^test \S+ \.\.\. (ok|FAILED)', o1, re.M) if r in (0, 101) else ['FAILED']
        if not v:
            out[t.name] = 'the printed text contains no test'
        elif ('FAILED' not in v) != t.passes:
            out[t.name] = (f'the printed test passes although one expectation is wrong ({t.why})' if not t.passes else
                           'the printed test fails although every expectation is right')
        else:
            out[t.name] = None
    return out

def run_texts(lib, texts, tag, group=60):
    groups = [texts[i:i + group] for i in range(0, len(texts), group)]
    base = os.path.join(TMP, f'cmd-{os.getpid()}-{tag}')
    res = {}
    def one(k):
        d = f'{base}-{k}'
        try:
            return compile_and_run(lib, d, groups[k])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, range(len(groups))):
            res.update(r)
    return res

def texts_of_case(lib, case, tag):
    """emit, compile and run everything printed for one case; None or (message, text)"""
    d = os.path.join(TMP, f'cmd-{os.getpid()}-{tag}')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        f = os.path.join(d, 'case')
        open(f, 'w').write(case)
        if subprocess.run([BIN, 'emit', f, '--emit', d], env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode != 0:
            return None
        ts = [Text(os.path.join(d, n)) for n in sorted(os.listdir(d)) if re.match(r't\d+_\d+$', n)]
        if not ts:
            return None
        r = compile_and_run(lib, os.path.join(d, 'crate'), ts)
        for t in ts:
            if r[t.name]:
                return r[t.name], t
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)

def shrink(lib, case, budget):
    head = [l for l in case.splitlines() if l and not l.startswith(('bytes', '#', 'engine'))]
    b = re.search(r'^bytes ([0-9a-f]*)$', case, re.M).group(1)
    b = [b[i:i + 2] for i in range(0, len(b), 2)]
    t0 = time.time()
    mk = lambda b: '\n'.join(head + ['bytes ' + ''.join(b)]) + '\n'
    n = max(1, len(b) // 2)
    with ThreadPoolExecutor(8) as ex:
        while n >= 1 and time.time() - t0 < budget:
            progress = False
            cands = [b[:i] + b[i + n:] for i in range(0, len(b), n)]
            for k in range(0, len(cands), 8):
                if time.time() - t0 > budget:
                    break
                rs = list(ex.map(lambda x: texts_of_case(lib, mk(x[1]), f's{x[0]}'), enumerate(cands[k:k + 8])))
                ok = [c for c, r in zip(cands[k:k + 8], rs) if r]
                if ok:
                    b = ok[0]
                    progress = True
                    break
            if not progress:
                n //= 2
            else:
                n = min(n, max(1, len(b) // 2)) if b else 0
    return mk(b)

def report(lib, case, msg, extra, key):
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    path = os.path.join(ROOT, 'replays', f'C23-{key}-{hashlib.sha1(case.encode()).hexdigest()[:16]}.case')
    with open(path, 'w') as f:
        f.write(''.join(f'# {l}\n' for l in (msg + '\n' + extra).splitlines()) + f'engine cmdfuzz {key} C23\n' + case)
    print(msg)
    print('\n'.join(extra.splitlines()[:60]))
    print(f'VIOLATION property=C23 replay={path}')

def check(tier):
    t0 = time.time()
    lib = build()
    cases, want_texts = TIER[tier]
    emit = os.path.join(TMP, f'cmd-emit-{os.getpid()}')
    shutil.rmtree(emit, ignore_errors=True)
    os.makedirs(emit)
    violations = 0
    stats = {}
    try:
        step = max(1000, min(20000, cases // 24))
        every = max(1, cases * 3 // want_texts)
        def one(a):
            p = subprocess.run([BIN, 'run', '--seed', SEED, '--from', str(a), '--to', str(min(cases, a + step)), '--emit', emit, '--every', str(every)],
                               env=env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace')
            return a, p.returncode, p.stdout
        bad = None
        with ThreadPoolExecutor(8) as ex:
            for a, rc, o in ex.map(one, range(0, cases, step)):
                for m in re.finditer(r'^stat (\d+) (.*)$', o, re.M):
                    stats[m.group(2)] = stats.get(m.group(2), 0) + int(m.group(1))
                if rc != 0 and bad is None:
                    bad = (a, rc, o)
        if bad:
            violations = 1
            a, rc, o = bad
            if rc == 10:
                case = ''.join(l + '\n' for l in o.splitlines() if re.match(r'(inst|seed|bytes)', l) and not l.startswith('stat'))
                report(lib, case, 'command sequences: ' + next((l[2:] for l in o.splitlines() if l.startswith('# ') and 'generated case' not in l), ''),
                       '\n'.join(l[2:] for l in o.splitlines() if l.startswith('# ')), 'run')
            else:
                # the process died: find the case
                lo, hi = a, min(cases, a + step)
                h = re.search(r'^HANG (\d+)$', o, re.M)
                if h:
                    lo, hi, rc = int(h.group(1)), 0, 'no result after a minute'
                dies = lambda x, y: subprocess.run([BIN, 'run', '--seed', SEED, '--from', str(x), '--to', str(y)], env=env(),
                                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode not in (0,)
                while hi - lo > 1:
                    mid = (lo + hi) // 2
                    if dies(lo, mid):
                        hi = mid
                    else:
                        lo = mid
                case = subprocess.run([BIN, 'gen', '--seed', SEED, '--case', str(lo)], stdout=subprocess.PIPE, text=True).stdout
                report(lib, case, f'the process running generated case {lo} ended with {rc}', '', 'run')
        texts = [Text(os.path.join(emit, n)) for n in sorted(os.listdir(emit))]
        # all kinds, evenly
        texts.sort(key=lambda t: hashlib.sha1(t.name.encode()).hexdigest())
        texts = texts[:want_texts]
        compiled = {}
        if not violations:
            res = run_texts(lib, texts, 'text')
            for t in texts:
                compiled[t.kind] = compiled.get(t.kind, 0) + 1
            wrong = [t for t in texts if res[t.name]]
            if wrong:
                violations = 1
                t = min(wrong, key=lambda t: len(t.body))
                case = subprocess.run([BIN, 'gen', '--seed', SEED, '--case', str(t.case)], stdout=subprocess.PIPE, text=True).stdout
                msg, body = res[t.name], t.body
                if texts_of_case(lib, case, 'first'):
                    case = shrink(lib, case, 120)
                    msg, t2 = texts_of_case(lib, case, 'last')
                    body = t2.body
                report(lib, case, msg, body, 'text')
    finally:
        shutil.rmtree(emit, ignore_errors=True)
    n = stats.get('cases', 0)
    samples = []
    for k in (0, 1, 2):
        case = subprocess.run([BIN, 'gen', '--seed', SEED, '--case', str(k)], stdout=subprocess.PIPE, text=True).stdout
        samples.append(f'case {k}: ' + ' '.join(case.split())[:400])
    if texts:
        samples.append('printed test (' + texts[0].kind + '): ' + texts[0].body[:1200])
    ev = {
        'property': 'C23', 'tier': tier, 'seed': int(SEED), 'level': 'exploration', 'wall_s': round(time.time() - t0, 1), 'violations': violations,
        'coverage': {
            'evaluations': n + sum(compiled.values()), 'distinct_nontrivial': stats.get('non-trivial', 0) - stats.get('repeated', 0),
            'rule': 'byte strings written by a generator that knows how they are decoded (and then damaged at random), decoded to commands, predictions compared '
                    'with a reference list of runs, run by the runner of the crate on the real tree, altered one expectation at a time and run again; a sample is '
                    'printed, compiled and run. Non-trivial = decodes to at least two successful insertions and one other command',
            'counters': stats, 'printed tests compiled and run': compiled, 'samples': samples,
        },
        'assumptions': ['predictions for insertions that join with both neighbours at once are not judged (recorded finding)'],
    }
    with open(os.path.join(ROOT, 'evidence', 'C23.json'), 'w') as f:
        json.dump(ev, f, indent=2)
    print(f'C23: {n} byte strings ({stats.get("non-trivial", 0)} non-trivial), {sum(compiled.values())} printed tests compiled {compiled}, {time.time() - t0:.1f}s')
    return 1 if violations else 0

def replay(path):
    lib = build()
    text = open(path).read()
    case = ''.join(l + '\n' for l in text.splitlines() if l.startswith(('inst', 'seed', 'bytes')))
    f = os.path.join(TMP, f'cmd-replay-{os.getpid()}')
    open(f, 'w').write(case)
    try:
        p = subprocess.run([BIN, 'case', f], env=env(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace')
        msg = p.stdout if p.returncode != 0 else None
        if not msg:
            r = texts_of_case(lib, case, 'replay')
            msg = r and r[0] + '\n' + r[1].body
    finally:
        os.remove(f)
    if msg:
        print(msg)
        print(f'VIOLATION property=C23 replay={path}')
        return 1
    print('C23: holds on this case')
    return 0

if __name__ == '__main__':
    os.makedirs(TMP, exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    a = sys.argv[1:]
    if a[0] == 'build':
        build()
    elif a[0] == 'check':
        sys.exit(check(a[2]))
    elif a[0] == 'replay':
        sys.exit(replay(a[1]))
