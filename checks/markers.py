#!/usr/bin/env python3
"""C24: Send/Sync of the public types, over generated type combinations.

Element types are generated (the whole Send/Sync lattice, and random compositions of smart pointers,
cells, locks, channels and references), whether they are Send/Sync is asked of the compiler, and so is
whether the public types instantiated with them are. The oracle relates the two: what must be granted
and what must not be. Besides, generated programs that try to obtain what is not granted (by moving
trees to threads or by implementing the traits that decide) have to be refused, and programs which stay
within what is granted have to be accepted and run.

  markers.py check C24 quick|thorough
  markers.py replay FILE
"""
import json, os, random, re, subprocess, sys, time, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import layer  # build of the library, environment

ROOT, TMP, SEED = layer.ROOT, layer.TMP, layer.SEED
TIER = {'quick': (2500, 120), 'thorough': (40000, 2000)}

BASE = ['Both', 'OnlySend', 'OnlySync', 'Neither']
DEFS = '''
#![allow(warnings)]
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures};
use sherman::{Borrow, BoundedCursor, Drain, Iter, NoCursor, RleTree, SliceEntry, SliceRef};
use std::cell::*; use std::marker::PhantomData; use std::rc::*; use std::sync::*;
pub struct Both;
pub struct OnlySend(PhantomData<Cell<()>>);
pub struct OnlySync(PhantomData<MutexGuard<'static, ()>>);
pub struct Neither(PhantomData<Rc<()>>);
pub struct Pair<A, B>(A, B);
pub trait Obj {}
struct Q<T: ?Sized>(PhantomData<T>);
trait No { const SEND: bool = false; const SYNC: bool = false; }
impl<T: ?Sized> No for Q<T> {}
struct QS<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized + Send> Q<T> { const SEND: bool = true; }
impl<T: ?Sized> No for QS<T> {}
impl<T: ?Sized + Sync> QS<T> { const SYNC: bool = true; }
macro_rules! q { ($t:ty) => { ((if Q::<$t>::SEND { 'S' } else { '-' }), (if QS::<$t>::SYNC { 'Y' } else { '-' })) } }
'''

def gen_type(r, depth):
    if depth == 0 or r.random() < .25:
        return r.choice(BASE + ['u8', 'String', '*const u8', 'atomic::AtomicUsize', 'Cell<u8>', 'Rc<u8>', "&'static str",
                                'Box<dyn Obj>', 'Box<dyn Obj + Send>', 'Box<dyn Obj + Send + Sync>', 'Box<dyn Obj + Sync>', 'fn(Neither)'])
    k = r.choice(['Vec<{}>', 'Option<{}>', 'Box<{}>', '[{}; 2]', 'Arc<{}>', 'Rc<{}>', 'Mutex<{}>', 'RwLock<{}>', 'Cell<{}>', 'RefCell<{}>',
                  "&'static {}", "&'static mut {}", "MutexGuard<'static, {}>", 'mpsc::Sender<{}>', 'mpsc::Receiver<{}>', 'PhantomData<{}>',
                  '({}, {})', 'Pair<{}, {}>', 'Arc<Mutex<{}>>', 'OnceLock<{}>', 'RwLockReadGuard<\'static, {}>'])
    return k.format(*[gen_type(r, depth - 1) for _ in range(k.count('{}'))])

def subjects(c):
    """public types of a combination, by name"""
    i, s, cu, p, m = c
    return {
        'tree': f'RleTree<{i}, {s}, {p}, {m}>',
        'ref to tree': f"&'static RleTree<{i}, {s}, {p}, {m}>",
        'mut ref to tree': f"&'static mut RleTree<{i}, {s}, {p}, {m}>",
        'boxed tree': f'Box<RleTree<{i}, {s}, {p}, {m}>>',
        'entry': f"SliceEntry<'static, {i}, {s}, {p}, {m}>",
        'iter': f"Iter<'static, {cu}, {i}, {s}, {p}, {m}>",
        'drain': f"Drain<'static, {cu}, {i}, {s}, {p}, {m}>",
        'slice ref': f'SliceRef<{i}, {s}, {m}>',
        'borrow': f"Borrow<'static, {s}>",
    }

def oracle(c, e):
    """{(subject, marker): (must, may)}; e: element -> (send, sync)"""
    (isend, isync), (ssend, ssync), (csend, csync) = e
    p = c[3]
    refs, cow = p == 'AllowSliceRefs', p == 'AllowCow'
    al = isend and isync and ssend and ssync
    exact = lambda b: (b, b)
    out = {}
    if refs:
        tsend = tsync = exact(False)
    elif cow:
        # sharing is enough to clone, and a clone may be the last owner. I is only ever copied
        tsend, tsync = exact(al), (al, ssend and ssync and isync)
    else:
        tsend, tsync = exact(isend and ssend), exact(isync and ssync)
    out['tree', 'S'], out['tree', 'Y'] = tsend, tsync
    out['boxed tree', 'S'], out['boxed tree', 'Y'] = tsend, tsync
    out['ref to tree', 'S'], out['ref to tree', 'Y'] = tsync, tsync
    out['mut ref to tree', 'S'], out['mut ref to tree', 'Y'] = tsend, tsync
    # these hold copies of indexes and references to indexes and values
    out['entry', 'S'] = (al and not refs, isend and isync and ssync and not refs)
    out['entry', 'Y'] = (al and not refs, isync and ssync and not refs)
    out['iter', 'S'] = (al and csend and not refs, isend and isync and ssync and csend and not refs)
    out['iter', 'Y'] = (al and csync and not refs, isync and ssync and csync and not refs)
    # owns values, and changes the tree
    out['drain', 'S'] = (False, isend and ssend and csend and not refs and (al or not cow))
    out['drain', 'Y'] = (False, not refs and isync and ssync and csync)
    # unsynchronised shared state
    for k in ('slice ref', 'borrow'):
        out[k, 'S'] = out[k, 'Y'] = exact(False)
    return out

def run(lib, src, d, name):
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, name + '.rs')
    open(f, 'w').write(src)
    o = os.path.join(d, name + '.bin')
    p = subprocess.run(['rustc', '--edition', '2021', '--cap-lints', 'allow', '-C', 'debuginfo=0', '-C', 'opt-level=0', '-C', 'overflow-checks=on',
                        '--extern', f'sherman={lib}', '-L', f'dependency={os.path.dirname(lib)}', '-o', o, f],
                       env=layer.env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode != 0:
        return None, p.stdout
    try:
        q = subprocess.run([o], env=layer.env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=120)
    except subprocess.TimeoutExpired:
        return -1, 'time out'
    return q.returncode, q.stdout if q.returncode == 0 else q.stdout + q.stderr

def probe(lib, combos, d, name):
    """[(combination, elements, {subject: (send, sync)})]"""
    body = []
    for k, c in enumerate(combos):
        ts = [c[0], c[1], c[2]] + list(subjects(c).values())
        body.append(f'fn p{k}() {{ for (a, b) in [' + ', '.join(f'q!({t})' for t in ts) + '] { print!("{a}{b} "); } println!(); }')
    src = DEFS + '\n'.join(body) + '\nfn main() {' + ' '.join(f'p{k}();' for k in range(len(combos))) + '}\n'
    rc, out = run(lib, src, d, name)
    if rc != 0:
        raise RuntimeError('probes do not compile or run:\n' + out[-3000:])
    res = []
    for c, l in zip(combos, out.splitlines()):
        v = [(x[0] == 'S', x[1] == 'Y') for x in l.split()]
        res.append((c, v[:3], dict(zip(subjects(c), v[3:]))))
    return res

def judge(c, e, got):
    """list of complaints"""
    out = []
    names = dict(zip('SY', ('Send', 'Sync')))
    for (subj, m), (must, may) in oracle(c, e).items():
        have = got[subj][0 if m == 'S' else 1]
        if have and not may:
            out.append(f'{subjects(c)[subj]} is {names[m]} although it must not be')
        if must and not have:
            out.append(f'{subjects(c)[subj]} is not {names[m]} although it is documented to be')
    return [f'{x} (index type Send {e[0][0]} Sync {e[0][1]}, value type Send {e[1][0]} Sync {e[1][1]}, cursor type Send {e[2][0]} Sync {e[2][1]})' for x in out]

# ---- whole programs ---------------------------------------------------------------------------

PROG = '''
#![forbid(unsafe_code)]
#![allow(warnings)]
use sherman::param::*; use sherman::*;
use std::cell::*; use std::marker::PhantomData; use std::rc::*; use std::sync::*;
#[derive(Clone)] pub struct V(%(field)s);
impl V { fn new() -> V { V(%(value)s) } }
impl Slice<usize> for V {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: usize) -> Self { V::new() }
    fn try_join(self, o: Self) -> Result<Self, (Self, Self)> { Err((self, o)) }
}
type T = RleTree<usize, V, %(param)s, %(m)d>;
%(items)s
fn main() {
    let mut t: T = RleTree::new_empty();
    for k in 0..%(runs)d { t.insert(k / 2, V::new(), 1); }
    %(body)s
}
'''
FIELDS = {
    'both': ('u32', '7', True, True),
    'send': ('Cell<u32>', 'Cell::new(7)', True, False),
    'sync': ("PhantomData<MutexGuard<'static, ()>>", 'PhantomData', False, True),
    'neither': ('Rc<u32>', 'Rc::new(7)', False, False),
}
MOVE = 'std::thread::spawn(move || { let mut t = t; t.insert(0, V::new(), 2); drop(t) }).join().unwrap();'
SHARE = 'std::thread::scope(|s| { for _ in 0..3 { s.spawn(|| { assert_eq!(t.iter(..).count(), %(runs)d); t.get(0).range(); }); } });'
CLONE = '''let u = t.clone();
    let h = std::thread::spawn(move || { let mut u = u; u.insert(1, V::new(), 3); u.size() });
    t.insert(0, V::new(), 5);
    assert_eq!(h.join().unwrap(), %(runs)d + 3);'''
ITERATE = 'let it = t.iter(..); std::thread::scope(|s| { s.spawn(move || assert_eq!(it.count(), %(runs)d)); });'
ENTRY = 'let e = t.get(0); std::thread::scope(|s| { s.spawn(move || e.slice().0.clone()); });'
REF = 'let r = t.get(0).make_ref(); std::thread::scope(|s| { s.spawn(move || r.is_valid()); });'
BORROW = 'let r = t.get(0).make_ref(); { let b = r.borrow_slice(); std::thread::scope(|s| { s.spawn(|| { let _ = &*b; }); }); }'
RCREF = 'std::thread::spawn(move || { let r = t.get(0).make_ref(); r.is_valid() }).join().unwrap();'

def program(r):
    """(source, whether it has to compile, description)"""
    kind = r.choice(list(FIELDS) + ['both'] * 4)
    field, value, send, sync = FIELDS[kind]
    param = r.choice(['NoFeatures', 'AllowCow', 'AllowCow', 'NoFeatures', 'AllowSliceRefs'])
    form = r.choice(['move', 'share', 'clone', 'iterate', 'entry', 'ref', 'borrow', 'impl send', 'impl sync', 'impl insert', 'impl config', 'impl config 2'])
    items, ok = '', None
    refs = param == 'AllowSliceRefs'
    if form == 'move':
        body, ok = MOVE, (send and not refs and (sync or param != 'AllowCow'))
    elif form == 'share':
        body, ok = SHARE, (sync and not refs and (send or param != 'AllowCow'))
    elif form == 'clone':
        param = r.choice(['NoFeatures', 'AllowCow'])
        body, ok = CLONE, (send and (sync or param != 'AllowCow'))
    elif form == 'iterate':
        # with clone-on-write: no way from an iterator or entry to the tree, Send of the values is not needed
        body, ok = ITERATE, (sync and not refs) if send or not sync or refs else None
    elif form == 'entry':
        body, ok = ENTRY, False if not sync or refs else (True if send else None)
    elif form == 'ref':
        param = 'AllowSliceRefs'
        body, ok = REF, False
    elif form == 'borrow':
        param = 'AllowSliceRefs'
        body, ok = BORROW, False
    elif form in ('impl send', 'impl sync'):
        tr = 'RleTreeIsSend' if form == 'impl send' else 'RleTreeIsSync'
        if not refs and send and sync:
            kind, (field, value, send, sync) = 'neither', FIELDS['neither']
        items = f'impl RleTreeIsSend<usize, V> for {param} {{}}\n' if form == 'impl send' else f'impl RleTreeIsSync<usize, V> for {param} {{}}\n'
        body, ok = (MOVE if form == 'impl send' else SHARE), False
    elif form == 'impl insert':
        # values which cannot be cloned, in a clone-on-write tree
        param = 'AllowCow'
        items = f'pub struct W; impl Slice<usize> for W {{ const MAY_JOIN: bool = false; fn split_at(&mut self, _: usize) -> Self {{ W }} fn try_join(self, o: Self) -> Result<Self, (Self, Self)> {{ Err((self, o)) }} }}\n' \
                'impl<const M: usize> SupportsInsert<usize, W, M> for AllowCow {}\n'
        body, ok = 'let mut u: RleTree<usize, W, AllowCow> = RleTree::new(W, 5); u.insert(2, W, 3);', False
    else:
        base = r.choice(['NoFeatures', 'AllowCow', 'AllowSliceRefs'])
        cow, sr = r.choice(['true', 'false']), r.choice(['true', 'false'])
        pr = f'<{base} as RleTreeConfig<I, S, M>>'
        items = f'''pub struct Mine;
impl<I, S, const M: usize> RleTreeConfig<I, S, M> for Mine {{
    type YouCantImplementThis = {pr}::YouCantImplementThis;
    const COW: bool = {cow};
    const SLICE_REFS: bool = {sr};
    type StrongCount = {pr}::StrongCount;
    type SliceRefStore = {'<NoFeatures as RleTreeConfig<I, S, M>>' if form == 'impl config 2' else pr}::SliceRefStore;
}}'''
        body, ok = 'let u: RleTree<usize, Constant<u8>, Mine> = RleTree::new(Constant(1), 5); u.iter(..).count();', False
    runs = r.choice([1, 3, 40])
    m = r.choice([1, 2, 3])
    d = dict(field=field, value=value, param=param, m=m, items=items, runs=runs)
    d['body'] = body % d if '%(' in body else body
    return PROG % d, ok, f'{form}, values {kind}, {param}, M = {m}, {runs} runs'

def lattice():
    out = []
    for i in BASE:
        for s in BASE:
            for p in ('NoFeatures', 'AllowCow', 'AllowSliceRefs'):
                for c in ('NoCursor', 'BoundedCursor', 'OnlySend', 'OnlySync', 'Neither'):
                    out.append((i, s, c, p, 3))
    return out

def check(tier):
    t0 = time.time()
    lib = layer.build()
    r = random.Random(f'C24 {SEED}')
    n_random, n_progs = TIER[tier]
    combos = lattice()
    n_lattice = len(combos)
    for _ in range(n_random):
        combos.append((gen_type(r, r.randint(0, 2)), gen_type(r, r.randint(0, 3)), r.choice(['NoCursor', 'BoundedCursor', gen_type(r, 1)]),
                       r.choice(['NoFeatures', 'AllowCow', 'AllowSliceRefs']), r.choice([1, 2, 3, 4, 64, 127])))
    combos = list(dict.fromkeys(combos))
    d = os.path.join(TMP, f'markers-{os.getpid()}')
    shutil.rmtree(d, ignore_errors=True)
    complaints, stats, kinds = [], {'granted': 0, 'refused': 0, 'either allowed': 0}, set()
    progs, prog_stats, codes = [], {}, {}
    try:
        step = 60
        with ThreadPoolExecutor(8) as ex:
            parts = list(ex.map(lambda k: probe(lib, combos[k:k + step], d, f'p{k}'), range(0, len(combos), step)))
        for c, e, got in (x for p in parts for x in p):
            kinds.add((tuple(e), c[3]))
            for must, may in oracle(c, e).values():
                stats['granted' if must else 'refused' if not may else 'either allowed'] += 1
            for m in judge(c, e, got):
                complaints.append((c, m))
        seen = {}
        while len(seen) < n_progs:
            src, ok, what = program(r)
            if ok is not None:
                seen.setdefault(src, (ok, what))
            if r.random() < 1e-4:
                break
        def one(x):
            k, (src, (ok, what)) = x
            rc, out = run(lib, src, d, f'prog{k}')
            return src, ok, what, rc, out
        with ThreadPoolExecutor(8) as ex:
            progs = list(ex.map(one, enumerate(seen.items())))
        for src, ok, what, rc, out in progs:
            prog_stats['accepted and run' if ok else 'refused'] = prog_stats.get('accepted and run' if ok else 'refused', 0) + 1
            if not ok:
                m = re.search(r'error\[(E\d+)\]', out or '')
                codes[m.group(1) if m else 'other'] = codes.get(m.group(1) if m else 'other', 0) + 1
    finally:
        shutil.rmtree(d, ignore_errors=True)
    violations = 0
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    if complaints:
        violations = 1
        c, m = min(complaints, key=lambda x: (sum(map(len, map(str, x[0]))), x[1]))
        body = f'engine markers types C24\ncombination ' + ' | '.join(map(str, c)) + '\n'
        path = os.path.join(ROOT, 'replays', f'C24-types-{hashlib.sha1(body.encode()).hexdigest()[:16]}.case')
        open(path, 'w').write(f'# {m}\n# {len(complaints)} complaints in all\n' + body)
        print(m)
        print(f'VIOLATION property=C24 replay={path}')
    else:
        bad = [(len(s), s, ok, what, rc, out) for s, ok, what, rc, out in progs if (rc == 0) != ok or (not ok and rc is not None)]
        if bad:
            violations = 1
            _, src, ok, what, rc, out = min(bad)
            path = os.path.join(ROOT, 'replays', f'C24-program-{hashlib.sha1(src.encode()).hexdigest()[:16]}.case')
            msg = f'program ({what}) ' + ('is not accepted' if ok and rc is None else f'ends with {rc}' if ok else 'is accepted although it must be refused')
            open(path, 'w').write(f'# {msg}\nengine markers program C24\nmust {ok}\n' + src)
            print(msg)
            print(out[:1500] if ok else src)
            print(f'VIOLATION property=C24 replay={path}')
    ev = {
        'property': 'C24', 'tier': tier, 'seed': int(SEED), 'level': 'exploration', 'wall_s': round(time.time() - t0, 1), 'violations': violations,
        'coverage': {
            'evaluations': len(combos) + len(progs), 'distinct_nontrivial': len(combos) + len(progs),
            'rule': f'{n_lattice} combinations enumerate the Send/Sync lattice of index, value and cursor type for every feature parameter, the others are random compositions; '
                    'for each the compiler is asked for the markers of the element types and of nine public types. Programs move, share, clone, iterate across threads or '
                    'implement the deciding traits. All combinations and programs are distinct, and each asks for at least one marker',
            'marker questions by expectation': stats, 'distinct (markers of elements, parameter)': len(kinds),
            'programs': prog_stats, 'errors of refused programs': codes,
            'samples': [' | '.join(map(str, c)) for c in combos[-6:]] + [w for _, _, w, _, _ in progs[:8]],
        },
        'assumptions': ['a compiler error in a program that must be refused is taken for the refusal'],
    }
    json.dump(ev, open(os.path.join(ROOT, 'evidence', 'C24.json'), 'w'), indent=2)
    print(f'C24: {len(combos)} combinations, {len(progs)} programs {prog_stats}, {time.time() - t0:.1f}s')
    return 1 if violations else 0

def replay(path):
    lib = layer.build()
    text = open(path).read()
    d = os.path.join(TMP, f'markers-{os.getpid()}')
    try:
        m = re.search(r'^combination (.*)$', text, re.M)
        if m:
            c = m.group(1).split(' | ')
            c = tuple(c[:4]) + (int(c[4]),)
            bad = [x for c, e, got in probe(lib, [c], d, 'p') for x in judge(c, e, got)]
        else:
            ok = re.search(r'^must (\S+)$', text, re.M).group(1) == 'True'
            src = text[re.search(r'^must \S+$', text, re.M).end():]
            rc, out = run(lib, src, d, 'prog')
            bad = [f'ends with {rc} {out[:1000]}'] if (rc == 0) != ok or (not ok and rc is not None) else []
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if bad:
        print('\n'.join(bad))
        print(f'VIOLATION property=C24 replay={path}')
        return 1
    print('C24: holds on this case')
    return 0

if __name__ == '__main__':
    os.makedirs(TMP, exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    a = sys.argv[1:]
    sys.exit(check(a[2]) if a[0] == 'check' else replay(a[1]))
