#!/usr/bin/env python3
"""C27: what is borrowed from a tree never outlives what it is borrowed from.

Generated straight-line programs over trees, entries, iterators, value references, slice references,
borrows and the data which stored values refer to. A model of the language's borrowing rules, which
knows the documented lifetimes of the API, decides for each program whether it has to be accepted, has
to be refused, or may be either (refused only because a destructor that cannot touch the data is taken
to touch it). The compiler is asked, with and without the `nightly` feature, and every accepted program
is run: values notice when they are used after what they refer to is gone, and everything read has to
be what the program stored.

  lifetimes.py check C27 quick|thorough
  lifetimes.py replay FILE
"""
import json, os, random, re, subprocess, sys, time, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import confdiff

ROOT, SEED = confdiff.ROOT, confdiff.SEED
TMP = os.path.join(ROOT, 'tmp')
# programs
TIER = {'quick': 6000, 'thorough': 120000}
BATCH = 150
LIBS = ['main', 'nightly']
# errors about lifetimes
LIFETIME = {'E0309', 'E0310', 'E0373', 'E0491', 'E0499', 'E0502', 'E0505', 'E0506', 'E0515', 'E0521', 'E0597', 'E0621', 'E0713', 'E0716', 'lifetime'}

PRELUDE = r'''
#![forbid(unsafe_code)]
#![allow(warnings)]
use sherman::param::*; use sherman::*;
use std::cell::Cell;
pub struct Data { pub alive: Cell<bool>, pub id: u32, pub b: Box<u32> }
impl Data { pub fn new(id: u32) -> Data { Data { alive: Cell::new(true), id, b: Box::new(id) } } }
impl Drop for Data { fn drop(&mut self) { self.alive.set(false); *self.b = u32::MAX; } }
pub trait Val { fn id(&self) -> u32; }
// refers to the data
#[derive(Clone)] pub struct Quiet<'a> { d: &'a Data, id: u32 }
// refers to it, also when dropped
pub struct Noisy<'a> { d: &'a Data, id: u32 }
// does not refer to it
#[derive(Clone)] pub struct Own { d: String, id: u32 }
fn look(d: &Data) { assert!(d.alive.get() && *d.b == d.id, "data used after it is gone"); }
impl<'a> Quiet<'a> { fn new(d: &'a Data, id: u32) -> Self { Quiet { d, id } } }
impl<'a> Noisy<'a> { fn new(d: &'a Data, id: u32) -> Self { Noisy { d, id } } }
impl Own { fn new(d: &Data, id: u32) -> Self { Own { d: format!("{}", d.id), id } } }
impl Val for Quiet<'_> { fn id(&self) -> u32 { look(self.d); self.id } }
impl Val for Noisy<'_> { fn id(&self) -> u32 { look(self.d); self.id } }
impl Val for Own { fn id(&self) -> u32 { assert!(self.d.parse::<u32>().is_ok()); self.id } }
impl<'a> Clone for Noisy<'a> { fn clone(&self) -> Self { look(self.d); Noisy { d: self.d, id: self.id } } }
impl<'a> Drop for Noisy<'a> { fn drop(&mut self) { look(self.d) } }
macro_rules! slice { ($($t:ty),*) => { $(impl<'a> Slice<usize> for $t {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: usize) -> Self { self.clone() }
    fn try_join(self, o: Self) -> Result<Self, (Self, Self)> { Err((self, o)) }
})* } }
slice!(Quiet<'a>, Noisy<'a>); impl Slice<usize> for Own {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: usize) -> Self { self.clone() }
    fn try_join(self, o: Self) -> Result<Self, (Self, Self)> { Err((self, o)) }
}
fn id<V: Val>(v: &V) -> u32 { v.id() }
fn idu(v: &u32) -> u32 { *v }
fn eat<T>(t: T) { drop(t) }
'''

class Prog:
    """one program, built from a list of (operation, seed), with the events that decide about it"""
    def __init__(self, case):
        self.case = case
        (self.param, self.kind, self.m, self.careful), self.ops = case
        self.r = None
        self.lines, self.vars = [], {}
        self.n, self.vid, self.time = 0, 0, 0
        self.loans = []      # (what it borrows, set of holders, time)
        self.uses = []       # (time, variable, weak)
        self.kills = []      # (time, what ends or changes: (kind, name))
        self.group = {}      # tree group: union-find
        self.order = []
        self.slots, self.filled = [], set()   # declared but not yet initialized; initialized later than declared

    # --- bookkeeping ---
    def name(self, k):
        if k != 'd' and self.slots and self.r.random() < .5:
            # a variable that has been declared earlier
            v = self.slots.pop(self.r.randrange(len(self.slots)))
            self.filled.add(v)
            return v
        self.n += 1
        return f'{k}{self.n}'
    def slot(self):
        self.n += 1
        v = f'v{self.n}'
        self.time += 1
        self.lines.append(f'    let mut {v};')
        self.slots.append(v)
        self.order.append(v)
    def emit(self, s):
        self.time += 1
        self.put(s)
    def put(self, s):
        m = re.match(r'let (?:mut )?(\w+)(?:: RleTree<(.*)>)? = (.*)', s)
        if m and m[1] in self.filled:
            s = f'{m[1]} = ' + (m[3].replace('RleTree::', f'RleTree::<{m[2]}>::') if m[2] else m[3])
        self.lines.append('    ' + s)
    def use(self, v, weak=False):
        self.uses.append((self.time, v, weak))
    def kill(self, v):
        self.kills.append((self.time, v))
    def loan(self, what, holder):
        """`holder` (a variable, or a group of trees) borrows `what`"""
        self.loans.append([what, {holder}, self.time])
    def derive(self, src, dst):
        """whatever `src` borrows, `dst` borrows"""
        for l in self.loans:
            if src in l[1]:
                l[1].add(dst)
    def var(self, name, kind, **kw):
        self.vars[name] = dict(kind=kind, live=True, **kw)
        if name not in self.filled:
            self.order.append(name)
        return name
    def find(self, g):
        while self.group[g] != g:
            g = self.group[g]
        return g
    def of(self, *kinds):
        return [v for v, x in self.vars.items() if x['live'] and x['kind'] in kinds]

    # --- statements ---
    def data(self):
        v = self.name('d')
        self.emit(f'let {v} = Data::new({self.n});')
        self.var(v, 'data')
    def tree(self, first=None):
        v = self.name('t')
        g = v
        self.group[g] = g
        self.emit(f'let mut {v}: RleTree<usize, {self.kind}, {self.param}, {self.m}> = RleTree::new_empty();')
        self.var(v, 'tree', g=g, ids=[], expr=v)
        return v
    def value(self, d, g):
        self.vid += 1
        if self.kind != 'Own':
            self.loan(d, ('g', g))
        return f'{self.kind}::new(&{d}, {self.vid})'
    def insert(self, t, d, form=0):
        x = self.vars[t]
        pos = self.r.choice([0, len(x['ids']), self.r.randint(0, len(x['ids']))])
        k = self.r.choice([1, 1, 1, 6])
        src = []
        for _ in range(k):
            self.time += 1
            val = self.value(d, x['g'])
            if form == 1 and k == 1 and self.param == 'AllowSliceRefs':
                r = self.name('r')
                src.append(f'let {r} = {x["expr"]}.insert_ref({pos * 10}, {val}, 10);')
                self.ref(r, x['g'], self.vid, t)
            elif form == 2:
                src.append(f'let _: BoundedCursor = {x["expr"]}.insert_with_cursor(BoundedCursor::new_empty(), {pos * 10}, {val}, 10);')
            else:
                src.append(f'{x["expr"]}.insert({pos * 10}, {val}, 10);')
            x['ids'].insert(pos, self.vid)
            self.put(src[-1])
            self.use(t)
            self.kill(('tree', t))
    def ref(self, r, g, ident, t):
        self.var(r, 'ref', g=g, id=ident, tree=t)
    def get(self, t):
        x = self.vars[t]
        if not x['ids']:
            return
        i = self.r.randrange(len(x['ids']))
        form = self.r.randrange(4)
        v = self.name('e')
        at = i * 10 + self.r.randrange(10)
        call = f'{x["expr"]}.get({at})' if form else f'{x["expr"]}.get_with_cursor(BoundedCursor::<4>::new_empty(), {at})'
        if self.r.random() < .3:
            self.emit(f'let {v} = {call}.slice();')
            k = 'slice'
        else:
            self.emit(f'let {v} = {call};')
            k = 'entry'
        self.use(t)
        self.loan(('tree', t), v)
        self.var(v, k, id=x['ids'][i], i=i, tree=t, g=x['g'], n=len(x['ids']))
    def iter(self, t):
        x = self.vars[t]
        v = self.name('it')
        call = f'{x["expr"]}.iter(..)' if self.r.random() < .7 else f'{x["expr"]}.iter_with_cursor(NoCursor, {"0.." if x["ids"] else ".."})'
        self.emit(f'let mut {v} = {call};')
        self.use(t)
        self.loan(('tree', t), v)
        self.var(v, 'iter', ids=list(x['ids']), tree=t, g=x['g'])
    def step(self, it):
        x = self.vars[it]
        back = self.r.random() < .4
        call = f'{it}.next_back()' if back else f'{it}.next()'
        if not x['ids']:
            self.emit(f'assert!({call}.is_none());')
            self.use(it)
            return
        ident = x['ids'].pop() if back else x['ids'].pop(0)
        v = self.name('e')
        slice = self.r.random() < .4
        self.emit(f'let {v} = {call}.unwrap(){".slice()" if slice else ""};')
        self.use(it)
        self.derive(it, v)
        self.var(v, 'slice' if slice else 'entry', id=ident, tree=x['tree'], g=x['g'])
    def slice(self, e):
        x = self.vars[e]
        v = self.name('s')
        self.emit(f'let {v} = {e}.slice();')
        self.use(e)
        self.derive(e, v)
        self.var(v, 'slice', id=x['id'], tree=x['tree'], g=x['g'])
    def copy(self, e):
        x = self.vars[e]
        v = self.name('e')
        self.emit(f'let {v} = {e}' + self.r.choice(['', '.clone()']) + ';')
        self.use(e)
        self.derive(e, v)
        self.var(v, x['kind'], id=x['id'], tree=x['tree'], g=x['g'])
    def read(self, v):
        x = self.vars[v]
        k = x['kind']
        if k == 'entry':
            self.emit(f'assert_eq!(id({v}.slice()), {x["id"]}); assert_eq!({v}.size(), 10);')
        elif k == 'slice':
            self.emit(f'assert_eq!(id({v}), {x["id"]});')
        elif k == 'borrow':
            self.emit(f'assert_eq!({"idu" if x["part"] else "id"}(&*{v}), {x["id"]});')
        elif k == 'ref':
            if not x.get('dead') and self.r.random() < .5:
                self.emit(f'assert_eq!(id(&*{v}.borrow_slice()), {x["id"]});')
            elif x.get('dead') == 'kept':
                self.emit(f'let _ = {v}.try_range();')
            else:
                self.emit(f'assert!({v}.try_range().is_{"none" if x.get("dead") else "some"}());')
        elif k == 'tree':
            self.emit(f'assert!({x["expr"]}.iter(..).map(|e| id(e.slice())).eq({x["ids"]}.into_iter().map(|x: u32| x)));' if x['ids'] else f'assert_eq!({x["expr"]}.size(), 0);')
        elif k == 'iter':
            self.emit(f'let _ = {v}.size_hint();')
        self.use(v)
    def make_ref(self, e):
        x = self.vars[e]
        r = self.name('r')
        self.emit(f'let {r} = {e}.make_ref();')
        self.use(e)
        self.ref(r, x['g'], x['id'], x['tree'])
    def clone_ref(self, a):
        x = self.vars[a]
        r = self.name('r')
        self.emit(f'let {r} = {a}.clone();')
        self.use(a)
        self.ref(r, x['g'], x['id'], x['tree'])
        self.vars[r]['dead'] = x.get('dead')
    def borrow(self, a):
        x = self.vars[a]
        if x.get('dead'):
            return
        v = self.name('b')
        call = '.borrow_slice()' if self.r.random() < .6 else '.try_borrow_slice().unwrap()'
        self.emit(f'let {v} = {a}{call};')
        self.use(a)
        self.loan(('ref', a), v)
        self.var(v, 'borrow', id=x['id'], part=False, tree=x['tree'], g=x['g'])
    def map(self, b):
        x = self.vars[b]
        v = self.name('b')
        if x['part'] or self.r.random() < .4:
            self.emit(f'let {v} = {b}.clone();')
            self.use(b)
            part = x['part']
        else:
            self.emit(f'let {v} = Borrow::map({b}, |v| &v.id);')
            self.use(b)
            x['live'], x['gone'], x['gone_at'] = False, True, self.time
            part = True
        self.derive(b, v)
        self.var(v, 'borrow', id=x['id'], part=part, tree=x['tree'], g=x['g'])
    def clone_tree(self, t):
        x = self.vars[t]
        if self.param == 'AllowSliceRefs':
            return
        v = self.name('t')
        self.emit(f'let mut {v} = {x["expr"]}.clone();')
        self.use(t)
        self.var(v, 'tree', g=x['g'], ids=list(x['ids']), expr=v)
    def swap(self, a, b):
        x, y = self.vars[a], self.vars[b]
        self.emit(f'std::mem::swap(&mut {x["expr"]}, &mut {y["expr"]});' if self.r.random() < .5 else
                  f'{{ let h = std::mem::replace(&mut {x["expr"]}, RleTree::new_empty()); {x["expr"]} = std::mem::replace(&mut {y["expr"]}, h); }}')
        self.use(a); self.use(b)
        self.kill(('tree', a)); self.kill(('tree', b))
        x['ids'], y['ids'] = y['ids'], x['ids']
        self.unite(x['g'], y['g'])
        for z in self.vars.values():
            if z['kind'] in ('ref', 'borrow'):
                z['tree'] = b if z['tree'] == a else a if z['tree'] == b else z['tree']
    def unite(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.group[a] = b
    def move(self, t):
        x = self.vars[t]
        v = self.name('t')
        if x['expr'] != t:
            # the box, and not out of it (which would leave a box to be dropped behind)
            self.emit(f'let mut {v} = {t};')
            e = f'(*{v})'
        elif self.r.random() < .5:
            self.emit(f'let mut {v} = {t};')
            e = v
        else:
            self.emit(f'let mut {v} = Box::new({x["expr"]});')
            e = f'(*{v})'
        self.use(t)
        self.kill(('tree', t))
        x['live'], x['gone'], x['gone_at'] = False, True, self.time
        self.var(v, 'tree', g=x['g'], ids=list(x['ids']), expr=e)
        for z in self.vars.values():
            if z['kind'] in ('ref', 'borrow') and z['tree'] == t:
                z['tree'] = v
    def drop(self, v):
        x = self.vars[v]
        self.emit(self.r.choice(['drop', 'eat']) + f'({v});')
        self.use(v)
        self.end(v)
        x['live'], x['gone'], x['gone_at'] = False, True, self.time
    def end(self, v):
        """`v` is dropped or moved away: nothing may borrow it any more"""
        x = self.vars[v]
        if x['kind'] == 'tree':
            self.kill(('tree', v))
            for z in self.vars.values():
                if z['kind'] == 'ref' and z['tree'] == v:
                    # (while something is borrowed from it the tree is kept, and its references may go on telling)
                    z['dead'] = 'kept' if any(b['kind'] == 'borrow' and not b.get('gone') and b['tree'] == v for b in self.vars.values()) else True
        elif x['kind'] == 'ref':
            self.kill(('ref', v))
        elif x['kind'] == 'data':
            self.kill(v)

    # --- generation ---
    def valid(self, what):
        """whether nothing that is still to be used borrows `what` (used to generate acceptable programs)"""
        return not any(l[0] == what and any(self.alive(h) for h in l[1]) for l in self.loans)
    def alive(self, h):
        if isinstance(h, tuple):
            return any(x['live'] and x.get('g') and self.find(x['g']) == self.find(h[1]) for x in self.vars.values())
        return self.vars[h]['live']
    def forget(self, what):
        """use nothing that borrows `what` from now on"""
        for l in self.loans:
            if l[0] == what:
                for h in l[1]:
                    if not isinstance(h, tuple) and self.vars[h]['kind'] != 'borrow':
                        self.vars[h]['live'] = False
    def build(self):
        for k, seed in self.ops:
            self.r = random.Random(seed)
            self.op(k)
        # the end of the scope
        self.lines = [l for l in self.lines if not any(l == f'    let mut {v};' for v in self.slots)]
        for v in reversed(self.order):
            if v in self.slots:
                continue
            x = self.vars[v]
            self.time += 1
            if x.get('gone'):
                continue
            if x['kind'] == 'tree':
                self.use(v, weak=self.kind != 'Noisy')
                self.kill(('tree', v))
            elif x['kind'] == 'ref':
                self.use(v, weak=True)
                self.kill(('ref', v))
            elif x['kind'] == 'borrow':
                self.use(v, weak='borrow')
            elif x['kind'] == 'data':
                self.kill(v)
        return self
    def op(self, k):
        r, careful = self.r, self.careful
        trees, datas = self.of('tree'), self.of('data')
        if k == 'insert' and trees and datas:
            t, d = r.choice(trees), r.choice(datas)
            # inserting while a borrow is held panics by documentation
            if any(x['kind'] == 'borrow' and x['live'] and x['tree'] == t for x in self.vars.values()):
                return
            if careful:
                self.forget(('tree', t))
            self.insert(t, d, r.randrange(4))
        elif k == 'get' and trees:
            self.get(r.choice(trees))
        elif k == 'iter' and trees:
            self.iter(r.choice(trees))
        elif k == 'step' and self.of('iter'):
            self.step(r.choice(self.of('iter')))
        elif k in ('slice', 'copy') and self.of('entry'):
            getattr(self, k)(r.choice(self.of('entry')))
        elif k == 'read' and self.of('entry', 'slice', 'borrow', 'ref', 'tree', 'iter'):
            self.read(r.choice(self.of('entry', 'slice', 'borrow', 'ref', 'tree', 'iter')))
        elif k == 'ref' and self.param == 'AllowSliceRefs' and self.of('entry'):
            self.make_ref(r.choice(self.of('entry')))
        elif k == 'cref' and self.of('ref'):
            self.clone_ref(r.choice(self.of('ref')))
        elif k == 'borrow' and self.of('ref'):
            self.borrow(r.choice(self.of('ref')))
        elif k == 'map' and self.of('borrow'):
            self.map(r.choice(self.of('borrow')))
        elif k == 'clone' and trees and len(trees) < 4:
            self.clone_tree(r.choice(trees))
        elif k in ('swap', 'move') and trees:
            ts = r.sample(trees, 2) if k == 'swap' and len(trees) > 1 else [r.choice(trees)] if k == 'move' else []
            if ts:
                if careful:
                    for t in ts:
                        self.forget(('tree', t))
                getattr(self, k)(*ts)
        elif k in ('drop', 'dropd'):
            c = datas if k == 'dropd' else self.of('tree', 'entry', 'slice', 'iter', 'ref', 'borrow')
            if not c:
                return
            v = r.choice(c)
            kind = self.vars[v]['kind']
            what = ('tree', v) if kind == 'tree' else ('ref', v) if kind == 'ref' else v
            if careful and kind == 'tree':
                self.forget(what)
            if careful and not self.valid(what):
                return
            self.drop(v)
        elif k == 'data' and len(datas) < 4:
            self.data()
        elif k == 'slot' and len(self.slots) < 3:
            self.slot()
        elif k == 'tree' and len(trees) < 3:
            self.tree()
        elif k == 'late':
            # something which may be gone by now
            c = self.of('entry', 'slice', 'iter', 'borrow')
            if c:
                self.read(r.choice(c))
        elif k == 'tidy':
            # everything that refers to data, before the data goes
            for v in reversed(self.order):
                x = self.vars.get(v, {'live': False})
                if x['live'] and (x['kind'] == 'borrow' or x['kind'] in ('ref', 'tree') and r.random() < .8):
                    self.drop(v)

    # --- the verdict ---
    def verdict(self):
        """('accept' | 'refuse' | 'either', reason)"""
        last = {}   # holder -> {strong: time of last use, weak: time}
        for t, v, weak in self.uses:
            last.setdefault(v, []).append((t, weak))
        either = None
        # any statement may unwind: whatever is declared before the data is then dropped after it
        for target, holders, lt in self.loans:
            if isinstance(target, tuple):
                if any(h in self.filled and self.order.index(h) < self.order.index(target[1]) for h in holders if not isinstance(h, tuple)):
                    either = f'something that borrows {target[1]} is dropped after it when a later step unwinds'
                continue
            if self.vars[target]['kind'] != 'data':
                continue
            for h in holders:
                names = [h]
                if isinstance(h, tuple):
                    names = [v for v, x in self.vars.items() if x.get('g') and self.find(x['g']) == self.find(h[1])]
                for n in names:
                    x = self.vars[n]
                    if self.order.index(n) < self.order.index(target) and x['kind'] in ('tree', 'ref', 'borrow'):
                        why = f'{n} is dropped after {target} when step {lt} unwinds'
                        # (what has been moved away by then may still be in the way: unwinding paths are shared)
                        if x['kind'] == 'tree' and self.kind == 'Noisy' and x.get('gone_at', 1 << 60) >= lt and n not in self.filled:
                            return 'refuse', why
                        either = why
        for kt, what in self.kills:
            for target, holders, lt in self.loans:
                if target != what or lt > kt:
                    continue
                for h in holders:
                    names = [h]
                    if isinstance(h, tuple):
                        g = self.find(h[1])
                        names = [v for v, x in self.vars.items() if x.get('g') and self.find(x['g']) == g]
                    for n in names:
                        for t, weak in last.get(n, []):
                            if t <= kt:
                                continue
                            k = self.vars[n]['kind']
                            if weak == 'borrow':
                                # its destructor gives back the borrow, and may drop values
                                strong = not isinstance(h, tuple) or self.kind == 'Noisy'
                            else:
                                strong = not weak
                            why = f'{n} is used (step {t}) after {what} is changed or gone (step {kt})'
                            if strong:
                                return 'refuse', why
                            either = why
        return ('either', either) if either else ('accept', '')

    def key(self):
        return self.param, self.kind, self.m, tuple(self.lines)
    def source(self, k):
        return f'fn p{k}() {{\n' + '\n'.join(self.lines) + '\n}\n'

KINDS = {'insert': 8, 'get': 6, 'iter': 4, 'step': 5, 'slice': 2, 'copy': 2, 'read': 8, 'ref': 4, 'cref': 1, 'borrow': 4, 'map': 2, 'clone': 1,
         'swap': 1, 'move': 1, 'drop': 3, 'data': 1, 'tree': 1, 'dropd': 1, 'slot': 1}

def gen(r):
    careful = r.random() < .55
    head = (r.choice(['NoFeatures', 'AllowCow', 'AllowSliceRefs', 'AllowSliceRefs']), r.choice(['Quiet', 'Noisy', 'Noisy', 'Own']), r.choice([1, 1, 2, 5]), careful)
    ks = r.choice([['data', 'tree'], ['data', 'data', 'tree'], ['tree', 'data'], ['data', 'tree', 'data']])
    if r.random() < .3:
        ks.insert(r.randrange(len(ks)), 'slot')
    ks = ks + r.choices(list(KINDS), list(KINDS.values()), k=r.randint(4, 22))
    if r.random() < .2:
        # short ones about the order in which things are declared, and so dropped
        ks = ['slot'] * r.randint(0, 2) + r.choice([['data', 'tree'], ['tree', 'data'], ['data', 'data', 'tree']]) + ['slot'] * r.randint(0, 1) + ['insert', r.choice(['insert', 'ref', 'get'])] \
            + r.choices(['ref', 'borrow', 'borrow', 'map', 'get', 'iter', 'copy', 'move', 'clone', 'cref', 'slot', 'read', 'drop'], k=r.randint(1, 5))
        head = (r.choice(['NoFeatures', 'AllowCow'] + ['AllowSliceRefs'] * 4),) + head[1:]
    if not careful and r.random() < .6:
        ks.append('late')
    if careful and r.random() < .9:
        ks.append('tidy')
    return head, [(k, r.getrandbits(32)) for k in ks]

# ---- signatures -------------------------------------------------------------------------------

ACC = [
    # (argument type, expression, result type with the lifetime 'r; the argument is borrowed for 't)
    ("&'t RleTree<usize, {v}, {p}, {m}>", 'x.get(0)', "SliceEntry<'r, usize, {v}, {p}, {m}>"),
    ("&'t RleTree<usize, {v}, {p}, {m}>", 'x.get(0).slice()', "&'r {v}"),
    ("&'t RleTree<usize, {v}, {p}, {m}>", 'x.get_with_cursor(NoCursor, 0)', "SliceEntry<'r, usize, {v}, {p}, {m}>"),
    ("&'t RleTree<usize, {v}, {p}, {m}>", 'x.iter(..)', "Iter<'r, NoCursor, usize, {v}, {p}, {m}>"),
    ("&'t RleTree<usize, {v}, {p}, {m}>", 'x.iter_with_cursor(BoundedCursor::<3>::new_empty(), ..)', "Iter<'r, BoundedCursor<3>, usize, {v}, {p}, {m}>"),
    ("&'t RleTree<usize, {v}, {p}, {m}>", 'x.iter(..).next().unwrap()', "SliceEntry<'r, usize, {v}, {p}, {m}>"),
    ("&'t RleTree<usize, {v}, {p}, {m}>", 'x.iter(..).next_back().unwrap().slice()', "&'r {v}"),
    ("&'t RleTree<usize, {v}, {p}, {m}>", 'x.iter(0..5).map(|e| e.slice()).last().unwrap()', "&'r {v}"),
    ("SliceEntry<'t, usize, {v}, {p}, {m}>", 'x.slice()', "&'r {v}"),
    ("SliceEntry<'t, usize, {v}, {p}, {m}>", 'x.clone()', "SliceEntry<'r, usize, {v}, {p}, {m}>"),
    ("Iter<'t, NoCursor, usize, {v}, {p}, {m}>", '{{ let mut x = x; x.next().unwrap() }}', "SliceEntry<'r, usize, {v}, {p}, {m}>"),
    ("Iter<'t, NoCursor, usize, {v}, {p}, {m}>", '{{ let mut x = x; x.next_back().unwrap().slice() }}', "&'r {v}"),
    ("&'t mut RleTree<usize, {v}, {p}, {m}>", 'x.drain(0..1)', "Drain<'r, NoCursor, usize, {v}, {p}, {m}>"),
    ("&'t mut RleTree<usize, {v}, {p}, {m}>", 'x.get(0).slice()', "&'r {v}"),
    ("&'t SliceRef<usize, {v}, {m}>", 'x.borrow_slice()', "Borrow<'r, {v}>"),
    ("&'t SliceRef<usize, {v}, {m}>", 'x.try_borrow_slice().unwrap()', "Borrow<'r, {v}>"),
    ("&'t SliceRef<usize, {v}, {m}>", 'x.borrow_slice().clone()', "Borrow<'r, {v}>"),
    ("&'t SliceRef<usize, {v}, {m}>", 'Borrow::map(x.borrow_slice(), |v| v)', "Borrow<'r, {v}>"),
    ("Borrow<'t, {v}>", 'x.clone()', "Borrow<'r, {v}>"),
    ("Borrow<'t, {v}>", 'Borrow::map(x, |v| v)', "Borrow<'r, {v}>"),
    ("&'t Borrow<'static, {v}>", '&**x', "&'r {v}"),
]
# conversions of the lifetime of the stored data; {l} and {s}: longer and shorter
CONV = ["RleTree<usize, {}, {p}, {m}>", "SliceRef<usize, {}, {m}>", "&'static RleTree<usize, {}, {p}, {m}>", "SliceEntry<'static, usize, {}, {p}, {m}>",
        "Iter<'static, NoCursor, usize, {}, {p}, {m}>", "Borrow<'static, {}>", "Drain<'static, NoCursor, usize, {}, {p}, {m}>", "&'static mut RleTree<usize, {}, {p}, {m}>"]

# through which the lifetime of stored data has to be kept: argument, expression, result
DATA = [
    ("&'t RleTree<usize, {v}, {p}, {m}>", 'x.get(0).slice().clone()', '{v}'),
    ("&'t RleTree<usize, {v}, {p}, {m}>", 'x.iter(..).next().unwrap().slice().clone()', '{v}'),
    ("SliceEntry<'t, usize, {v}, {p}, {m}>", 'x.slice().clone()', '{v}'),
    ("Iter<'t, NoCursor, usize, {v}, {p}, {m}>", '{{ let mut x = x; x.next().unwrap().slice().clone() }}', '{v}'),
    ("&'t RleTree<usize, {v}, NoFeatures, {m}>", 'x.clone()', 'RleTree<usize, {v}, NoFeatures, {m}>'),
    ("&'t RleTree<usize, {v}, AllowCow, {m}>", 'x.clone()', 'RleTree<usize, {v}, AllowCow, {m}>'),
    ("&'t RleTree<usize, {v}, AllowSliceRefs, {m}>", 'x.get(0).make_ref()', 'SliceRef<usize, {v}, {m}>'),
    ("SliceEntry<'t, usize, {v}, AllowSliceRefs, {m}>", 'x.make_ref()', 'SliceRef<usize, {v}, {m}>'),
    ("&'t SliceRef<usize, {v}, {m}>", 'x.clone()', 'SliceRef<usize, {v}, {m}>'),
    ("&'t SliceRef<usize, {v}, {m}>", '(*x.borrow_slice()).clone()', '{v}'),
    ("Borrow<'t, {v}>", '(*x).clone()', '{v}'),
    ("{v}", 'RleTree::new(x, 1)', 'RleTree<usize, {v}, {p}, {m}>'),
]
# what stores a value in a tree
STORE = [
    ('{p}', 't.insert(0, x, 1)'), ('{p}', 't.insert_with_cursor(NoCursor, 0, x, 1)'), ('{p}', 't.insert_with_cursor(BoundedCursor::<2>::new_empty(), 0, x, 1)'),
    ('AllowSliceRefs', 't.insert_ref(0, x, 1)'), ('AllowSliceRefs', 't.insert_ref_with_cursor(NoCursor, 0, x, 1)'),
]
# what user code is given inside of a call and must not keep
ESCAPE = [
    ('refuse', "fn p{k}<'t, 'v: 't>(x: Borrow<'t, Quiet<'v>>) -> &'t Quiet<'v> {{ let mut o = None; let b = Borrow::map(x, |v| {{ o = Some(v); v }}); o.unwrap() }}"),
    ('refuse', "fn p{k}<'t, 'v: 't>(x: Borrow<'t, Quiet<'v>>) {{ let mut o = None; let b = Borrow::map(x, |v| {{ o = Some(v); &v.id }}); drop(b); o.map(|v: &Quiet| v.id()); }}"),
    ('refuse', "fn p{k}(x: &SliceRef<usize, Own, 2>) {{ let o = Cell::new(None); drop(Borrow::map(x.borrow_slice(), |v| {{ o.set(Some(&v.d)); &v.id }})); o.take().map(|v: &String| v.len()); }}"),
    ('accept', "fn p{k}<'t, 'v: 't>(x: Borrow<'t, Quiet<'v>>) -> (u32, Borrow<'t, u32>) {{ let mut o = None; let b = Borrow::map(x, |v| {{ o = Some(v.id()); &v.id }}); (o.unwrap(), b) }}"),
    ('refuse', "fn p{k}<'t, 'v: 't>(x: Borrow<'t, Quiet<'v>>, y: &'t u32) -> Borrow<'t, u32> {{ let z = 5; Borrow::map(x, |v| &z) }}"),
    ('refuse', "fn p{k}<'t, 'r, 'v>(x: &'r Borrow<'t, Quiet<'v>>) -> &'t Quiet<'v> {{ &**x }}"),
    ('refuse', "fn p{k}<'t, 'r, 'v>(x: &'r Borrow<'t, Quiet<'v>>) -> &'t u32 {{ &x.id }}"),
    ('accept', "fn p{k}<'t, 'r, 'v>(x: &'r Borrow<'t, Quiet<'v>>) -> &'r u32 {{ &x.id }}"),
    ('accept', "fn p{k}<'t, 'r, 'v: 't>(x: &'r SliceEntry<'t, usize, Quiet<'v>, AllowCow>) -> &'t Quiet<'v> {{ x.slice() }}"),
    ('accept', "fn p{k}<'t, 'r, 'v: 't>(x: &'r mut Iter<'t, NoCursor, usize, Quiet<'v>, AllowCow>) -> Option<SliceEntry<'t, usize, Quiet<'v>, AllowCow>> {{ x.next() }}"),
    ('accept', "fn p{k}<'t, 'r, 'v: 't>(x: &'r mut Iter<'t, NoCursor, usize, Quiet<'v>, AllowSliceRefs>) -> Option<SliceEntry<'t, usize, Quiet<'v>, AllowSliceRefs>> {{ x.next_back() }}"),
    ('accept', "fn p{k}<'t, 'v>(x: &'t RleTree<usize, Quiet<'v>, AllowSliceRefs>) -> (SliceRef<usize, Quiet<'v>>, BoundedCursor<3>) {{ (x.get(0).make_ref(), x.cursor_to(0)) }}"),
]

def signatures():
    """[(source, expected, description)]"""
    out = [(s + '\n', e, 'given inside of a call') for e, s in ESCAPE]
    esc = lambda s: s.replace('{', '{{').replace('}', '}}')
    for p in ('NoFeatures', 'AllowCow', 'AllowSliceRefs'):
        for m in (1, 5):
            for val in ("Quiet<'{}>", "Constant<&'{} str>", "Constant<Option<&'{} Cell<u32>>>"):
                for arg, ex, res in DATA:
                    if (p != 'AllowSliceRefs' and '{p}' not in arg + res):
                        continue
                    for form, params, ok in (('same', "'t, 'v: 't", 'accept'), ('longer', "'t, 'v: 't, 'w: 'v", 'refuse'), ('other', "'t, 'v: 't, 'w", 'refuse'), ('static', "'t, 'v: 't", 'refuse')):
                        f = lambda l: dict(v=val.format(l), p=p, m=m)
                        l2 = {'same': 'v', 'static': 'static'}.get(form, 'w')
                        out.append((f"fn p{{k}}<{params}>(x: {arg.format(**f('v'))}) -> {res.format(**f(l2))} {{{{ {esc(ex.format(**f('v')))} }}}}\n", ok, f'{form} lifetime of the data: {ex}, {p}, M = {m}'))
                for tp, ex in STORE:
                    if p != 'AllowSliceRefs' and '{p}' not in tp:
                        continue
                    for form, params, l2, ok in (('same', "'v", 'v', 'accept'), ('longer', "'v, 'w: 'v", 'w', 'accept'), ('shorter', "'w, 'v: 'w", 'w', 'refuse'), ('other', "'v, 'w", 'w', 'refuse')):
                        out.append((f"fn p{{k}}<{params}>(t: &mut RleTree<usize, {val.format('v')}, {tp.format(p=p)}, {m}>, x: {val.format(l2)}) {{{{ {ex}; }}}}\n", ok, f'stored, {form} lifetime of the data: {ex}, {p}, M = {m}'))
    for p in ('NoFeatures', 'AllowCow', 'AllowSliceRefs'):
        for m in (1, 5):
            for arg, ex, res in ACC:
                if ('SliceRef<' in arg or 'Borrow<' in arg) and p != 'AllowSliceRefs':
                    continue
                f = dict(v="Quiet<'v>", p=p, m=m)
                a, ex, rs = arg.format(**f), ex.format(**f), res.format(**f)
                if "Borrow<'static" in arg:
                    a, rs = a.replace("'v>", "'static>"), rs.replace("'v>", "'static>")
                for form, params, ok in [('same', "'t, 'v: 't", 'accept'), ('shorter', "'t: 'r, 'r, 'v: 't", 'accept' if "Iter<'r" not in rs and "Drain<" not in rs else 'either'),
                                         ('unrelated', "'t, 'r, 'v: 't + 'r", 'refuse'), ('longer', "'t, 'r: 't, 'v: 'r + 't", 'refuse'), ('static', "'t, 'v: 't", 'refuse'),
                                         ('of the data', "'t, 'v: 't", 'refuse')]:
                    r2 = rs.replace("'r", {'same': "'t", 'static': "'static", 'of the data': "'v"}.get(form, "'r"))
                    if "Borrow<'static" in arg and form == 'of the data':
                        continue
                    src = f"fn p{{k}}<{params}>(x: {a.replace('{', '{{')}) -> {r2} {{{{ {ex.replace('{', '{{').replace('}', '}}')} }}}}\n"
                    out.append((src, ok, f'{form} lifetime: {ex}, {p}, M = {m}'))
            for c in CONV:
                if ('SliceRef<' in c or 'Borrow<' in c) and p != 'AllowSliceRefs':
                    continue
                for val in ("Quiet<'{}>", "Noisy<'{}>", "Constant<&'{} str>"):
                    inner = c.format(val, p=p, m=m)
                    for form, a, b in (('longer', 'a', 'b'), ('shorter', 'b', 'a')):
                        x, y = inner.format(a), inner.format(b)
                        if form == 'shorter':
                            # values of shorter-lived types may then be put where longer-lived ones are expected
                            bad = ('AllowSliceRefs' == p and inner.startswith('RleTree')) or inner.startswith("&'static mut") or inner.startswith('Drain')
                            ok = 'refuse' if bad else 'either'
                        else:
                            ok = 'refuse'
                        x, y = (z.replace("'static", "'t") for z in (x, y))
                        out.append((f"fn p{{k}}<'t, 'a: 't, 'b: 'a>(x: {x}) -> {y} {{{{ x }}}}\n", ok, f'stored data made {form}: {x} to {y}, {p}'))
    return out

# ---- compiling --------------------------------------------------------------------------------

def libs():
    confdiff.build(LIBS)
    return {n: json.load(open(os.path.join(confdiff.BASE, n, 'lib.json'))) for n in LIBS}

def rustc(lib, name, args, src, d, tag):
    f = os.path.join(d, f'{tag}-{name}.rs')
    open(f, 'w').write(src)
    e = confdiff.env(name)
    a = ['rustc', '--edition', '2021', '--cap-lints', 'allow', '-C', 'debuginfo=0', '-C', 'opt-level=0', '--error-format=json', '--crate-name', 'prog']
    for x in lib['externs']:
        a += ['--extern', f'sherman={x}']
    for x in lib['dirs']:
        a += ['-L', f'dependency={x}']
    p = subprocess.run(a + args + [f], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace')
    errs = []
    for l in p.stderr.splitlines():
        if l.startswith('{'):
            m = json.loads(l)
            if m.get('level', '').startswith('error'):
                errs.append(m)
    return p.returncode, errs, p.stderr

def ask(lib, name, items, d, tag, run=True):
    """[(accepted?, message, outcome)] of the items (sources with {k} as their number)"""
    lines, spans = PRELUDE.count('\n'), []
    src = PRELUDE
    for s in items:
        n = s.count('\n')
        spans.append((lines + 1, lines + n))
        lines += n
        src += s
    rc, errs, raw = rustc(lib, name, ['--emit=metadata', '-o', os.path.join(d, f'{tag}-{name}.meta')], src + 'fn main() {}\n', d, tag)
    res = [[True, '', None] for _ in items]
    for m in errs:
        where = [s['line_start'] for s in m['spans'] if s['is_primary']] or [s['line_start'] for s in m['spans']]
        hit = [k for k, (a, b) in enumerate(spans) if any(a <= w <= b for w in where)]
        for k in hit:
            if res[k][0]:
                code = (m.get('code') or {}).get('code') if m.get('code') else None
                res[k][:2] = [False, (code or 'lifetime') + ': ' + m['message']]
        if not hit and where:
            return None, m.get('rendered') or m['message']
    if rc != 0 and not errs:
        return None, raw[-3000:]
    if run:
        good = [k for k in range(len(items)) if res[k][0]]
        # started again behind a program which ends the process
        main = 'fn main() {\n std::panic::set_hook(Box::new(|_| {}));\n let from: usize = std::env::args().nth(1).unwrap().parse().unwrap();\n' + ''.join(
            f' if {k} >= from {{ println!("{k} {{}}", match std::panic::catch_unwind(p{k}) {{ Ok(()) => "ok".to_string(), Err(e) => e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().replace("\\n", " ") }}); }}\n' for k in good) + '}\n'
        b = os.path.join(d, f'{tag}-{name}.bin')
        rc, errs, raw = rustc(lib, name, ['-o', b], PRELUDE + ''.join(items[k] for k in good) + main, d, tag + 'r')
        if rc != 0:
            return None, raw[-3000:]
        todo = list(good)
        for _ in range(20):
            if not todo:
                break
            how = 'time out'
            try:
                q = subprocess.run([b, str(todo[0])], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', timeout=60)
                out, how = q.stdout, q.returncode
            except subprocess.TimeoutExpired as ex:
                out = (ex.stdout or b'').decode(errors='replace')
            for l in out.splitlines():
                k, _, o = l.partition(' ')
                if k.isdigit() and int(k) in todo:
                    res[int(k)][2] = o
                    todo.remove(int(k))
            if todo:
                res[todo.pop(0)][2] = f'does not end normally ({how})'
        for k in todo:
            res[k][2] = 'ok'   # (not run: enough has gone wrong already)
        os.unlink(b)
    return res, None

def judge(exp, why, got):
    ok, msg, outcome = got
    if exp == 'accept' and not ok:
        return f'is refused ({msg}), although it keeps to the documented lifetimes'
    if exp == 'refuse' and ok:
        return f'is accepted although it must be refused: {why}' + (f'; when run: {outcome}' if outcome else '')
    if ok and outcome not in (None, 'ok'):
        return f'is accepted, but when run: {outcome}'

def check(tier):
    t0 = time.time()
    L = libs()
    r = random.Random(f'C27 {SEED}')
    d = os.path.join(TMP, f'lifetimes-{os.getpid()}')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    progs, seen = [], set()
    while len(progs) < TIER[tier]:
        p = Prog(gen(r)).build()
        if p.key() in seen:
            continue
        seen.add(p.key())
        progs.append(p)
    sigs = signatures()
    jobs = []   # (kind, sources, expectations)
    for k in range(0, len(progs), BATCH):
        ps = progs[k:k + BATCH]
        jobs.append(('program', [p.source(i) for i, p in enumerate(ps)], [p.verdict() for p in ps], [p.case for p in ps]))
    for k in range(0, len(sigs), 200):
        ss = sigs[k:k + 200]
        jobs.append(('signature', [s.format(k=i) for i, (s, _, _) in enumerate(ss)], [(e, w) for _, e, w in ss], ss))
    stats, codes, bad, broken = {}, {}, [], None
    def one(x):
        j, (kind, srcs, exps, _) = x
        return [(name, ask(L[name], name, srcs, d, f'j{j}', kind == 'program')) for name in LIBS]
    try:
        with ThreadPoolExecutor(8) as ex:
            for (kind, srcs, exps, cases), outs in zip(jobs, ex.map(one, enumerate(jobs))):
                for name, (res, err) in outs:
                    if res is None:
                        # an error outside of every program: ask one by one
                        res = []
                        for i, s in enumerate(srcs):
                            one_res, e2 = ask(L[name], name, [s], d, f'single-{name}-{i}', kind == 'program' and 'fn p0' in s)
                            res.append(one_res[0] if one_res else [False, (e2 or '')[:400], None])
                    for s, (exp, why), case, got in zip(srcs, exps, cases, res):
                        reason = '' if got[0] or got[1].split(':')[0] in LIFETIME else ' for another reason'
                        key = f'{kind}: {exp}, {"accepted" if got[0] else "refused" + reason}'
                        stats[key] = stats.get(key, 0) + 1
                        if not got[0]:
                            c = got[1].split(':')[0]
                            codes[c] = codes.get(c, 0) + 1
                        m = judge(exp, why, got)
                        if m:
                            bad.append((kind == 'signature', len(s), s, name, kind, exp, why, m, case))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    violations = 0
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    if bad:
        violations = 1
        _, _, s, name, kind, exp, why, m, case = min(bad, key=lambda x: x[:3])
        if kind == 'program':
            s, exp, why, m = shrink(L, name, case, d) or (s, exp, why, m)
        s = re.sub(r'fn p\d+', 'fn p0', s)
        body = f'engine lifetimes C27\nlib {name}\nkind {kind}\nexpect {exp}\n' + s
        path = os.path.join(ROOT, 'replays', f'C27-{hashlib.sha1(body.encode()).hexdigest()[:16]}.case')
        open(path, 'w').write(f'# {kind} ({name}) {m}\n# {why}\n# {len(bad)} complaints in all\n' + body)
        print(f'{kind} ({name}) {m}\n{s}')
        print(f'VIOLATION property=C27 replay={path}')
    ev = {
        'property': 'C27', 'tier': tier, 'seed': int(SEED), 'level': 'exploration', 'wall_s': round(time.time() - t0, 1), 'violations': violations,
        'coverage': {
            'evaluations': 2 * (len(progs) + len(sigs)), 'distinct_nontrivial': sum(1 for p in progs if p.loans) + len(sigs),
            'rule': 'distinct random straight-line programs over the API (insert, look up, iterate, copy, make references, borrow, map, clone, swap, move, drop, in any order) with data the values refer to, '
                    'and an enumeration of accessor signatures and lifetime conversions; each is judged by the compiler on two builds (stable, and nightly with the nightly feature), accepted programs are run. '
                    'Non-trivial: something in the program borrows from something else (every signature does)',
            'by expectation and answer': stats, 'errors of refused ones': codes,
            'samples': [p.source(0) for p in progs[:4]] + [s for s, _, _ in sigs[:4]],
        },
        'assumptions': ['the reference rules are those of the non-lexical borrow checker for straight-line code'],
    }
    json.dump(ev, open(os.path.join(ROOT, 'evidence', 'C27.json'), 'w'), indent=2)
    print(f'C27: {len(progs)} programs and {len(sigs)} signatures on {len(LIBS)} builds, {stats}, {time.time() - t0:.1f}s')
    return 1 if violations else 0

def shrink(L, name, case, d, budget=90):
    """drop operations while there is a complaint"""
    end = time.time() + budget
    os.makedirs(d, exist_ok=True)
    def bad(case):
        p = Prog(case).build()
        exp, why = p.verdict()
        res, err = ask(L[name], name, [p.source(0)], d, 's')
        m = err if res is None else judge(exp, why, res[0])
        return (p.source(0), exp, why, m) if m else None
    try:
        best = bad(case)
        if not best:
            return None
        head, ops = case
        n = max(1, len(ops) // 2)
        while n and time.time() < end:
            i, cut = 0, False
            while i < len(ops) and time.time() < end:
                x = ops[:i] + ops[i + n:]
                b = bad((head, x))
                if b:
                    ops, best, cut = x, b, True
                else:
                    i += n
            n = n // 2 if not (cut and n == 1) else 1
            if not cut and n == 0:
                break
        return best
    finally:
        shutil.rmtree(d, ignore_errors=True)

def replay(path):
    L = libs()
    text = open(path).read()
    name, kind, exp = (re.search(rf'^{k} (\S+)$', text, re.M).group(1) for k in ('lib', 'kind', 'expect'))
    s = text[re.search(r'^expect \S+\n', text, re.M).end():]
    d = os.path.join(TMP, f'lifetimes-{os.getpid()}')
    os.makedirs(d, exist_ok=True)
    try:
        res, err = ask(L[name], name, [s], d, 'r', kind == 'program')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    m = err if res is None else judge(exp, '', res[0])
    if m:
        print(m)
        print(f'VIOLATION property=C27 replay={path}')
        return 1
    print('C27: holds on this case')
    return 0

if __name__ == '__main__':
    os.makedirs(TMP, exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    a = sys.argv[1:]
    sys.exit(check(a[2]) if a[0] == 'check' else replay(a[1]))
