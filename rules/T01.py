"""Statistics counters: exact, atomic, one counter per getter; every transfer counted once."""
import build, vf
from vf import L, C, ZERO, add, mul, const, show
from common import load, one

PAIRS = [('temp_file_usage', 'get_temp_file_usage', 'increment_temp_file_usage'), ('bytes read', 'get_bytes_read', 'increment_bytes_read'),
         ('bytes written', 'get_bytes_written', 'increment_bytes_written')]


class Counter(vf.Rule):
    """effects on global counters. q: ((cell, delta, atomic), ...)"""

    def __init__(self, rep, label, sizes, sink):
        self.rep, self.label, self.sizes, self.sink = rep, label, sizes, sink

    def gcell(self, v):
        """(global, byte offset form) of an address"""
        for k, c in v:
            if k and k[0] == 'g' and c == 1:
                return k[1], add(v, L(k), -1)
        return None, None

    def access(self, S, I, o, what):
        v = self.vf.ev(S, o)
        g, off = self.gcell(v)
        if g is None:
            return None
        sz = self.sizes.get(g)
        inside = None
        if const(off) is not None:
            inside = sz is not None and 0 <= const(off) < sz
        elif sz and len(off) == 1:
            leaf, c = off[0]
            if leaf and sz % c == 0:
                inside = self.vf.compare(S, 'ult', L(leaf), C(sz // c))
        if not inside:
            self.rep.fail('user', self.label + ':range', '%s: %s at %s may be outside the %s counters' % (self.label, what, I.where(), sz))
        return (g, off)

    def step(self, S, I):
        if I.op == 'atomicrmw':
            c = self.access(S, I, I.a[0], 'update')
            if c:
                old = L(('old', c))
                d = self.vf.ev(S, I.a[1])
                k = I.d.get('rmw')
                if k not in ('add', 'sub'):
                    self.rep.fail('atomic', self.label + ':rmw', '%s: the counter is changed by %s at %s' % (self.label, k, I.where()))
                S.env[I.id] = old if not S.q else L(('i', I.id))
                return [S.copy(S.q + ((c, d if k == 'add' else mul(d, -1)),))]
        if I.op == 'cmpxchg':
            c = self.access(S, I, I.a[0], 'update')
            if c:
                # success: the counter held the expected value and changes to the new one; failure: nothing changes
                e, n = self.vf.ev(S, I.a[1]), self.vf.ev(S, I.a[2])
                ok, no = S.copy(S.q + ((c, add(n, e, -1)),)), S.copy()
                ok.env[I.id] = L(('agg', (e, C(1))))
                no.env[I.id] = L(('agg', (L(('reload', I.id)), ZERO)))
                return [ok, no]
        if I.op == 'load':
            c = self.access(S, I, I.a[0], 'read')
            if c:
                S.env[I.id] = L(('old', c))
                return [S]
        if I.op == 'store':
            v = self.vf.ev(S, I.a[1])
            if self.gcell(v)[0] is not None:
                self.rep.fail('atomic', self.label + ':store', '%s: the counter is overwritten instead of changed atomically at %s' % (self.label, I.where()))
        return None

    def exit(self, S, I, kind, ret):
        self.sink.append((S, kind, ret, self.vf.trace()))


class Transfer(vf.Rule):
    """counted-as-transferred automaton of the raw accessor; ghost cell = bytes transferred and not counted"""
    G = ('ghost', 0)

    def __init__(self, rep, label, call, inc, other):
        self.rep, self.label, self.callname, self.inc, self.other = rep, label, call, inc, other
        self.n = self.m = 0

    def call(self, S, I, args):
        s = I.short or ''
        if s == self.callname:
            self.n += 1
            ok, err = S.copy(), S.copy()
            r = L(('done', I.id))
            ok.env[I.id] = r
            ok.mem[self.G] = add(S.mem.get(self.G, ZERO), r)
            err.env[I.id] = C(-1)
            return [('ret', ok), ('ret', err)]
        if s == self.inc:
            self.m += 1
            n = S.copy()
            n.mem[self.G] = add(S.mem.get(self.G, ZERO), args[0], -1)
            return [('ret', n)]
        if s == self.other:
            self.rep.fail('counted', self.label + ':other', '%s changes the wrong counter at %s' % (self.label, I.where()))
        return None

    def cond(self, S, pred, a, b, I):
        for x, y, p in ((a, b, pred), (b, a, vf.SWAP[pred])):
            c = const(y)
            if c is not None and c < 0 and len(x) == 1 and x[0][0] and x[0][0][0] == 'done' and x[0][1] == 1:
                if p in ('eq', 'ne', 'slt', 'sle', 'sgt', 'sge'):
                    return p in ('ne', 'sgt', 'sge')
        return None

    def exit(self, S, I, kind, ret):
        g = S.mem.get(self.G, ZERO)
        if g == ZERO:
            return
        # zero because the bytes just read were found to be none
        if len(g) == 1 and abs(g[0][1]) == 1 and self.vf.compare(S, 'eq', L(g[0][0]), ZERO):
            return
        if len(g) == 1 and abs(g[0][1]) == 1 and self.vf.compare(S, 'sle', L(g[0][0]), ZERO):
            return
        self.rep.fail('counted', '%s:%s' % (self.label, kind), '%s: at %s the bytes transferred minus the bytes counted are %s, not 0' % (self.label, I.where(), show(g)), self.vf.trace())


def check(rep):
    rep.expl = 'The statistics functions and the transfer loops are followed with symbolic amounts; the bytes transferred minus the bytes counted is carried as an affine form through the loops.'
    rep.rule('atomic', 'an increment is one atomic addition of exactly the amount given to the counter its getter reads; counters are distinct')
    rep.rule('user', 'user counters are only touched inside the array, an index outside reads 0 and changes nothing')
    rep.rule('counted', 'each successful read or write system call is counted once with exactly the bytes moved before the function ends, and failed calls are not counted')
    rep.assumptions = ['64 bit counters do not overflow']
    mod = load([build.lib('stats.cpp')], [r'^tpie::(get|increment)_'])
    sizes = {}
    for f in mod.functions:
        for I in f.insts():
            st = list(I.a)
            while st:
                o = st.pop()
                if isinstance(o, dict):
                    if o.get('k') == 'global' and 'sz' in o:
                        sizes[o['n']] = o['sz']
                    st += [x for x in o.get('a', ()) if isinstance(x, dict)]
    cells = {}

    def explore(name, label):
        f = one(mod, r'\b%s\(' % name)
        rep.fn(f)
        sink = []
        vf.VF(f, Counter(rep, name, sizes, sink), [vf.S(())])
        rets = [x for x in sink if x[1] == 'ret']
        if not rets:
            raise build.Broken(name + ' never returns')
        return rets

    for label, g, inc in PAIRS:
        read = set()
        for S, kind, ret, tr in explore(g, label):
            rep.ok('atomic', '%s returns %s' % (g, show(ret)))
            if S.q:
                rep.fail('atomic', g + ':changes', '%s changes a counter' % g, tr)
            read.add(ret)
        if len(read) != 1 or len(list(read)[0]) != 1 or list(read)[0][0][0][0] != 'old' or list(read)[0][0][1] != 1:
            rep.fail('atomic', g + ':value', '%s does not return exactly its counter' % g)
            continue
        cell = list(read)[0][0][0][1]
        if cell in cells:
            rep.fail('atomic', g + ':shared', '%s reads the same counter as %s' % (g, cells[cell]))
        cells[cell] = g
        old, D = L(('old', cell)), L(('arg', 0))
        for S, kind, ret, tr in explore(inc, label):
            rep.ok('atomic', '%s: %s' % (inc, S.q))
            tot = ZERO
            for c, d in S.q:
                if c != cell:
                    rep.fail('atomic', inc + ':cell', '%s changes %s, %s reads %s' % (inc, c[0], g, cell[0]), tr)
                tot = add(tot, d)
            V = S
            if tot != D:
                # a counter that was already negative may be reset
                neg = any(k[0] == 'rel' and old in k[2:] and v <= frozenset('<' if k[3] == ZERO else '>') for k, v in S.facts.items() if len(k) == 4)
                if not (neg and label == 'temp_file_usage'):
                    rep.fail('atomic', inc + ':amount', '%s adds %s instead of the amount given' % (inc, show(tot)), tr)
    # user counters
    arr = {}
    rets = explore('get_user', 'user')
    for S, kind, ret, tr in rets:
        rep.ok('user', 'get_user returns %s' % show(ret))
        if ret == ZERO:
            continue
        if len(ret) != 1 or ret[0][0][0] != 'old':
            rep.fail('user', 'get_user:value', 'get_user returns %s' % show(ret), tr)
            continue
        arr['get'] = ret[0][0][1]
    for S, kind, ret, tr in explore('increment_user', 'user'):
        rep.ok('user', 'increment_user: %s' % (S.q,))
        if len(S.q) > 1 or any(d != L(('arg', 1)) for c, d in S.q):
            rep.fail('user', 'increment_user:amount', 'increment_user does not add exactly the amount given', tr)
        for c, d in S.q:
            arr['inc'] = c
    if 'get' not in arr or arr.get('get') != arr.get('inc'):
        rep.fail('user', 'user:cell', 'get_user(i) and increment_user(i) do not use the same counter: %s' % arr)
    elif arr['get'][0] in {c[0] for c in cells}:
        rep.fail('user', 'user:shared', 'the user counters share storage with another counter')
    # transfers
    mod = load([build.tu('accessor.cpp')], [r'^(\w+ )?w_raw_\w+\('], preserve=[r'tpie::get_file_manager', r'resource_manager::register_', r'tpie::increment_bytes', r'^tpie::file_manager::(?!incr|decr)'],
               nothrow=[r'tpie::increment_bytes', r'tpie::get_file_manager', r'register_decreased_usage'])
    for name, label, call, inc, other in (('w_raw_read', 'read_i', 'read', 'tpie::increment_bytes_read', 'tpie::increment_bytes_written'),
                                          ('w_raw_write', 'write_i', 'write', 'tpie::increment_bytes_written', 'tpie::increment_bytes_read')):
        f = one(mod, r'\b%s\(' % name)
        rep.fn(f)
        r = Transfer(rep, label, call, inc, other)
        E = vf.VF(f, r, [vf.S((), mem={Transfer.G: ZERO})])
        rep.ok('counted', '%s: %d calls, %d counts, %d exits' % (label, r.n, r.m, E.nexit), n=max(1, E.nexit))
        if not r.n or not r.m:
            rep.fail('counted', label + ':none', '%s: %d transfers, %d counts' % (label, r.n, r.m))


LEVEL = 'other'
