"""Streams of a tpie::file: positions as for uncompressed streams, with blocks shared through the file."""
import re
import build, vf
from vf import L, C, const, add, mul, leaf1
from common import load, one, throw_type
from linfacts import prod
import F06
from F06 import R, A, Case, X, K, NB, NI, Z, M, P, ST, BS, MAX, KBS, ITEM, upd, EOS

FILE, BLK, ACCP, TEMP = L(('file',)), L(('blk',)), L(('accessor',)), L(('tempfile',))
PRES = [r'tpie::file_base::(get_block|free_block)\(', r'tpie::temp_file::', r'tpie::bits::temp_file_inner::', r'stream_accessor_base<.*>::(byte_size|truncate|close|open|size)\(']
NOTHROW = F06.NOTHROW + [r'boost::intrusive']


class Fs:
    """layout of file<T>::stream, the file and its blocks"""
    own = {'index': 'm_index', 'nb': 'm_nextBlock', 'ni': 'm_nextIndex', 'start': 'm_blockStartIndex', 'file': 'm_file', 'block': 'm_block'}
    shared = {'bs': 'm_blockItems', 'is': 'm_itemSize', 'size': 'm_size', 'acc': 'm_fileAccessor', 'temp': 'm_tempFile', 'open': 'm_open', 'cw': 'm_canWrite', 'cr': 'm_canRead'}
    blk = {'bsize': 'size', 'number': 'number', 'dirty': 'dirty', 'usage': 'usage', 'data': 'data'}

    def __init__(self, mod):
        def off(s, m):
            o = mod.moff(s, m)
            if o is None:
                raise build.Broken('member %s of %s not found' % (m, s))
            return o
        self.o = {k: off('tpie::file_base::stream', m) for k, m in self.own.items()}
        self.f = {k: off('tpie::file_base', m) for k, m in self.shared.items()}
        self.b = {k: off('tpie::file_base::block_t', m) for k, m in self.blk.items()}
        # the block that stands for none: what a stream has after attaching
        f = one(mod, r'\bw_fs_attach\(')
        got = set()

        class Q(vf.Rule):
            def exit(s, S, I, kind, ret):
                if kind == 'ret':
                    got.add(S.mem.get((('arg', 0), self.o['block'])))
        vf.VF(f, Q(), [vf.S(())])
        if len(got) != 1 or None in got or leaf1(list(got)[0])[0][0] != 'g':
            raise build.Broken('the empty block is not found: %s' % got)
        self.empty = got.pop()

    def cell(self, S, n):
        if n in self.o:
            return (('arg', 0), self.o[n])
        if n in self.f:
            return (('file',), self.f[n])
        lf, off = leaf1(S.mem[(('arg', 0), self.o['block'])])
        return (lf, off + self.b[n])

    def fill(self, s, case):
        s.mem[(('arg', 0), self.o['file'])] = FILE
        s.mem[(('arg', 0), self.o['block'])] = BLK if case.held is not None else self.empty
        e = self.empty[0][0]
        s.mem[(e, self.b['bsize'])] = C(0)
        s.mem[(e, self.b['number'])] = MAX
        for k, v in case.mem.items():
            if k in ('bsize', 'number', 'dirty') and case.held is None:
                continue
            s.mem[self.cell(s, k)] = v
        s.mem[(('file',), self.f['acc'])] = ACCP


def cases(temp):
    base = [add(BS, C(-1)), add(TEMP, C(-1))]
    com = {'bs': BS, 'temp': TEMP if temp else C(0), 'open': C(1), 'is': C(ITEM)}

    def mk(name, facts, held, pos_, size_, **kw):
        m = dict(com)
        m.update(kw)
        m['size'] = size_
        if held is not None:
            m['dirty'] = L(('D',))
        return Case(name, m, base + facts, held, pos_, size_)
    lt = lambda a, b: add(add(b, a, -1), C(-1))
    le = lambda a, b: add(b, a, -1)
    out = []
    cur = dict(nb=MAX, ni=MAX, number=K, start=KBS)
    pos = add(KBS, X)
    for full in (0, 1):
        n = '%s block' % ('full' if full else 'last')
        ze = BS if full else P
        me = M if full else add(KBS, P)
        fx = [le(add(KBS, BS), M)] if full else [lt(P, BS)]
        out.append(mk('inside a ' + n, fx + [lt(X, ze)], K, pos, me, index=X, bsize=ze, **cur))
        pe = add(KBS, ze)
        if full:
            for more in (0, 1):
                out.append(mk('at the end of a %s%s' % (n, ' before more' if more else ''), [lt(pe, M)] if more else [], K, pe, M if more else pe, index=ze, bsize=ze, **cur))
        else:
            out.append(mk('at the end of a ' + n, fx, K, pe, me, index=ze, bsize=ze, **cur))
    ppos = add(prod(NB, BS), NI)
    for data in ('none', 'full', 'last'):
        ze = {'none': Z, 'full': BS, 'last': P}[data]
        num = MAX if data == 'none' else K
        fx = {'none': [], 'full': [le(add(KBS, BS), M)], 'last': [lt(P, BS)]}[data]
        me = add(KBS, P) if data == 'last' else M
        n = {'none': '', 'full': ' with a full block', 'last': ' with a last block'}[data]
        for end in (0, 1) if data != 'last' else (0,):
            sz = ppos if end else me
            f2 = fx + [lt(NI, BS)] + ([] if end else [lt(ppos, me)])
            if end and data == 'full':
                f2 = [le(add(KBS, BS), ppos), lt(NI, BS)]
            out.append(mk('pending%s%s' % (' at the end' if end else '', n), f2, None if data == 'none' else K, ppos, sz,
                          nb=NB, ni=NI, index=MAX, number=num, start=KBS if data != 'none' else ST, bsize=ze))
    nbs = prod(NB, BS)
    for end in (0, 1):
        sz = nbs if end else M
        out.append(mk('next block unreadable' + (' at the end' if end else ''), [] if end else [lt(nbs, M)], None, nbs, sz, nb=NB, ni=C(0), index=BS, start=ST))
        nx = add(KBS, BS)
        sz = nx if end else M
        out.append(mk('block could not be written back' + (' at the end' if end else ''), [] if end else [lt(nx, M)], K, nx, sz,
                      nb=add(K, C(1)), ni=C(0), index=BS, number=K, start=KBS, bsize=BS))
    return out


class FsR(R):
    """q[0] (held): number of the block the stream has counted itself on, None if none"""

    def cond(self, S, p, a, b, I=None):
        if p in ('eq', 'ne') and self.lay.empty in (a, b):
            o = b if a == self.lay.empty else a
            if o in (BLK, L(('blk2',))):
                return p == 'ne'
        return R.cond(self, S, p, a, b, I)

    def get(self, S, n):
        if n == 'dirty' and S.q[0] is None:
            return C(0)
        return self.vf.load(S, self.lay.cell(S, n), n)

    def valid(self, S):
        return self.get(S, 'bsize')

    def size(self, S):
        return self.get(S, 'size')

    def bufpos(self, S, p):
        ks = [k for k, c in p if k in (('blk',), ('blk2',)) and c == 1]
        if not ks:
            return None
        rest = add(p, L(ks[0]), -1)
        o = self.lay.b['data']
        c = const(rest)
        if c is not None and c < o:
            return None
        if S.mem[(('arg', 0), self.lay.o['block'])] != L(ks[0]) or S.q[0] is None:
            self.bad('place', 'stale', 'uses the buffer of a block the stream does not hold')
        return add(rest, C(-o))

    def on_store(self, S, I, cell, val):
        if cell is not None and L(cell[0]) == self.lay.empty:
            self.bad('buffer', 'empty', 'changes the empty block')

    def call(self, S, I, args):
        s = (I.short or '').split('::')[-1]
        q = S.q
        if s == 'free_block' and len(args) == 2:
            if args[0] != FILE or args[1] not in (BLK, L(('blk2',))) or q[0] is None or S.mem[(('arg', 0), self.lay.o['block'])] != args[1]:
                self.bad('block', 'free', 'gives back a block the stream does not hold')
            n = S.copy(upd(q, held=None))
            t = S.copy(upd(q, io=1))
            t.exc = 'io'
            return [('ret', n), ('throw', t)]
        if s == 'get_block' and len(args) == 2:
            if args[0] != FILE:
                self.bad('block', 'file', 'takes a block of another file')
            if q[0] is not None:
                self.bad('block', 'twice', 'takes another block without giving back the one it holds')
            k = self.norm(S, args[1])
            size = self.size(S)
            out = []
            from_ = prod(k, BS)
            for S1, (k, size) in self.splits(S, (k, size)):
                z = self.vf.assume(S1, L(('op', 'icmp', 'ugt', prod(k, BS), size)), True)
                if z is not None and not self.dead(z):
                    z = z.copy()
                    z.exc = EOS
                    out.append(('throw', z))
                z = self.vf.assume(S1, L(('op', 'icmp', 'ugt', prod(k, BS), size)), False)
                if z is None or self.dead(z):
                    continue
                t = z.copy(upd(z.q, io=1))
                t.exc = 'io'
                out.append(('throw', t))
                e = add(prod(k, BS), BS)
                for full in (True, False):
                    y = self.vf.assume(z, L(('op', 'icmp', 'ule', e, size)), full)
                    if y is None or self.dead(y):
                        continue
                    y = y.copy(upd(y.q, held=k))
                    b = ('blk2',) if BLK in (S.mem.get((('arg', 0), self.lay.o['block'])), ) or True else ('blk',)
                    y.env[I.id] = L(b)
                    y.mem[(b, self.lay.b['number'])] = k
                    y.mem[(b, self.lay.b['bsize'])] = BS if full else add(size, prod(k, BS), -1)
                    y.mem[(b, self.lay.b['dirty'])] = L(('D2',))
                    out.append(('ret', y))
            self.rep.ok('block', None)
            return out
        return R.call(self, S, I, args)

    def inv(self, S):
        nb, ni, ix, st = (self.norm(S, self.get(S, x)) for x in ('nb', 'ni', 'index', 'start'))
        b = S.mem[(('arg', 0), self.lay.o['block'])]
        held = self.norm(S, S.q[0]) if S.q[0] is not None else None
        if (held is None) != (b == self.lay.empty):
            self.bad('buffer', 'number', 'the stream %s' % ('keeps a block it has given back' if held is None else 'forgets a block without giving it back'))
            return
        if held is not None:
            num = self.norm(S, self.get(S, 'number'))
            if not self.eq(S, num, held):
                self.bad('buffer', 'number', 'block %s is renumbered to %s' % (vf.show(held), vf.show(num)))
            if any(a[0] == 'w' for a in S.q[1]) and const(self.get(S, 'dirty')) != 1:
                self.bad('buffer', 'clean', 'an item was written but the block is not marked modified')
            if self.get(S, 'dirty') == C(0):
                self.bad('buffer', 'lost', 'the block is marked unmodified')
        if const(nb) == -1:
            if held is None:
                self.bad('buffer', 'noblock', 'there is no current block')
                return
            if const(ix) is not None and const(ix) < 0 or not self.ge(S, ix) or not self.ge(S, add(BS, ix, -1)):
                self.bad('buffer', 'index', 'the position within the block is %s' % vf.show(ix))
            if not self.eq(S, st, prod(held, BS)):
                self.bad('buffer', 'start', 'the current block %s is taken to start at %s' % (vf.show(held), vf.show(st)))
        else:
            if not self.ge(S, add(BS, ni, -1), 1):
                self.bad('buffer', 'ni', 'the pending position within the block is %s' % vf.show(ni))
            if const(ix) != -1:
                zz = self.get(S, 'bsize')
                if not self.ge(S, add(ix, BS, -1)) or not self.ge(S, add(ix, zz, -1)):
                    self.bad('buffer', 'pendidx', 'the old position %s is still valid while another block is pending' % vf.show(ix))
        if held is not None:
            for S2, (v, sz) in self.splits(S, (self.valid(S), self.size(S))):
                v, sz = self.norm(S2, v), self.norm(S2, sz)
                e = add(prod(held, BS), BS)
                if not (self.eq(S2, v, BS) and self.ge(S2, add(sz, e, -1))) and not self.eq(S2, add(prod(held, BS), v), sz):
                    self.bad('buffer', 'valid', 'block %s is taken to hold %s items of a file of %s' % (vf.show(held), vf.show(v), vf.show(sz)))
        self.rep.ok('buffer', None)


class FsA(A, FsR):
    pass


class Lists(vf.Rule):
    """the intrusive lists as opaque sequences: what a list hands out is named, what is done to it is recorded.
    q: tuple of events"""

    def __init__(self, rep, lay, slots, op):
        self.rep, self.lay, self.slots, self.op = rep, lay, slots, op
        self.n = 0

    def bad(self, rid, tag, text):
        self.rep.fail(rid, '%s:%s' % (self.op, tag), '%s: %s' % (self.op, text), self.vf.trace())

    def ev(self, S, *e):
        S.q = S.q + (e,)

    def call(self, S, I, args):
        s = I.short or ''
        n = S.copy()
        vs = vslot(self.vf, S, I)
        if vs:
            if vs[1] in self.slots:
                kind = self.slots[vs[1]]
                self.ev(n, kind, *args)
                t = S.copy()
                self.ev(t, kind + ' failed', *args)
                t.exc = 'io'
                if kind == 'read':
                    sh = n.copy()
                    n.env[I.id] = args[3]
                    sh.env[I.id] = L(('short',))
                    sh.facts[('rel', 'e') + self.vf.canon('eq', L(('short',)), args[3])[1:]] = frozenset('<>')
                    return [('ret', n), ('ret', sh), ('throw', t)]
                return [('ret', n), ('throw', t)]
            self.ev(n, 'virtual', vs[0], vs[1])
            return [('ret', n)]
        m = re.search(r'boost::intrusive::(?:list_impl|list|list_iterator)?(?:::)?([\w~]+|operator[^\w\s]+)$', s)
        if m and 'boost::intrusive' in s:
            o = m.group(1)
            c = self.vf.cell(S, I.a[0]) if I.a else None
            if o in ('begin', 'cbegin', 'end', 'cend'):
                n.mem[c] = L(('it', args[1], I.id if 'begin' in o else 'end'))
            elif o == 'operator++':
                d = c if len(args) == 1 else self.vf.cell(S, I.a[1])
                n.mem[d] = L(('it', self.listof(S, d), 'next', I.id))
                n.env[I.id] = args[0]
            elif o in ('operator!=', 'operator=='):
                a, b = S.mem.get(c), S.mem.get(self.vf.cell(S, I.a[1]))
                if a is None or b is None:
                    return None
                n.env[I.id] = L(('op', 'icmp', 'eq' if o[-2] == '=' else 'ne', a, b))
            elif o in ('operator->', 'operator*'):
                n.env[I.id] = L(('node', S.mem.get(c)))
            elif o in ('front', 'back'):
                n.env[I.id] = L(('front', args[0], sum(1 for e in S.q if e[0] in ('pop_front', 'push_front', 'erase', 'pop_back', 'push_back'))))
            elif o in ('pop_front', 'pop_back', 'push_front', 'push_back', 'erase'):
                a = args if o[0] == 'p' else args[1:2] + [S.mem.get(self.vf.cell(S, I.a[2]))]
                self.ev(n, o, *a)
            elif o in ('iterator_to', 's_iterator_to'):
                n.mem[c] = L(('itof', args[-1]))
            elif o == 'list_iterator':
                src = self.vf.cell(S, I.a[1]) if len(I.a) > 1 else None
                if src is not None and src in S.mem:
                    n.mem[c] = S.mem[src]
            elif o == 'empty':
                n.env[I.id] = L(('emptylist', args[0]))
            return [('ret', n)]
        last = s.split('::')[-1]
        if last in ('get_block', 'free_block', 'create_block', 'delete_block', 'truncate', 'close'):
            self.ev(n, last, *args)
            if last == 'delete_block':
                return [('ret', n)]
            t = S.copy()
            self.ev(t, last + ' failed', *args)
            t.exc = 'io'
            return [('ret', n), ('throw', t)]
        if last == 'byte_size':
            n.env[I.id] = L(('bytesize', len(S.q)))
            return [('ret', n)]
        if last == 'update_recorded_size':
            self.ev(n, 'recorded', args[0], args[1])
            return [('ret', n)]
        if s in ('operator new', 'operator new[]'):
            n.env[I.id] = L(('new', I.id))
            self.ev(n, 'new', args[0], L(('new', I.id)))
            t = S.copy()
            t.exc = 'std::bad_alloc'
            return [('ret', n), ('throw', t)]
        if s in ('operator delete', 'operator delete[]'):
            self.ev(n, 'delete', args[0])
            return [('ret', n)]
        if s == '__cxa_throw':
            t = S.copy()
            t.exc = throw_type(I) or '?'
            return [('throw', t)]
        return None

    def listof(self, S, c):
        v = S.mem.get(c)
        return v[0][0][1] if v is not None and len(v) == 1 and v[0][0][0] == 'it' else None

    def havoc(self, S, I, args):
        return ()

    def exit(self, S, I, kind, ret):
        self.n += 1
        self.done(S, kind, ret)


def names(S, *skip):
    return [e[0] for e in S.q if e[0] not in skip]


MODS = ('pop_front', 'push_front', 'pop_back', 'push_back', 'erase')


class GetBlock(Lists):
    def isit(self, x, what):
        return isinstance(x, tuple) and len(x) == 1 and isinstance(x[0][0], tuple) and x[0][0][0] == 'it' and x[0][0][2] == what

    def done(self, S, kind, ret):
        vf_, lay = self.vf, self.lay
        arg = L(('arg', 1))
        mods = [e for e in S.q if e[0] in MODS]
        if kind != 'ret':
            if mods:
                self.bad('shared', 'failmods', 'a failing get_block changes the lists of blocks')
            if S.exc == EOS and any(e[0] == 'read' for e in S.q):
                self.bad('shared', 'eos', 'reads a block that does not exist')
            return
        k = leaf1(ret)[0] if ret else None
        if k is None or k[0] not in ('node', 'front'):
            self.bad('shared', 'what', 'returns something that is not a block')
            return
        num = vf_.load(S, (k, lay.b['number']), 'number')
        use = vf_.load(S, (k, lay.b['usage']), 'usage')
        if vf_.compare(S, 'eq', num, arg) is not True:
            self.bad('shared', 'number', 'returns a block that need not be the one asked for')
        io = [e for e in S.q if e[0] == 'read']
        if k[0] == 'node':
            if io or mods:
                self.bad('shared', 'reread', 'reads or moves a block that is in use already')
            if use != add(L(('init', (k, lay.b['usage']))), C(1)):
                self.bad('shared', 'usage', 'the block found is not counted once more (%s)' % vf.show(use))
            self.found = getattr(self, 'found', set()) | {k[1][0][0][1] if k[1] and k[1][0][0][0] == 'it' else None}
        else:
            free = k[1]
            self.took = True
            ends = [x for f, v in S.facts.items() if f[0] == 'rel' and v == frozenset('=') for x in f[2:4] if self.isit(x, 'end') and mods and x[0][0][1] == mods[-1][1]]
            if not ends:
                self.bad('shared', 'search', 'takes a new buffer although not all the blocks in use have been looked at')
            if [e[0] for e in mods] != ['pop_front', mods[-1][0]] or mods[-1][0] not in ('push_front', 'push_back') or len(mods) != 2 or mods[0][1] != free or mods[1][1] == free or mods[1][2] != ret:
                self.bad('shared', 'lists', 'the block is not moved from the free to the used blocks')
            if use != C(1):
                self.bad('shared', 'usage1', 'the block read is counted %s times' % vf.show(use))
            size = vf_.load(S, (k, lay.b['bsize']), 'size')
            if const(vf_.load(S, (k, lay.b['dirty']), 'dirty')) != 0:
                self.bad('shared', 'dirty', 'the block read need not count as unmodified')
            if len(io) > 1 or not io and vf_.compare(S, 'eq', size, ()) is not True:
                self.bad('shared', 'noread', 'the content of the block is not read')
            if io and (io[0][2] != add(ret, C(lay.b['data'])) or io[0][3] != arg or io[0][4] != size):
                self.bad('shared', 'read', 'what is read is not the block asked for')
        self.rep.ok('shared', None)


class FreeBlock(Lists):
    def done(self, S, kind, ret):
        vf_, lay = self.vf, self.lay
        b = ('arg', 1)
        B = L(b)
        old = L(('U',))
        use = vf_.load(S, (b, lay.b['usage']), 'usage')
        mods = [e for e in S.q if e[0] in MODS]
        wr = [e for e in S.q if e[0].startswith('write')]
        one_ = vf_.compare(S, 'ugt', old, C(1))
        if kind != 'ret':
            if mods or use != old:
                self.bad('shared', 'failfree', 'the block counts as free although writing it failed')
            return
        if one_ is True:
            if mods or wr or use != add(old, C(-1)):
                self.bad('shared', 'inuse', 'a block others still use is not just counted once less')
            return
        if one_ is None:
            self.bad('shared', 'count', 'frees a block without looking whether others use it')
            return
        if use != ():
            self.bad('shared', 'usage0', 'a free block is counted %s times' % vf.show(use))
        d = vf_.truth(S, L(('op', 'icmp', 'ne', L(('D',)), ())))
        r = vf_.truth(S, L(('op', 'icmp', 'ne', L(('R',)), ())))
        if not wr and (d is not False or r is not True):
            self.bad('writeback', 'free', 'the last stream gives a block back and it is not written although it may be modified')
        for e in wr:
            if len(wr) != 1 or e[2:] != (add(B, C(lay.b['data'])), vf_.load(S, (b, lay.b['number']), 'number'), vf_.load(S, (b, lay.b['bsize']), 'size')):
                self.bad('writeback', 'what', 'a block is not written with its own number, data and size')
        if [e[0] for e in mods if e[0] in ('push_front', 'push_back')] != ['push_front'] and len([e for e in mods if e[0].startswith('push')]) != 1 or len([e for e in mods if e[0] == 'erase']) != 1 or len(mods) != 2:
            self.bad('shared', 'freelists', 'the block is not moved from the used to the free blocks')
        else:
            er = [e for e in mods if e[0] == 'erase'][0]
            pu = [e for e in mods if e[0].startswith('push')][0]
            if er[2] != L(('itof', B)) or pu[2] != B or er[1] == pu[1]:
                self.bad('shared', 'freewhat', 'the block moved to the free blocks is not the one given back')
        self.rep.ok('shared', None)


class Attach(Lists):
    """before: what the stream holds ('none', 'empty', 'block')"""
    before = None
    want = None        # attached afterwards?

    def done(self, S, kind, ret):
        blk = self.vf.load(S, (('arg', 0), self.lay.o['block']), 'm_block')
        fil = self.vf.load(S, (('arg', 0), self.lay.o['file']), 'm_file')
        ev = [e for e in S.q if e[0] in ('free_block', 'delete_block', 'create_block', 'free_block failed', 'create_block failed')]
        nm = [e[0] for e in ev]
        pre = {'none': [], 'empty': ['delete_block'], 'block': ['free_block', 'delete_block']}[self.before]
        if kind == 'ret':
            w = pre + (['create_block'] if self.want else [])
            if nm != w:
                self.bad('shared', 'buffers', 'does %s instead of %s' % (', '.join(nm) or 'nothing', ', '.join(w) or 'nothing'))
            if self.want and (blk != self.lay.empty or fil != L(('arg', 1))):
                self.bad('shared', 'attached', 'the stream is not attached to the file without a block')
            if not self.want and blk != ():
                self.bad('shared', 'detached', 'a detached stream still has a block')
        elif nm and nm[-1] == 'free_block failed':
            if nm[:-1] or blk != BLK:
                self.bad('shared', 'failfree', 'a failing write-back leaves the stream with the wrong block')
        elif nm and nm[-1] == 'create_block failed':
            if nm[:-1] != pre or blk != ():
                self.bad('shared', 'failcreate', 'a stream for which no buffer could be allocated will give back the buffer of another stream')
        if any(e[1] != FILE for e in ev if e[0] != 'create_block' and not e[0].startswith('create')) or any(e[1] != L(('arg', 1)) for e in ev if e[0].startswith('create')):
            self.bad('shared', 'whose', 'a buffer is given to or taken from the wrong file')
        if any(e[2] != BLK for e in ev if e[0] == 'free_block'):
            self.bad('shared', 'whoseblock', 'gives back something else than the block of the stream')
        self.rep.ok('shared', None)


class Truncate(Lists):
    def done(self, S, kind, ret):
        f = ('arg', 0)
        size = self.vf.load(S, (f, self.lay.f['size']), 'm_size')
        old = L(('init', (f, self.lay.f['size'])))
        used = [k for k in S.facts if k[0] == 'b' and 'emptylist' in repr(k)] or [k for k in S.facts if 'emptylist' in repr(k)]
        tr = [e for e in S.q if e[0] == 'truncate']
        if not used:
            self.bad('shared', 'truncate', 'truncates without looking whether blocks are in use')
            return
        if kind == 'ret':
            if len(tr) != 1 or tr[0][2] != L(('arg', 1)) or size != L(('arg', 1)):
                self.bad('size', 'truncate', 'file and recorded size are not set to what was asked for')
            i = [e[0] for e in S.q].index('truncate') if tr else 0
            t = self.vf.truth(S, L(('op', 'icmp', 'ne', self.vf.load(S, (f, self.lay.f['temp']), 'm_tempFile'), ())))
            rec = [e for e in S.q[i:] if e[0] == 'recorded']
            if t is not False and not (rec and rec[-1][2] == L(('bytesize', i + 1))):
                self.bad('size', 'recorded', 'the size of the temporary file is not recorded after truncating')
        elif not any(e[0].startswith('truncate') for e in S.q) and size != old:
            self.bad('size', 'failtruncate', 'a refused truncation changes the size')
        self.rep.ok('shared', None)


class Create(Lists):
    def done(self, S, kind, ret):
        nw = [e for e in S.q if e[0] == 'new']
        mods = [e for e in S.q if e[0] in MODS]
        if kind != 'ret':
            if mods:
                self.bad('shared', 'createfail', 'a block is added although allocating failed')
            return
        need = add(C(self.lay.b['data']), prod(BS, L(('IS',))))
        if len(nw) != 1 or any(c < 0 for _, c in add(nw[0][1], need, -1)):
            self.bad('shared', 'alloc', 'the buffer is not allocated for the items of a block')
        elif len(mods) != 1 or not mods[0][0].startswith('push') or mods[0][2] != nw[0][2]:
            self.bad('shared', 'add', 'the new block is not added to the free blocks')
        self.rep.ok('shared', None)


class Delete(Lists):
    def done(self, S, kind, ret):
        d = [e for e in S.q if e[0] == 'delete']
        mods = [e for e in S.q if e[0] in MODS]
        if kind == 'ret':
            if len(d) != 1 or len(mods) != 1 or not mods[0][0].startswith('pop') or d[0][1] != L(('front', mods[0][1], 0)):
                self.bad('shared', 'delete', 'the buffer freed is not the one removed from the free blocks')
        self.rep.ok('shared', None)


class Dtor(Lists):
    def done(self, S, kind, ret):
        if kind == 'ret':
            v = [e for e in S.q if e[0] == 'virtual' and e[1] == leaf1(ACCP)[0]]
            if len(v) != 1:
                self.bad('shared', 'accessor', 'the file accessor is deleted %d times' % len(v))
        self.rep.ok('shared', None)


def vslot(V, S, I):
    """(object leaf, slot) of a virtual call, the object being loaded from anywhere"""
    return F06.vslot(V, S, I)


def lists(rep, lay, sl):
    mod = load([build.tu('stream.cpp'), build.lib('file_base.cpp')], [r'^(\w+ )*w_(fs|ff|v)_\w+\(', r'^tpie::file_base::(get|free|create|delete)_block\('],
               preserve=PRES + [r'boost::intrusive', r'tpie::file_base::(create|delete)_block\('], nothrow=NOTHROW)
    a0 = ('arg', 0)

    def go(pat, cls, op, inits, roots=None, **kw):
        f = one(mod, pat)
        rep.fn(f)
        for name, mem, facts in inits:
            r = cls(rep, lay, sl, op + (' (%s)' % name if name else ''))
            for k, v in kw.items():
                setattr(r, k, v)
            if cls is Attach:
                r.before = name
            s = vf.S(())
            s.mem.update(mem)
            s.facts.update(facts)
            vf.VF(f, r, [s])
            if not r.n:
                r.bad('end', 'forever', 'the operation never comes back')
        return r
    fcells = {(a0, lay.f['acc']): ACCP, (a0, lay.f['bs']): BS, (a0, lay.f['is']): L(('IS',)), (a0, lay.f['size']): L(('init', (a0, lay.f['size'])))}
    g = go(r'^tpie::file_base::get_block\(', GetBlock, 'get_block', [('', fcells, {})])
    if not getattr(g, 'found', None):
        rep.fail('shared', 'get_block:search', 'get_block: never returns a block that is in use already, so two streams get different copies of a block', [])
    b = ('arg', 1)
    fb = dict(fcells)
    fb.update({(b, lay.b['usage']): L(('U',)), (b, lay.b['dirty']): L(('D',)), (a0, lay.f['cr']): L(('R',))})
    go(r'^tpie::file_base::free_block\(', FreeBlock, 'free_block', [('', fb, {})])
    st = {'none': {(a0, lay.o['file']): (), (a0, lay.o['block']): ()},
          'empty': {(a0, lay.o['file']): FILE, (a0, lay.o['block']): lay.empty},
          'block': {(a0, lay.o['file']): FILE, (a0, lay.o['block']): BLK}}
    e = lay.empty[0][0]
    facts = {('rel', 'e') + canon(BLK, ()): frozenset('<>'), ('rel', 'e') + canon(FILE, ()): frozenset('<>'), ('rel', 'e') + canon(lay.empty, ()): frozenset('<>'), ('rel', 'e') + canon(BLK, lay.empty): frozenset('<>')}
    states = []
    for n, m in st.items():
        m = dict(m)
        m[(e, lay.b['bsize'])] = C(0)
        m[(e, lay.b['number'])] = MAX
        states.append((n, m, facts))
    go(r'\bw_fs_attach\(', Attach, 'attach', states, want=True)
    go(r'\bw_fs_detach\(', Attach, 'detach', states, want=False)
    go(r'\bw_fs_destroy\(', Attach, 'destructor', states, want=False)

    class New(Lists):
        def done(s, S, kind, ret):
            if kind == 'ret' and [s.vf.load(S, (a0, lay.o[x]), x) for x in ('block', 'file')] != [(), ()]:
                s.bad('shared', 'construct', 'a new stream counts as attached or having a block')
            s.rep.ok('shared', None)
    go(r'\bw_fs_construct\(', New, 'constructor', [('', {}, {})])
    go(r'\bw_ff_truncate\(', Truncate, 'truncate', [('', {(a0, lay.f['acc']): ACCP}, {})])
    go(r'^tpie::file_base::create_block\(', Create, 'create_block', [('', fcells, {})])
    go(r'^tpie::file_base::delete_block\(', Delete, 'delete_block', [('', fcells, {})])
    go(r'\bw_ff_destroy\(', Dtor, 'file destructor', [('', {(a0, lay.f['acc']): ACCP}, {('rel', 'e') + canon(ACCP, ()): frozenset('<>')})])


def canon(a, b):
    return (a, b) if repr(a) <= repr(b) else (b, a)


def check(rep):
    rep.expl = ('Every operation of a stream of a tpie::file is followed from every state the representation invariant allows, with the blocks of the file taken and given back '
                'through get_block and free_block, whose own paths are compared with what the streams rely on.')
    rep.rule('place', 'reading and writing at position p touch exactly item p mod b of block p div b')
    rep.rule('block', 'blocks are taken and given back in pairs; a block taken is the one asked for, read once with the items that exist, and written back before its buffer is reused')
    rep.rule('position', 'each operation moves the position exactly as specified, and not at all when it fails')
    rep.rule('size', 'the size grows to the end of what was written and does not change otherwise')
    rep.rule('end', 'reading at the end throws end_of_stream_exception, seeking outside throws, nothing else does unless I/O failed, and the loops make progress')
    rep.rule('query', 'offset, size, can_read and can_read_back agree with position and size')
    rep.rule('buffer', 'the representation invariant is kept: the stream counts itself on the block it uses and on no other')
    rep.rule('shared', 'blocks of a file: found when in use, else read into a free buffer; written back when last given back')
    rep.rule('writeback', 'a modified block is written before its buffer is reused')
    rep.assumptions = ['the file accessor behaves as checked by F10', 'sizes and positions stay below 2^63']
    mod = load([build.tu('stream.cpp'), build.lib('file_base.cpp')], [r'^(\w+ )*w_(fs|ff|v)_\w+\('], preserve=PRES, nothrow=NOTHROW)
    sl = F06.slots(mod)
    lay = Fs(mod)
    arg1 = L(('arg', 1))
    ops = {
        'read': F06.spec_read(1, 0), 'write': F06.spec_write, 'read_back': F06.spec_read_back,
        'seek_b': F06.spec_seek(lambda r: arg1), 'seek_c': F06.spec_seek(lambda r: add(r.case.pos, arg1)), 'seek_e': F06.spec_seek(lambda r: add(r.case.size, arg1)),
        'offset': F06.spec_value('offset'), 'size': F06.spec_value('size'), 'can_read': F06.spec_value('can_read'), 'can_read_back': F06.spec_value('can_read_back'),
    }
    n = 0
    for op, spec in ops.items():
        f = one(mod, r'\bw_fs_%s\(' % op)
        rep.fn(f)
        for c in cases(1):
            s = vf.S((c.held, (), (), 0, None))
            lay.fill(s, c)
            r = FsR(rep, lay, sl, c, op, spec)
            vf.VF(f, r, [s])
            n += 1
            if not r.nret:
                r.bad('end', 'forever', 'the operation never comes back')
    for op in ('read_array', 'write_array'):
        F06.arrays(rep, lay, sl, mod, op, 'w_fs_' + op, cases(1), A=FsA)
    lists(rep, lay, sl)
    rep.ok('position', '%d operations from %d states' % (len(ops) + 2, n // len(ops)))
    rep.need('place', 20)


LEVEL = 'other'
