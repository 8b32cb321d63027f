"""Position, size and block handling of uncompressed streams, by induction over the public operations."""
import re
import build, vf
from vf import L, C, const, add, mul, leaf1
from common import load, one, throw_type
from linfacts import LinRule, prod, subst_leaf, isform

ACC = 'tpie::file_accessor::stream_accessor_base::'
EOS = 'tpie::end_of_stream_exception'
PRES = [r'tpie::file_accessor::stream_accessor_base<.*>::', r'tpie::temp_file::', r'tpie::bits::temp_file_inner::']
NOTHROW = [r'stream_accessor_base<.*>::(size|byte_size|path|get_compressed|user_data_size|max_user_data_size)\(', r'tpie::end_of_stream_exception', r'update_recorded_size']
ITEM = 24
X, K, NB, NI, Z, M, P, ST, O = (L((n,)) for n in ('X', 'K', 'NB', 'NI', 'Z', 'M', 'P', 'ST', 'O'))
BS = L(('BS',))
MAX = C(-1)


def slots(mod):
    """virtual table slots of read_block and write_block"""
    r = {}
    for n in ('read', 'write'):
        f = one(mod, r'\bw_v_%s_block\(' % n)
        got = []

        class R(vf.Rule):
            def call(self, S, I, args):
                s = vslot(self.vf, S, I)
                if s:
                    got.append(s[1])
        vf.VF(f, R(), [vf.S(())])
        if len(set(got)) != 1:
            raise build.Broken('%s_block is not a virtual call' % n)
        r[got[0]] = n
    return r


def vslot(V, S, I):
    """(object leaf, slot) of a virtual call"""
    if I.d.get('cv') is None:
        return None
    v = V.ev(S, I.d['cv'])
    lf, off = leaf1(v)
    if lf is None or off or lf[0] != 'init':
        return None
    vt, slot = lf[1]
    if vt[0] != 'init' or vt[1][1] != 0:
        return None
    return vt[1][0], slot


class Q:
    """state of the rule: immutable tuple with named fields"""
    N = ('held', 'acc', 'ev', 'io', 'last')


def upd(q, **kw):
    d = dict(zip(Q.N, q))
    d.update(kw)
    return tuple(d[n] for n in Q.N) + q[len(Q.N):]


class Us:
    """layout of uncompressed_stream"""
    name = 'tpie::uncompressed_stream'
    cells = {'index': 'm_index', 'nb': 'm_nextBlock', 'ni': 'm_nextIndex', 'start': 'm_blockStartIndex', 'bs': 'm_blockItems', 'is': 'm_itemSize', 'size': 'm_size',
             'acc': 'm_fileAccessor', 'temp': 'm_tempFile', 'open': 'm_open', 'cw': 'm_canWrite', 'cr': 'm_canRead',
             'bsize': 'm_block.size', 'number': 'm_block.number', 'dirty': 'm_block.dirty', 'data': 'm_block.data'}

    def __init__(self, mod):
        self.c = {}
        for k, p in self.cells.items():
            o = mod.moff(self.name, p)
            if o is None:
                raise build.Broken('member %s of %s not found' % (p, self.name))
            self.c[k] = (('arg', 0), o)

    def fill(self, s, case):
        for k, v in case.mem.items():
            s.mem[self.c[k]] = v


DATA, ACCP, TEMP = L(('data',)), L(('accessor',)), L(('tempfile',))


class Case:
    def __init__(self, name, mem, facts, held, pos, size):
        self.name, self.mem, self.facts, self.held, self.pos, self.size = name, mem, facts, held, pos, size


KBS = prod(K, BS)


def cases(temp):
    """all states allowed by the representation invariant"""
    base = [add(BS, C(-1)), add(TEMP, C(-1))]
    t = TEMP if temp else C(0)
    com = {'bs': BS, 'acc': ACCP, 'temp': t, 'data': DATA, 'open': C(1), 'is': C(ITEM)}

    def mk(name, facts, held, pos_, size_, **kw):
        m = dict(com)
        m.update(kw)
        return Case(name, m, base + facts, held, pos_, size_)
    lt = lambda a, b: add(add(b, a, -1), C(-1))      # a < b
    le = lambda a, b: add(b, a, -1)
    out = []
    cur = dict(nb=MAX, ni=MAX, number=K, start=KBS)
    pos = add(KBS, X)
    # block K loaded and current
    for full in (0, 1):
        for dirty in (0, 1):
            d = C(dirty)
            n = '%s%s block' % ('dirty ' if dirty else '', 'full' if full else 'last')
            ze = BS if full else P
            me = M if full else add(KBS, P)
            fx = [le(add(KBS, BS), M)] if full else [lt(P, BS)]
            out.append(mk('inside a ' + n, fx + [lt(X, ze)], K, pos, me, index=X, bsize=ze, size=me, dirty=d, **cur))
            pe = add(KBS, ze)
            if full:
                for more in (0, 1):
                    sz = M if more else pe
                    f2 = [lt(pe, M)] if more else []
                    out.append(mk('at the end of a %s%s' % (n, ' before more' if more else ''), f2, K, pe, sz, index=ze, bsize=ze, size=sz, dirty=d, **cur))
            else:
                out.append(mk('at the end of a ' + n, fx, K, pe, me, index=ze, bsize=ze, size=me, dirty=d, **cur))
            if dirty:
                out.append(mk('appended to a ' + n, [lt(Z, ze), lt(M, pe), le(add(KBS, Z), M)] + ([] if full else [lt(P, BS)]), K, pe, pe, index=ze, bsize=Z, size=M, dirty=d, **cur))
    # another block pending
    ppos = add(prod(NB, BS), NI)
    for data in ('none', 'full', 'last'):
        for dirty in (0, 1) if data != 'none' else (0,):
            d = C(dirty)
            ze = {'none': Z, 'full': BS, 'last': P}[data]
            num = MAX if data == 'none' else K
            fx = {'none': [], 'full': [le(add(KBS, BS), M)], 'last': [lt(P, BS)]}[data]
            me = add(KBS, P) if data == 'last' else M
            n = {'none': '', 'full': ' with a%s full block' % (' dirty' if dirty else ''), 'last': ' with a%s last block' % (' dirty' if dirty else '')}[data]
            for end in (0, 1) if data != 'last' else (0,):
                sz = ppos if end else me
                f2 = fx + [lt(NI, BS)] + ([] if end else [lt(ppos, me)])
                if end and data == 'full':
                    f2 = [le(add(KBS, BS), ppos), lt(NI, BS)]
                out.append(mk('pending%s%s' % (' at the end' if end else '', n), f2, None if data == 'none' else K, ppos, sz,
                              nb=NB, ni=NI, index=MAX, number=num, start=KBS if data != 'none' else ST, bsize=ze, size=sz, dirty=d))
    # the next block could not be fetched
    nbs = prod(NB, BS)
    for end in (0, 1):
        sz = nbs if end else M
        out.append(mk('next block unreadable' + (' at the end' if end else ''), [] if end else [lt(nbs, M)], None, nbs, sz,
                      nb=NB, ni=C(0), index=BS, number=MAX, start=ST, bsize=C(0), size=sz, dirty=C(0)))
        nx = add(KBS, BS)
        sz = nx if end else M
        out.append(mk('block could not be written back' + (' at the end' if end else ''), [] if end else [lt(nx, M)], K, nx, sz,
                      nb=add(K, C(1)), ni=C(0), index=BS, number=K, start=KBS, bsize=BS, size=sz, dirty=C(1)))
    return out


class R(LinRule):
    signed = (('arg', 1),)
    fold = ('NB', 'NI')

    def __init__(self, rep, lay, slots, case, op, spec):
        self.rep, self.lay, self.slots, self.case, self.op, self.spec = rep, lay, slots, case, op, spec
        self.facts = case.facts
        self.nret = 0

    def bad(self, rid, tag, text):
        self.rep.fail(rid, '%s:%s' % (self.op, tag), '%s (%s): %s' % (self.op, self.case.name, text), self.vf.trace())

    def get(self, S, n):
        return self.vf.load(S, self.lay.c[n], n)

    # logical state
    def pos(self, S):
        nb = self.get(S, 'nb')
        if const(nb) == -1:
            return add(self.get(S, 'index'), self.get(S, 'start'))
        return add(self.get(S, 'ni'), self.pr(nb, BS))

    def pr(self, a, b):
        return prod(a, b)

    def valid(self, S):
        """items in the buffer (form), after choosing the larger of the recorded size and the position"""
        z = self.get(S, 'bsize')
        i = self.get(S, 'index')
        if const(self.get(S, 'dirty')) == 1 and const(i) != -1:
            return L(('op', 'umax', i, z)) if i != z else z
        return z

    def size(self, S):
        m = self.get(S, 'size')
        i = self.get(S, 'index')
        if const(self.get(S, 'dirty')) == 1 and const(i) != -1:
            e = add(i, self.get(S, 'start'))
            return L(('op', 'umax', m, e)) if e != m else m
        return m

    def ueq(self, S, a, b):
        """equal given what is known, quotients that were compared equal being replaced"""
        return self.eq(S, self.norm(S, a), self.norm(S, b))

    # -- events
    def call(self, S, I, args):
        s = I.short or ''
        vs = vslot(self.vf, S, I)
        q = S.q
        if vs and vs[1] in self.slots:
            kind = self.slots[vs[1]]
            out = []
            for S2, (a, d, k, n) in self.splits(S, args):
                out += self.block_io(S2, I, kind, a, d, k, n)
            return out
        if s.startswith(ACC):
            m = s[len(ACC):]
            n = S.copy()
            if m == 'byte_size':
                n.env[I.id] = L(('bytesize', len(q[2])))
                n.q = upd(q, last='byte_size')
                return [('ret', n)]
            if m in ('truncate', 'close', 'open'):
                if const(self.get(S, 'dirty')) == 1 and q[0] is not None and m != 'open':
                    self.bad('writeback', m, 'the modified block is not written before the file is %s' % ('truncated' if m == 'truncate' else 'closed'))
                n.q = upd(q, ev=q[2] + ((m,) + tuple(args[1:2] if m == 'truncate' else ()),))
                t = S.copy(upd(q, io=1))
                t.exc = 'io'
                return [('ret', n), ('throw', t)]
            if m == 'size':
                n.env[I.id] = L(('filesize',))
                return [('ret', n)]
            if m == 'get_compressed':
                n.env[I.id] = L(('compressed',))
                return [('ret', n)]
            return [('ret', n)]
        if s == 'tpie::temp_file::update_recorded_size':
            n = S.copy()
            v = args[1]
            ok = v == L(('bytesize', len(q[2])))
            n.q = upd(q, ev=q[2] + (('recorded', ok),))
            return [('ret', n)]
        if s in ('operator new', 'operator new[]'):
            n = S.copy()
            v = L(('new', I.id))
            n.env[I.id] = v
            if s.endswith(']'):
                n.q = upd(q, ev=q[2] + (('new', args[0], v),))
            t = S.copy(upd(q, io=1))
            t.exc = 'std::bad_alloc'
            return [('ret', n), ('throw', t)]
        if s in ('tpie::tpie_new', 'std::unique_ptr::get'):
            n = S.copy()
            n.env[I.id] = L(('owned',))
            t = S.copy(upd(q, io=1))
            t.exc = '?'
            return [('ret', n), ('throw', t)]
        if s == '__cxa_throw':
            t = S.copy()
            t.exc = throw_type(I) or '?'
            return [('throw', t)]
        return None

    def block_io(self, S, I, kind, a, d, k, n):
        q = S.q
        if a != ACCP:
            self.bad('block', 'acc', 'a block is transferred with something else than the file accessor')
        if d != DATA:
            self.bad('block', 'buf', 'a block is transferred from or to something else than the buffer')
        k, n = self.norm(S, k), self.norm(S, n)
        out = []
        if kind == 'read':
            if const(self.get(S, 'dirty')) != 0 and q[0] is not None and not self.saved(S):
                self.bad('writeback', 'read', 'a block is read over a modified one that has not been written back')
            size = self.size(S)
            end = add(prod(k, BS), n)
            if not self.ge(S, add(BS, n, -1)) or not self.ge(S, add(self.case.size, end, -1)) or not (self.eq(S, n, BS) or self.eq(S, end, self.case.size)):
                self.bad('block', 'read', 'reads %s items of block %s instead of those that exist' % (vf.show(n), vf.show(k)))
            ok = S.copy(upd(q, held=k, last='read'))
            ok.env[I.id] = n
            sh = S.copy(upd(q, held=None, io=1, last='short'))
            sh.env[I.id] = L(('short',))
            sh.facts[('rel', 'e') + self.vf.canon('eq', L(('short',)), n)[1:]] = frozenset('<>')
            t = S.copy(upd(q, held=None, io=1))
            t.exc = 'io'
            self.rep.ok('block', None)
            return [('ret', ok), ('ret', sh), ('throw', t)]
        # write
        if q[0] is None:
            self.bad('block', 'nothing', 'writes a buffer that holds no block')
        elif not self.eq(S, k, self.norm(S, q[0])):
            self.bad('block', 'write', 'writes the content of block %s as block %s' % (vf.show(q[0]), vf.show(k)))
        else:
            for S2, (want,) in self.splits(S, (self.valid(S),)):
                if not self.ueq(S2, n, want):
                    self.bad('block', 'count', 'writes %s items of a block of %s' % (vf.show(n), vf.show(want)))
        self.rep.ok('block', None)
        ok = S.copy(upd(q, ev=q[2] + (('write',),), last='write'))
        t = S.copy(upd(q, io=1))
        t.exc = 'io'
        return [('ret', ok), ('throw', t)]

    def saved(self, S):
        return any(e == ('write',) for e in S.q[2])

    def on_store(self, S, I, cell, val):
        # a block without items needs no reading
        if cell == self.lay.c['number'] and val is not None and const(val) != -1:
            q = S.q
            if (q[0] is None or not self.eq(S, val, q[0])) and self.ge(S, add(prod(val, BS), self.case.size, -1)):
                if const(self.get(S, 'dirty')) != 0 and not self.saved(S):
                    self.bad('writeback', 'forget', 'a modified block is replaced without having been written back')
                S.q = upd(q, held=val)

    def step(self, S, I):
        """accesses to the buffer"""
        if I.op in ('load', 'store'):
            p = I.a[0] if I.op == 'load' else I.a[1]
            self.access(S, I, 'r' if I.op == 'load' else 'w', self.vf.ev(S, p), None)
        elif I.iscall and (I.short or '').startswith(('llvm.memcpy', 'llvm.memmove')):
            n = self.vf.ev(S, I.a[2])
            self.access(S, I, 'w', self.vf.ev(S, I.a[0]), n)
            self.access(S, I, 'r', self.vf.ev(S, I.a[1]), n)
        return None

    def bufpos(self, S, p):
        """where in the buffer an address is, in bytes"""
        return add(p, DATA, -1) if dict(p).get(('data',)) == 1 else None

    def access(self, S, I, rw, p, n):
        rest = self.bufpos(S, p)
        if rest is None:
            return
        # the first byte of the item
        c = dict(rest)
        o = c.get((), 0) % ITEM
        rest = add(rest, C(-o))
        if any(x % ITEM for _, x in rest):
            self.bad('place', 'unaligned', 'accesses the buffer at %s' % vf.show(rest))
            return
        idx = tuple((k, x // ITEM) for k, x in rest)
        q = S.q
        if q[0] is None:
            self.bad('place', 'stale', 'uses a buffer that holds no block')
            return
        at = add(prod(q[0], BS), idx)
        e = (rw, at)
        if not q[1] or q[1][-1] != e:
            S.q = upd(q, acc=q[1] + (e,))
        if not self.ge(S, add(BS, idx, -1), 1) and not self.ge(S, add(BS, self.norm(S, idx), -1), 1):
            self.bad('place', 'outside', 'accesses item %s of the buffer' % vf.show(idx))

    def exit(self, S, I, kind, ret):
        pv = self.pos(S)
        for S2, (p, z, r) in self.splits(S, (pv, self.size(S), ret)):
            self.final(S2, kind, p, z, r)

    def final(self, S, kind, p, z, ret):
        self.nret += 1
        self.spec(self, S, kind, self.norm(S, p), self.norm(S, z), ret)
        self.rep.ok('position', None)

    def unchanged(self, S, p, z, what):
        if not self.ueq(S, p, self.case.pos):
            self.bad('position', 'moved:' + what, '%s moves the position from %s to %s' % (what, vf.show(self.case.pos), vf.show(p)))
        self.samesize(S, z, what)

    def samesize(self, S, z, what):
        if not self.ueq(S, z, self.case.size):
            self.bad('size', 'changed:' + what, '%s changes the size from %s to %s' % (what, vf.show(self.case.size), vf.show(z)))

    def inv(self, S):
        """the representation invariant the cases start from"""
        nb, ni, ix, st, num = (self.norm(S, self.get(S, x)) for x in ('nb', 'ni', 'index', 'start', 'number'))
        held = self.norm(S, S.q[0]) if S.q[0] is not None else None
        dirty = self.get(S, 'dirty')
        if const(num) != -1:
            if held is None or not self.eq(S, num, held):
                self.bad('buffer', 'number', 'the buffer is taken for block %s but holds %s' % (vf.show(num), 'nothing valid' if held is None else 'block ' + vf.show(held)))
                return
        if const(dirty) not in (0, 1):
            self.bad('buffer', 'dirty', 'it is unknown whether the block is modified')
        if const(dirty) == 1 and const(num) == -1:
            self.bad('buffer', 'lost', 'the modified block is forgotten')
        if const(dirty) == 0 and self.case.mem.get('dirty') == C(1) and not any(e[0] == 'write' for e in S.q[2]):
            self.bad('writeback', 'notwritten', 'a modified block that was not written counts as unmodified')
        if const(dirty) == 0 and any(a[0] == 'w' for a in S.q[1]):
            self.bad('buffer', 'clean', 'an item was written but the block is not marked modified')
        if const(nb) == -1:
            if const(num) == -1:
                self.bad('buffer', 'noblock', 'there is no current block')
                return
            if const(ix) is not None and const(ix) < 0 or not self.ge(S, ix) or not self.ge(S, add(BS, ix, -1)):
                self.bad('buffer', 'index', 'the position within the block is %s' % vf.show(ix))
            if not self.eq(S, st, prod(num, BS)):
                self.bad('buffer', 'start', 'the current block %s is taken to start at %s' % (vf.show(num), vf.show(st)))
        else:
            if not self.ge(S, add(BS, ni, -1), 1):
                self.bad('buffer', 'ni', 'the pending position within the block is %s' % vf.show(ni))
            if const(ix) != -1:
                zz = self.get(S, 'bsize')
                if not self.ge(S, add(ix, BS, -1)) or not self.ge(S, add(ix, zz, -1)):
                    self.bad('buffer', 'pendidx', 'the old position %s is still valid while another block is pending' % vf.show(ix))
        if const(num) != -1:
            for S2, (v, sz) in self.splits(S, (self.valid(S), self.size(S))):
                v, sz = self.norm(S2, v), self.norm(S2, sz)
                if not self.eq(S2, v, BS) and not self.eq(S2, add(prod(num, BS), v), sz):
                    self.bad('buffer', 'valid', 'the buffer of block %s is taken to hold %s items of a stream of %s' % (vf.show(num), vf.show(v), vf.show(sz)))
        self.rep.ok('buffer', None)


def at_end(r, S):
    return r.ge(S, add(r.case.pos, r.case.size, -1))


def before_end(r, S):
    return r.ge(S, add(r.case.size, r.case.pos, -1), 1)


def expect_access(r, S, want):
    got = S.q[1]
    got = tuple((k, r.norm(S, v)) for k, v in got)
    if len(got) != len(want) or any(g[0] != w[0] or not r.eq(S, g[1], w[1]) for g, w in zip(got, want)):
        r.bad('place', 'access', 'accesses %s instead of %s' % (', '.join('%s item %s' % ({'r': 'reads', 'w': 'writes'}[k], vf.show(v)) for k, v in got) or 'nothing',
                                                              ', '.join('item %s' % vf.show(v) for k, v in want) or 'nothing'))
    else:
        r.rep.ok('place', None)


def spec_read(delta, at):
    def spec(r, S, kind, p, z, ret):
        c = r.case
        if kind == 'ret':
            if not before_end(r, S):
                r.bad('end', 'missing', 'reading at the end does not throw')
                return
            expect_access(r, S, [('r', add(c.pos, C(at)))])
            if not r.ueq(S, p, add(c.pos, C(delta))):
                r.bad('position', 'after', 'the position becomes %s instead of %s' % (vf.show(p), vf.show(add(c.pos, C(delta)))))
            r.samesize(S, z, 'reading')
        else:
            if S.exc == EOS:
                if not at_end(r, S):
                    r.bad('end', 'spurious', 'throws end_of_stream_exception before the end')
            elif not S.q[3]:
                r.bad('end', 'other', 'throws %s although no I/O failed' % S.exc)
            r.unchanged(S, p, z, 'a failing read')
        r.inv(S)
    return spec


def spec_read_back(r, S, kind, p, z, ret):
    c = r.case
    prev = add(c.pos, C(-1))
    if kind == 'ret':
        if not r.ge(S, prev):
            r.bad('end', 'front', 'reading back at the beginning does not throw')
            return
        expect_access(r, S, [('r', prev)])
        if not r.ueq(S, p, prev):
            r.bad('position', 'after', 'the position becomes %s instead of %s' % (vf.show(p), vf.show(prev)))
    else:
        if not S.q[3] and r.ge(S, prev):
            r.bad('end', 'spuriousback', 'throws %s although there is an item to read back' % S.exc)
        if not r.ueq(S, p, c.pos) and not r.ueq(S, p, prev):
            r.bad('position', 'failback', 'a failing read_back moves the position to %s' % vf.show(p))
    r.samesize(S, z, 'reading back')
    r.inv(S)


def spec_write(r, S, kind, p, z, ret):
    c = r.case
    if kind == 'ret':
        expect_access(r, S, [('w', c.pos)])
        nx = add(c.pos, C(1))
        if not r.ueq(S, p, nx):
            r.bad('position', 'after', 'the position becomes %s instead of %s' % (vf.show(p), vf.show(nx)))
        want = nx if at_end(r, S) else c.size
        if not r.ueq(S, z, want):
            r.bad('size', 'after', 'the size becomes %s instead of %s' % (vf.show(z), vf.show(want)))
        if const(r.get(S, 'dirty')) != 1:
            r.bad('buffer', 'clean', 'the block written to is not marked modified')
    else:
        if not S.q[3]:
            r.bad('end', 'write', 'throws %s although no I/O failed' % S.exc)
        r.unchanged(S, p, z, 'a failing write')
        if S.q[1]:
            r.bad('place', 'failwrite', 'a failing write changes an item')
    r.inv(S)


def spec_seek(target):
    def spec(r, S, kind, p, z, ret):
        c = r.case
        t = target(r)
        hi = add(c.size, t, -1)
        if kind == 'ret':
            if not r.ueq(S, p, t):
                r.bad('position', 'seek', 'seeks to %s instead of %s' % (vf.show(p), vf.show(t)))
            if not r.ge(S, r.norm(S, t)) or not r.ge(S, r.norm(S, hi)):
                r.bad('end', 'range', 'accepts a position outside the stream')
        else:
            if not r.ge(S, mul(t, -1), 1) and not r.ge(S, mul(hi, -1), 1) and not S.q[3]:
                r.bad('end', 'refused', 'refuses a position inside the stream')
            if not r.ueq(S, p, c.pos):
                r.bad('position', 'failseek', 'a failing seek moves the position')
        r.samesize(S, z, 'seeking')
        if S.q[1]:
            r.bad('place', 'seek', 'seeking accesses items')
        r.inv(S)
    return spec


def spec_value(kind2):
    def spec(r, S, kind, p, z, ret):
        c = r.case
        if kind != 'ret':
            r.bad('query', 'throw', 'throws')
            return
        if kind2 in ('offset', 'size'):
            want = c.pos if kind2 == 'offset' else c.size
            if not r.ueq(S, ret, want):
                r.bad('query', 'value', 'returns %s instead of %s' % (vf.show(ret), vf.show(want)))
        else:
            d = add(c.size, c.pos, -1) if kind2 == 'can_read' else c.pos
            for t in (True, False):
                S1 = r.vf.assume(S, ret, t)
                for S2, _ in r.splits(S1) if S1 is not None else ():
                    e = r.norm(S2, d)
                    if r.ge(S2, e, 1) if t else r.ge(S2, mul(e, -1)):
                        continue
                    r.bad('query', 'bool%d' % t, 'may return %s when the position is %s and the size %s' % (t, vf.show(c.pos), vf.show(c.size)))
        r.unchanged(S, p, z, 'a query')
        r.inv(S)
        r.rep.ok('query', None)
    return spec


def spec_truncate(r, S, kind, p, z, ret):
    c = r.case
    n = L(('arg', 1))
    if kind == 'ret':
        if ('truncate', n) not in S.q[2]:
            r.bad('size', 'truncfile', 'the file is not truncated to the new size')
        if not r.ueq(S, z, n):
            r.bad('size', 'trunc', 'the size becomes %s' % vf.show(z))
        lo = r.ge(S, add(n, c.pos, -1))
        hi = r.ge(S, add(c.pos, n, -1))
        if not (lo and r.ueq(S, p, c.pos) or hi and r.ueq(S, p, n)):
            r.bad('position', 'trunc', 'the position becomes %s' % vf.show(p))
        if r.get(S, 'temp') != C(0) and (not S.q[2] or S.q[2][-1] != ('recorded', True)):
            r.bad('recorded', 'trunc', 'the size of the temporary file is not recorded after truncating')
        if const(r.get(S, 'number')) != -1 and S.q[0] is not None:
            r.bad('buffer', 'trunc', 'the block read before truncating is kept')
        r.inv(S)


def spec_close(r, S, kind, p, z, ret):
    if kind == 'ret':
        if ('close',) not in S.q[2]:
            r.bad('writeback', 'noclose', 'the file is not closed')
        if const(r.get(S, 'open')) != 0:
            r.bad('writeback', 'open', 'the stream still counts as open')


class A(R):
    """reading and writing arrays: the loops are cut at their heads, where the representation invariant is
    checked and every state it allows is followed again, with the progress made so far as a new quantity"""
    POS0, SIZE0, COPIED = L(('pos0',)), L(('size0',)), None

    def __init__(self, rep, lay, slots, case, op, pos0, size0, prog, tmpl):
        R.__init__(self, rep, lay, slots, case, op, None)
        self.pos0, self.size0, self.tmpl = pos0, size0, tmpl
        self.cnt = L(('arg', 2))
        self.user = L(('arg', 1))
        self.heads = {}
        self.started = False
        self.prog = prog

    def copied(self, S):
        return S.q[5]

    def step(self, S, I):
        if I.iscall and (I.short or '').startswith(('llvm.memcpy', 'llvm.memmove')):
            ev = self.vf.ev
            vals = tuple(ev(S, x) for x in I.a[:3])
            if not any(re.search(r"\('(data|blk\d?)',|\('arg', 1\)", repr(v)) for v in vals[:2]):
                return None
            out = []
            for S2, (d, s, n) in self.splits(S, vals):
                self.copy(S2, d, s, n)
                out += [S2] if self.bufpos(S2, d) is not None else self.vf.intrinsic(S2, I)
            return out
        if I.op in ('load', 'store'):
            p = self.vf.ev(S, I.a[0] if I.op == 'load' else I.a[1])
            if self.bufpos(S, p) is not None:
                self.bad('place', 'single', 'accesses part of an item of the buffer')
        return None

    def copy(self, S, d, s, n):
        pd, ps = self.bufpos(S, d), self.bufpos(S, s)
        bufd, bufs = pd is not None, ps is not None
        usr = d if bufs else s
        if bufd == bufs or dict(usr).get(('arg', 1)) != 1:
            return
        if bufd != (self.op == 'write_array'):
            self.bad('place', 'direction', 'copies in the wrong direction')
            return
        buf = pd if bufd else ps
        usr = add(usr, self.user, -1)
        if any(c % ITEM for v in (buf, usr, n) for _, c in v):
            self.bad('place', 'unaligned', 'copies parts of items')
            return
        buf, usr, n = (tuple((k, c // ITEM) for k, c in v) for v in (buf, usr, n))
        q = S.q
        if q[0] is None:
            self.bad('place', 'stale', 'uses a buffer that holds no block')
            return
        N = lambda v: self.norm(S, v)
        at = add(prod(q[0], BS), buf)
        if not self.eq(S, N(add(at, self.pos0, -1)), N(usr)):
            self.bad('place', 'access', 'item %s of the array is matched with item %s of a stream at %s' % (vf.show(N(usr)), vf.show(N(at)), vf.show(self.pos0)))
        if not self.eq(S, N(usr), N(q[5])):
            self.bad('place', 'order', 'item %s is copied when %s are done' % (vf.show(N(usr)), vf.show(N(q[5]))))
        if not self.ge(S, N(add(self.cnt, add(usr, n), -1))):
            self.bad('place', 'beyond', 'copies more items than the array has')
        if bufs:
            end = add(at, n)
            if not self.ge(S, N(add(self.size0, end, -1))):
                self.bad('place', 'pastend', 'copies items from the buffer that lie beyond the end of the stream')
        if not self.ge(S, N(add(BS, add(buf, n), -1))):
            self.bad('place', 'outside', 'copies %s items at item %s of the buffer' % (vf.show(N(n)), vf.show(N(buf))))
        self.rep.ok('place', None)
        S.q = upd(q, acc=q[1] + (('w' if bufd else 'r', at),) if not q[1] else q[1])[:5] + (N(add(q[5], n)),)

    def progress(self, S, p):
        return self.norm(S, add(p, self.pos0, -1))

    def sizes(self, S, p, z, what):
        """size as it must be at position p"""
        if self.op == 'read_array':
            if not self.ueq(S, z, self.size0):
                self.bad('size', 'changed:' + what, 'reading changes the size from %s to %s' % (vf.show(self.size0), vf.show(z)))
            return
        for S2, (a, b, c) in self.splits(S, (L(('op', 'umax', p, self.size0)), z, p)):
            if not self.ueq(S2, b, a):
                self.bad('size', 'after:' + what, 'the size is %s after writing up to %s in a stream of %s' % (vf.show(b), vf.show(c), vf.show(self.size0)))

    def head(self, V, b, S):
        if not self.started and self.tmpl is not None:
            self.started = True
            return True
        vals = [(x, S.env[x]) for x in sorted((x for x in S.env), key=repr) if S.env[x] is not None]
        for S2, vs in self.splits(S, (self.pos(S), self.size(S)) + tuple(v for _, v in vals)):
            p, z = self.norm(S2, vs[0]), self.norm(S2, vs[1])
            self.inv(S2)
            g = self.progress(S2, p)
            if not self.eq(S2, g, self.norm(S2, S2.q[5])):
                self.bad('position', 'loop', 'the position is %s after %s of the items starting at %s' % (vf.show(p), vf.show(S2.q[5]), vf.show(self.pos0)))
            self.sizes(S2, p, z, 'loop')
            if not self.ge(S2, g) or not self.ge(S2, add(self.cnt, g, -1)):
                self.bad('position', 'range', 'after %s items of an array of %s' % (vf.show(g), vf.show(self.cnt)))
            if self.op == 'read_array' and not self.ge(S2, add(self.size0, add(self.pos0, self.cnt), -1)):
                self.bad('end', 'array', 'reads an array although the stream ends before')
            self.arrive(V, b, S2, g, dict(zip((x for x, _ in vals), vs[2:])))
        return False

    def arrive(self, V, b, S, g, env):
        if b == self.vf.start and not self.ge(S, add(g, self.prog, -1), 1):
            self.bad('end', 'stuck', 'goes round the loop without making progress')
        self.heads.setdefault(b, []).append((S, g, env, self))

    def final(self, S, kind, p, z, ret):
        self.nret += 1
        p, z = self.norm(S, p), self.norm(S, z)
        g = self.progress(S, p)
        if kind == 'ret':
            if not self.eq(S, g, self.cnt):
                self.bad('position', 'after', 'the position is %s after %s items from %s' % (vf.show(p), vf.show(self.cnt), vf.show(self.pos0)))
            if not self.eq(S, self.norm(S, S.q[5]), self.cnt):
                self.bad('place', 'count', 'copies %s of %s items' % (vf.show(S.q[5]), vf.show(self.cnt)))
        elif S.exc == EOS:
            if self.op != 'read_array' or not self.ge(S, add(add(self.pos0, self.cnt), self.size0, -1), 1):
                self.bad('end', 'spurious', 'throws end_of_stream_exception although there are enough items')
            if not self.eq(S, g, ()):
                self.bad('position', 'eos', 'a failing read moves the position by %s' % vf.show(g))
        else:
            if not S.q[3]:
                self.bad('end', 'other', 'throws %s although no I/O failed' % S.exc)
            if not self.eq(S, g, self.norm(S, S.q[5])):
                self.bad('position', 'fail', 'the position is %s after %s of the items starting at %s' % (vf.show(p), vf.show(S.q[5]), vf.show(self.pos0)))
        self.sizes(S, p, z, 'exit')
        self.inv(S)


SL = (1, ITEM, -1, -ITEM, 0)


def caseleaf(v):
    return any(k and (k[0] in ('X', 'K', 'NB', 'NI', 'Z', 'M', 'P', 'ST', 'O') or k[0] == '*' and any(f[0] in ('X', 'K', 'NB', 'NI') for f in k[1:]) or
                      k[0] in ('op', 'init', 'w', 'short')) for k, _ in v)


def spec_open(kind2):
    def spec(r, S, kind, p, z, ret):
        lost = r.case.mem['dirty'] == C(1) and not r.saved(S)
        if kind == 'ret':
            if lost:
                r.bad('writeback', 'reopen', 'the modified block is not written before another file is opened')
            opens = [e for e in S.q[2] if e[0] == 'open']
            if len(opens) != 1 or [e for e in S.q[2] if e[0] in ('open', 'close', 'truncate')][-1] != opens[0]:
                r.bad('position', 'open', 'the file is not opened exactly once, last')
                return
            if const(r.get(S, 'open')) != 1 or r.get(S, 'size') != L(('filesize',)):
                r.bad('size', 'open', 'the size of the opened stream is %s' % vf.show(z))
            if p != ():
                r.bad('position', 'opened', 'the position after opening is %s' % vf.show(p))
            if kind2 != 'path' and r.get(S, 'temp') == C(0):
                r.bad('recorded', 'open', 'the temporary file is not remembered')
            if kind2 == 'path' and r.get(S, 'temp') != C(0):
                r.bad('recorded', 'openpath', 'a temporary file is remembered for a named file')
            d = r.get(S, 'data')
            k = [e for e in S.q[2] if e[0] == 'new' and e[2] == d]
            if d == DATA or not k or not r.eq(S, k[0][1], mul(BS, ITEM)):
                r.bad('buffer', 'alloc', 'the buffer is not allocated for the items of a block')
            S = S.copy()
            S.mem[r.lay.c['data']] = DATA
            r.inv(S)
        elif lost and not S.q[3]:
            r.bad('writeback', 'reopenfail', 'the modified block is lost')
    return spec


class Collect:
    """holds back what a round reports until the loop variables are understood"""
    def __init__(self):
        self.fails, self.oks = [], 0

    def fail(self, *a):
        self.fails.append(a)

    def ok(self, *a, **k):
        self.oks += 1

    def flush(self, rep):
        for a in self.fails:
            rep.fail(*a)
        rep.ok('place', None, n=self.oks)


def arrays(rep, lay, sl, mod, op, name, mkcases, A=A):
    """the loop of an array operation"""
    f = one(mod, r'\b%s\(' % name)
    rep.fn(f)
    cnt = L(('arg', 2))
    n = 0

    def init(case, prog):
        s = vf.S((case.held, (), (), 0, None, prog))
        lay.fill(s, case)
        return s
    entry = {}
    for c in mkcases:
        r = A(rep, lay, sl, c, op, c.pos, c.size, (), None)
        vf.VF(f, r, [init(c, ())])
        n += 1
        for b, l in r.heads.items():
            entry.setdefault(b, []).extend(l)
    if not entry:
        raise build.Broken('no loop in %s' % op)
    # what the loop variables are: base + slope * progress
    bad = set()

    def guess(b, l):
        tm = {}
        for S, g, env, r in l:
            for x, v in env.items():
                if x in tm and tm[x] is None:
                    continue
                ok = False
                sl = SL if ('arg', 1) not in dict(v) else (ITEM,) + SL
                for k in ((tm[x][1],) if x in tm else sl):
                    base = r.norm(S, add(v, mul(g, -k)))
                    if (b, x, k) not in bad and not caseleaf(base) and (x not in tm or r.eq(S, base, tm[x][0])):
                        tm[x] = (base, k)
                        ok = True
                        break
                if not ok:
                    tm[x] = None
        for x in list(tm):
            if any(x not in env for _, _, env, _ in l):
                tm[x] = None
        return tm
    tms = {}
    for b, l in entry.items():
        tms[b] = guess(b, l)
    for rnd in range(40):
        col = Collect()
        again = {}
        for b, tm in tms.items():
            for c in mkcases:
                pos0, size0 = L(('pos0',)), L(('size0',))
                prog = add(c.pos, pos0, -1)
                facts = [prog, add(cnt, prog, -1)]
                ways = []
                if op == 'read_array':
                    ways.append((c.size, facts + [add(c.size, add(pos0, cnt), -1)]))
                else:
                    ways.append((c.size, facts))                       # everything below the old end so far
                    if c.size == c.pos:
                        ways.append((size0, facts + [add(add(c.pos, size0, -1), C(-1))]))
                for sz0, fx in ways:
                    c2 = Case(c.name + ', in the loop', c.mem, c.facts + fx, c.held, c.pos, c.size)
                    r = A(col, lay, sl, c2, op, pos0, sz0, prog, tm)
                    s = init(c2, prog)
                    for x, t in tm.items():
                        s.env[x] = L(('w', b, x)) if t is None else add(t[0], mul(prog, t[1]))
                    vf.VF(f, r, [s], start=b)
                    n += 1
                    for b2, l in r.heads.items():
                        again.setdefault(b2, []).extend(l)
        # do the loop variables keep their shape?
        fresh = False
        for b, l in again.items():
            if b not in tms:
                tms[b] = guess(b, l)
                fresh = True
                continue
            tm = tms[b]
            for S, g, env, r in l:
                for x, v in env.items():
                    t = tm.get(x)
                    if x not in tm:
                        tm[x] = None
                        fresh = True
                    elif t is not None and not r.eq(S, r.norm(S, v), r.norm(S, add(t[0], mul(g, t[1])))):
                        bad.add((b, x, t[1]))
                        tm[x] = guess(b, entry.get(b, l)).get(x)
                        fresh = True
        if not fresh:
            col.flush(rep)
            return n
    raise build.Broken('the loop of %s is not understood' % op)


def check(rep):
    rep.expl = ('Every public operation of an uncompressed stream is followed from every state the representation invariant allows (block loaded, partial, modified, another block '
                'pending, a fetch or write-back that failed before). Positions are affine forms, with products of block number and block size; what the operation reads, writes and '
                'leaves behind is compared with its specification, and the invariant is shown to hold again, so the result holds after any sequence of operations.')
    rep.rule('place', 'reading and writing at position p touch exactly item p mod b of the buffer while it holds block p div b')
    rep.rule('block', 'blocks are transferred with their own number and as many items as exist in them')
    rep.rule('writeback', 'a modified block is written before the buffer is reused, the file truncated or closed')
    rep.rule('position', 'each operation moves the position exactly as specified, and not at all when it fails')
    rep.rule('size', 'the size grows to the end of what was written, is set by truncation, and does not change otherwise')
    rep.rule('end', 'reading at the end throws end_of_stream_exception, seeking outside the stream throws, and nothing else does unless I/O failed')
    rep.rule('query', 'offset, size, can_read and can_read_back agree with position and size')
    rep.rule('buffer', 'the representation invariant is kept: the buffer is never taken for a block it does not hold')
    rep.rule('recorded', 'the size of a temporary file is recorded after each change')
    rep.assumptions = ['the file accessor behaves as checked by F10', 'sizes and positions stay below 2^63']
    mod = load([build.tu('stream.cpp'), build.lib('file_stream_base.cpp'), build.lib('file_base.cpp')], [r'^(\w+ )*w_(us|v)_\w+\('], preserve=PRES, nothrow=NOTHROW)
    sl = slots(mod)
    lay = Us(mod)
    arg1 = L(('arg', 1))
    ops = {
        'read': spec_read(1, 0), 'peek': spec_read(0, 0), 'write': spec_write, 'read_back': spec_read_back,
        'seek_b': spec_seek(lambda r: arg1), 'seek_c': spec_seek(lambda r: add(r.case.pos, arg1)), 'seek_e': spec_seek(lambda r: add(r.case.size, arg1)),
        'skip': spec_seek(lambda r: add(r.case.pos, C(1))), 'skip_back': spec_seek(lambda r: add(r.case.pos, C(-1))),
        'offset': spec_value('offset'), 'size': spec_value('size'), 'can_read': spec_value('can_read'), 'can_read_back': spec_value('can_read_back'),
        'truncate': spec_truncate, 'close': spec_close,
    }
    n = 0
    for op, spec in ops.items():
        f = one(mod, r'\bw_us_%s\(' % op)
        rep.fn(f)
        for temp in (0, 1):
            for c in cases(temp):
                s = vf.S((c.held, (), (), 0, None))
                lay.fill(s, c)
                r = R(rep, lay, sl, c, op, spec)
                if op == 'truncate':
                    r.signed = ()
                vf.VF(f, r, [s])
                n += 1
                if not r.nret:
                    r.bad('end', 'forever', 'the operation never comes back')
    for op in ('read_array', 'write_array'):
        arrays(rep, lay, sl, mod, op, 'w_us_' + op, cases(1))
    closed = Case('closed', {'bs': BS, 'acc': ACCP, 'temp': C(0), 'data': C(0), 'open': C(0), 'is': C(ITEM), 'dirty': C(0)}, [add(BS, C(-1)), add(L(('owned',)), C(-1))], None, (), ())
    for op in ('path', 'temp', 'anon'):
        f = one(mod, r'\bw_us_open%s\(' % ('' if op == 'path' else '_' + op))
        rep.fn(f)
        for c in [closed] + cases(1):
            c.facts = c.facts + [add(L(('owned',)), C(-1)), add(L(('arg', 1)), C(-1))]
            s = vf.S((c.held, (), (), 0, None))
            lay.fill(s, c)
            r = R(rep, lay, sl, c, 'open_' + op, spec_open(op))
            vf.VF(f, r, [s])
            if not r.nret:
                r.bad('end', 'forever', 'the operation never comes back')
    life(rep, lay, mod)
    rep.ok('position', '%d operations from %d states' % (len(ops), n // len(ops)))
    rep.need('place', 20)


class Life(vf.Rule):
    """construction and destruction; q: virtual calls and deletions of the accessor"""
    def __init__(self, rep, lay, op):
        self.rep, self.lay, self.op = rep, lay, op
        self.n = 0

    def bad(self, rid, tag, text):
        self.rep.fail(rid, '%s:%s' % (self.op, tag), '%s: %s' % (self.op, text), self.vf.trace())

    def call(self, S, I, args):
        vs = vslot(self.vf, S, I)
        s = I.short or ''
        if vs or s in ('operator delete', 'operator new', 'operator new[]', 'operator delete[]'):
            n = S.copy(S.q + ((vs[0] if vs else s, vs[1] if vs else args[0], I.id),))
            if not vs and 'new' in s:
                n.env[I.id] = L(('new', I.id))
            return [('ret', n)]
        if s.split('::')[-1] in ('close', 'update_recorded_size') and 'stream_accessor' in s:
            return [('ret', S.copy(S.q + (('closed',),)))]
        return None

    def havoc(self, S, I, args):
        return ()

    def exit(self, S, I, kind, ret):
        if kind != 'ret':
            return
        self.n += 1
        if self.op == 'constructor':
            for k, w in (('open', 0), ('temp', 0), ('dirty', 0), ('data', 0)):
                if const(self.vf.load(S, self.lay.c[k], k)) != w:
                    self.bad('buffer', k, 'a new stream is left with an uninitialised or wrong member (%s)' % k)
        else:
            a = leaf1(ACCP)[0]
            k = [e for e in S.q if e[0] == a or e[0] == 'operator delete' and e[1] == ACCP]
            if len(k) != 1:
                self.bad('buffer', 'accessor', 'the file accessor is deleted %d times' % len(k))
        self.rep.ok('buffer', None)


def life(rep, lay, mod):
    for op in ('constructor', 'destructor'):
        f = one(mod, r'\bw_us_%s\(' % op.replace('uctor', 'uct').replace('destruct', 'destroy'))
        rep.fn(f)
        s = vf.S(())
        if op == 'destructor':
            s.mem[lay.c['acc']] = ACCP
            s.mem[lay.c['open']] = C(0)
            s.facts[('rel', 'e') + (((), ACCP) if repr(()) <= repr(ACCP) else (ACCP, ()))] = frozenset('<>')
        r = Life(rep, lay, op)
        vf.VF(f, r, [s])
        if not r.n:
            r.bad('end', 'forever', 'the %s of streams never comes back' % op)


LEVEL = 'other'
