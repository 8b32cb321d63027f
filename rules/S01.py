"""Serialization streams as byte sequences, forward and reverse, by induction over the public operations."""
import copy
from collections import namedtuple
import build, vf, induct
from vf import L, C, const, add, mul, leaf1
from common import load, one, throw_type, STD
from linfacts import LinRule, subst_leaf
from F06 import vslot

RAW = 'tpie::file_accessor::posix::'
PRES = [r'tpie::file_accessor::posix::', r'tpie::array<char.*>::resize\(', r'std::(__)?reverse<', r'std::fill<', r'tpie::temp_file::', r'tpie::bits::temp_file_inner::']
NOTHROW = [r'posix::(set_cache_hint|is_open)\(', r'update_recorded_size', r'std::(__)?reverse<', r'std::fill<']
EOS = 'tpie::end_of_stream_exception'
OBJ, BLK, TEMP, SBUF, USER, CNT = L(('obj',)), L(('block',)), L(('temp',)), L(('sbuf',)), L(('arg', 1)), L(('arg', 2))
X, K, M, P, SN, POS0 = (L((n,)) for n in ('X', 'K', 'M', 'P', 'SN', 'pos0'))
HF = (('magic', 0), ('version', 8), ('size', 16), ('clean', 24), ('reverse', 25))

# held: file block in the buffer; rev: buffer turned round; at: file position; fill: bytes of the block that are data;
# nb, tot: blocks and bytes written; done: bytes copied for the caller; io: did something fail; hdr: header last written
Q = namedtuple('Q', 'held rev at fill nb tot done io ev hdr')
Q0 = Q(None, 0, None, (), (), (), (), 0, (), None)


class Case:
    def __init__(self, name, mem, facts, q, pos, **kw):
        self.name, self.mem, self.facts, self.q, self.pos, self.prog = name, mem, list(facts), q, pos, ()
        self.__dict__.update(kw)

    def within(self, facts):
        c = copy.copy(self)
        c.name += ', in the loop'
        c.facts = c.facts + facts
        c.prog = add(c.pos, POS0, -1)
        return c


class Lay:
    def __init__(self, mod, cls, cells):
        self.c = {}
        arr = 'tpie::array'
        e, n = mod.moff(arr, 'm_elements'), mod.moff(arr, 'm_size')
        for k, p in cells.items():
            o = mod.moff(cls, p)
            if o is None:
                raise build.Broken('member %s of %s not found' % (p, cls))
            if k == 'block':
                self.c['data'], self.c['bsize'] = (('obj',), o + e), (('obj',), o + n)
            elif k == 'sb':
                self.c['sb0'], self.c['sb1'] = (('obj',), o), (('obj',), o + 8)
            else:
                self.c[k] = (('obj',), o)
        self.arr = (e, n)


WCELLS = {'nb': 'm_blocksWritten', 'size': 'm_size', 'open': 'm_open', 'temp': 'm_tempFile', 'block': 'm_block', 'index': 'm_index'}
RCELLS = {'open': 'm_open', 'block': 'm_block', 'size': 'm_size', 'index': 'm_index', 'z': 'm_blockSize', 'number': 'm_blockNumber'}


class Base(induct.LoopMixin, LinRule):
    collect = None
    fold = ('K', 'X', 'M')
    signed = (('disk', 'magic'),)

    def __init__(self, rep, env, case, op, spec=None):
        self.rep, self.env, self.case, self.op, self.spec = rep, env, case, op, spec
        self.lay, self.kind, self.BS, self.H = env.lay, env.kind, env.BS, env.H
        self.facts = case.facts
        self.nret = 0

    def bad(self, rid, tag, text):
        self.rep.fail(rid, '%s:%s:%s' % (self.kind, self.op, tag), '%s of a %s (%s): %s' % (self.op, self.kind, self.case.name, text), self.vf.trace())

    def get(self, S, n):
        return self.vf.load(S, self.lay.c[n], n)

    def N(self, S, v):
        return self.norm(S, v)

    def same(self, S, a, b):
        return a is not None and b is not None and self.eq(S, self.N(S, a), self.N(S, b))

    def upd(self, S, **kw):
        S.q = S.q._replace(**kw)
        return S

    def fail(self, S, what):
        t = S.copy()
        self.upd(t, io=1)
        t.exc = what
        return ('throw', t)

    def call(self, S, I, args):
        s = I.short or ''
        m = s.split('::')[-1]
        n = S.copy()
        if s.startswith(RAW):
            if m == 'seek_i':
                self.upd(n, at=args[1])
                return [('ret', n), self.fail(S, 'io')]
            if m in ('open_wo', 'open_ro', 'open_rw_new', 'try_open_rw'):
                self.opening(S, m)
                self.upd(n, at=(), nb=(), tot=(), hdr=None, ev=S.q.ev + (('open', m),))
                return [('ret', n), self.fail(S, 'io')]
            if m in ('close_i', '~posix'):
                self.upd(n, at=None, ev=S.q.ev + (('close',),))
                t = self.fail(n, 'io')
                return [('ret', n), t]
            if m in ('read_i', 'write_i'):
                out = []
                for S2, (a, k) in self.splits(S, args[1:3]):
                    z = S2.copy()
                    (self.reading if m == 'read_i' else self.writing)(z, I, self.N(S2, a), self.N(S2, k))
                    out += [('ret', z), self.fail(S2, 'io')] if m == 'write_i' else [('ret', z), self.readfail(S2)]
                return out
            if m == 'set_cache_hint':
                return [('ret', n)]
            if m == 'is_open':
                return None
            self.bad('place', m, 'uses %s on its file' % m)
            return [('ret', n), self.fail(S, 'io')]
        if s == 'tpie::array::resize':
            c = self.vf.cell(S, I.a[0])
            if c is None:
                raise build.Broken('resize of an unknown array')
            e, z = (c[0], c[1] + self.lay.arr[0]), (c[0], c[1] + self.lay.arr[1])
            t = None
            if const(args[1]) != 0:
                t = self.fail(S, 'std::bad_alloc')
                t[1].mem[e] = t[1].mem[z] = ()
            if e == self.lay.c['data']:
                same = self.vf.load(S, z) == args[1] and self.vf.load(S, e) == BLK
                n.mem[e] = BLK if const(args[1]) != 0 else ()
                if not same:
                    self.upd(n, held=None, rev=0, fill=())
                    if isinstance(self, W) and S.q.fill != () and not self.same(S, S.q.fill, ()):
                        self.bad('flush', 'drop', 'data in the block is dropped')
                    if t:
                        self.upd(t[1], held=None, fill=())
            else:
                n.mem[e] = L(('mem', I.id)) if const(args[1]) != 0 else ()
            n.mem[z] = args[1]
            return [('ret', n)] + ([t] if t else [])
        if s == 'std::reverse':
            return self.reverse(S, n, args)
        if s == 'std::vector::resize':
            c = self.vf.cell(S, I.a[0])
            if c != self.lay.c.get('sb0'):
                return None
            n.mem[c] = SBUF
            n.mem[self.lay.c['sb1']] = add(SBUF, args[1])
            return [('ret', n)] + ([] if const(args[1]) == 0 else [self.fail(S, 'std::bad_alloc')])
        if s == 'std::vector::_M_data_ptr':
            n.env[I.id] = args[1]
            return [('ret', n)]
        if s == 'operator new':
            n.env[I.id] = L(('new', I.id))
            return [('ret', n), self.fail(S, 'std::bad_alloc')]
        if s == 'tpie::temp_file::update_recorded_size':
            self.upd(n, ev=S.q.ev + (('recorded', args[0], args[1]),))
            return [('ret', n)]
        if s == 'tpie::temp_file::path':
            return [('ret', n), self.fail(S, 'io')]
        if s == '__cxa_throw':
            t = S.copy()
            t.exc = throw_type(I) or '?'
            return [('throw', t)]
        vs = vslot(self.vf, S, I)
        if vs:
            return self.virtual(S, I, args, vs)
        return None

    def opening(self, S, m):
        pass

    def readfail(self, S):
        return self.fail(S, 'io')

    def virtual(self, S, I, args, vs):
        raise build.Broken('unexpected virtual call in ' + self.op)

    def hcell(self, S, a):
        lf, off = leaf1(a)
        return None if lf is None else (lf, off)

    def step(self, S, I):
        if I.iscall and (I.short or '').startswith(('llvm.memcpy', 'llvm.memmove')):
            vals = tuple(self.vf.ev(S, x) for x in I.a[:3])
            if not any(dict(v).get(b[0][0]) for v in vals[:2] if v for b in (BLK, USER, SBUF)):
                return None
            out = []
            for S2, (d, s, n) in self.splits(S, vals):
                self.copy(S2, self.N(S2, d), self.N(S2, s), self.N(S2, n))
                out.append(S2)
            return out
        if I.op in ('load', 'store'):
            p = self.vf.ev(S, I.a[0] if I.op == 'load' else I.a[1])
            if p and any(dict(p).get(b[0][0]) for b in (BLK, USER, SBUF)):
                if I.op == 'load':
                    S.env[I.id] = L(('op', 'byte', p))
                    return [S]
                v = self.vf.ev(S, I.a[0])
                out = []
                for S2, (d, v) in self.splits(S, (p, v)):
                    lf, o = leaf1(v)
                    if lf is None or lf[:2] != ('op', 'byte') or o:
                        self.bad('bytes', 'single', 'stores %s in the data' % vf.show(v))
                    else:
                        self.copy(S2, self.N(S2, d), self.N(S2, lf[2]), C(1))
                    out.append(S2)
                return out
        if I.op == 'or':
            a, b = self.vf.ev(S, I.a[0]), const(self.vf.ev(S, I.a[1]))
            if b is not None and b > 0 and const(a) is None and all(c % (1 << b.bit_length()) == 0 for _, c in a):
                S.env[I.id] = add(a, C(b))
                return [S]
        if I.op == 'lshr':
            a, b = self.vf.ev(S, I.a[0]), const(self.vf.ev(S, I.a[1]))
            if b is not None and const(a) is None:
                S.env[I.id] = L(('op', 'udiv', a, C(1 << b)))
                return [S]
        return None

    def off(self, p, base):
        return add(p, base, -1) if dict(p).get(base[0][0]) == 1 else None

    def exit(self, S, I, kind, ret):
        if self.collect is not None:
            self.collect.append((S, kind, ret))
            return
        vals = tuple(S.mem.get(self.lay.c[k], None) or self.get(S, k) for k in self.VALS) + (ret,)
        for S2, vs in self.splits(S, vals):
            self.env.rets += kind == 'ret'
            self.spec(self, S2, kind, vs[-1])

    def at_vals(self, S):
        return tuple(self.get(S, k) for k in self.VALS)

    def at_head(self, S, b, vals):
        self.inv(S)
        g = self.N(S, add(self.pos(S), POS0 if self.tmpl is not None else self.case.pos, -1))
        if not self.same(S, g, S.q.done):
            self.bad('position', 'loop', 'the position is %s after %s bytes' % (vf.show(g), vf.show(S.q.done)))
        if not self.ge(S, g) or not self.ge(S, add(self.total(S), g, -1)):
            self.bad('position', 'range', 'after %s of %s bytes' % (vf.show(g), vf.show(self.total(S))))
        if self.tmpl is not None and b == self.vf.start and not self.ge(S, add(g, self.case.prog, -1), 1):
            self.bad('position', 'stuck', 'goes round the loop without making progress')
        return g

    def start_pos(self):
        return POS0 if self.tmpl is not None else self.case.pos


class W(Base):
    """writers"""
    VALS = ('nb', 'index', 'size')

    def total(self, S):
        return CNT if self.kind == 'serialization_writer' else SN

    def pos(self, S):
        return add(mul(self.get(S, 'nb'), self.BS), self.get(S, 'index'))

    @property
    def reversed(self):
        return self.kind != 'serialization_writer'

    def reverse(self, S, n, args):
        a, b = self.off(args[0], BLK), self.off(args[1], BLK)
        if a != () or b != C(self.BS) or not self.reversed:
            self.bad('bytes', 'reverse', 'turns round bytes %s to %s of the block' % (a and vf.show(a), b and vf.show(b)))
        self.upd(n, rev=1 - S.q.rev)
        return [('ret', n)]

    def opening(self, S, m):
        if m != 'open_wo':
            self.bad('header', m, 'opens the file with ' + m)
        if const(self.get(S, 'open')) != 0 or not self.same(S, S.q.fill, ()):
            self.bad('flush', 'reopen', 'another file is opened before the open one is finished')

    def writing(self, S, I, a, n):
        q = S.q
        o = self.off(a, BLK)
        if o is not None:
            want = add(C(self.H), q.tot)
            if q.fill == () or o != ():
                self.bad('flush', 'what', 'writes bytes of the block from %s although there are %s' % (vf.show(o), vf.show(q.fill)))
            elif not self.same(S, n, q.fill):
                self.bad('flush', 'count', 'writes %s bytes of a block of %s' % (vf.show(n), vf.show(q.fill)))
            if not self.same(S, q.at, want):
                self.bad('flush', 'where', 'writes the block at %s instead of %s' % (q.at is not None and vf.show(q.at), vf.show(want)))
            if not self.same(S, q.tot, mul(q.nb, self.BS)):
                self.bad('flush', 'partial', 'a block follows one that was not full')
            if q.rev != int(self.reversed):
                self.bad('bytes', 'order', 'the block is written in the wrong direction')
            if q.hdr and q.hdr[3] == 1:
                self.bad('header', 'early', 'data is written after the header was marked clean')
            self.upd(S, at=add(q.at or (), n), fill=(), nb=add(q.nb, C(1)), tot=self.N(S, add(q.tot, n)), rev=0, ev=q.ev + (('block',),))
            self.rep.ok('flush', None)
            return
        # a header
        c = self.hcell(S, a)
        if c is None or q.at != ():
            self.bad('header', 'where', 'writes something else than a block at %s' % (q.at is not None and vf.show(q.at)))
            return
        v = dict((f, self.vf.load(S, (c[0], c[1] + o2))) for f, o2 in HF)
        k = const(n)
        if k is None or k < 26 or self.H is not None and k > self.H:
            self.bad('header', 'length', 'writes a header of %s bytes' % vf.show(n))
        clean = const(v['clean'])
        if clean == 1:
            if not self.same(S, q.fill, ()):
                self.bad('flush', 'pending', 'the file is marked clean while data is in the block')
            if not self.same(S, v['size'], q.tot):
                self.bad('header', 'size', 'the header says %s bytes, there are %s' % (vf.show(v['size']), vf.show(q.tot)))
        elif clean != 0:
            self.bad('header', 'clean', 'the clean mark is %s' % vf.show(v['clean']))
        if const(v['reverse']) != int(self.reversed):
            self.bad('header', 'reverse', 'the reverse mark is %s' % vf.show(v['reverse']))
        ids = (const(v['magic']), const(v['version']))
        if None in ids or self.env.ids not in (None, ids):
            self.bad('header', 'magic', 'the header carries %s' % (ids,))
        self.env.ids = ids
        self.upd(S, hdr=(ids[0], ids[1], v['size'], clean), at=add(q.at, n), ev=q.ev + (('header', clean),))
        self.rep.ok('header', None)

    def copy(self, S, d, s, n):
        q = S.q
        od = self.off(d, BLK)
        if od is None:
            o2, us = self.off(d, SBUF), self.off(s, USER)
            if o2 is not None and us is not None and self.op == 'append':
                have = self.case.sn
                if not self.same(S, o2, have) or us != () or not self.same(S, n, CNT):
                    self.bad('bytes', 'append', 'byte %s of the caller becomes byte %s of an item of %s' % (vf.show(us), vf.show(o2), vf.show(have)))
                self.upd(S, done=n)
                self.rep.ok('bytes', None)
                return
            self.bad('bytes', 'direction', 'copies to something else than the block')
            return
        if self.reversed:
            src = self.off(s, SBUF)
            want = add(add(self.total(S), q.done, -1), n, -1)
            at = add(add(C(self.BS), q.fill, -1), n, -1)
        else:
            src, want, at = self.off(s, USER), q.done, q.fill
        if src is None:
            self.bad('bytes', 'source', 'copies from something else than the data')
            return
        if not self.same(S, src, want):
            self.bad('bytes', 'source', 'copies from byte %s instead of %s' % (vf.show(src), vf.show(want)))
        if not self.same(S, od, at):
            self.bad('bytes', 'target', 'copies to byte %s of the block instead of %s' % (vf.show(od), vf.show(at)))
        if not self.ge(S, self.N(S, add(C(self.BS), add(q.fill, n), -1))):
            self.bad('bytes', 'outside', 'copies %s bytes to a block with %s' % (vf.show(n), vf.show(q.fill)))
        if not self.ge(S, self.N(S, add(self.total(S), add(q.done, n), -1))):
            self.bad('bytes', 'beyond', 'copies more than there is')
        if const(self.get(S, 'open')) != 1 or self.get(S, 'data') != BLK:
            self.bad('bytes', 'noblock', 'there is no block')
        self.upd(S, fill=self.N(S, add(q.fill, n)), done=self.N(S, add(q.done, n)))
        self.rep.ok('bytes', None)

    def inv(self, S):
        q = S.q
        op = const(self.get(S, 'open'))
        self.rep.ok('state', None)
        if op == 0:
            if self.get(S, 'index') != ():
                self.bad('state', 'closedindex', 'a closed writer has %s bytes in its block' % vf.show(self.get(S, 'index')))
            return
        if op != 1:
            self.bad('state', 'open', 'it is not known whether the file is open')
            return
        nb, ix, sz = (self.N(S, self.get(S, k)) for k in ('nb', 'index', 'size'))
        if not self.same(S, nb, q.nb) or not self.same(S, sz, q.tot):
            self.bad('state', 'count', '%s blocks of %s bytes counted, %s blocks of %s bytes written' % (vf.show(nb), vf.show(sz), vf.show(q.nb), vf.show(q.tot)))
        if self.get(S, 'data') != BLK:
            # closing it failed; only closing is possible
            if ix != () or self.op in ('write', 'append'):
                self.bad('state', 'noblock', 'an open writer has no block')
            return
        if not self.same(S, ix, q.fill):
            self.bad('state', 'index', 'the block is taken to hold %s bytes, it holds %s' % (vf.show(ix), vf.show(q.fill)))
        if not self.ge(S, ix) or not self.ge(S, add(C(self.BS), ix, -1)):
            self.bad('state', 'range', 'the block holds %s bytes' % vf.show(ix))
        if q.rev and ix != ():
            self.bad('state', 'turned', 'the block stays turned round')
        if not self.same(S, q.tot, mul(q.nb, self.BS)) and self.op in ('write', 'append'):
            self.bad('state', 'partial', 'a partial block was written')
        if not self.same(S, self.get(S, 'bsize'), C(self.BS)):
            self.bad('state', 'bsize', 'the block is allocated with %s bytes' % vf.show(self.get(S, 'bsize')))

    def recorded(self, S):
        if self.case.temp != () and ('block',) in S.q.ev:
            r = [e for e in S.q.ev if e[0] == 'recorded']
            if not r or r[-1][1] != self.case.temp or not self.same(S, r[-1][2], S.q.tot):
                self.bad('recorded', 'size', 'the temporary file is recorded with %s of %s bytes' % (vf.show(r[-1][2]) if r else 'nothing', vf.show(S.q.tot)))
            else:
                self.rep.ok('recorded', None)


def wr_write(r, S, kind, ret):
    g = r.N(S, add(r.pos(S), r.start_pos(), -1))
    if kind == 'ret':
        if not r.same(S, g, r.total(S)) or not r.same(S, S.q.done, r.total(S)):
            r.bad('position', 'after', '%s bytes are taken to be written, %s copied of %s' % (vf.show(g), vf.show(S.q.done), vf.show(r.total(S))))
        if r.reversed and r.get(S, 'sb1') != r.get(S, 'sb0'):
            r.bad('bytes', 'again', 'the bytes of the item stay in the serialization buffer')
    else:
        if not S.q.io:
            r.bad('state', 'other', 'throws %s although no I/O failed' % S.exc)
        if not r.same(S, g, S.q.done):
            r.bad('position', 'fail', '%s bytes are taken to be written, %s copied' % (vf.show(g), vf.show(S.q.done)))
    r.rep.ok('position', None)
    r.inv(S)
    r.recorded(S)


def wr_append(r, S, kind, ret):
    n = add(r.get(S, 'sb1'), r.get(S, 'sb0'), -1)
    want = add(r.case.sn, CNT) if kind == 'ret' else r.case.sn
    if not r.same(S, n, want) or kind == 'ret' and not r.same(S, S.q.done, CNT):
        r.bad('bytes', 'appended', 'the item has %s bytes instead of %s' % (vf.show(n), vf.show(want)))
    r.rep.ok('position', None)
    r.inv(S)


def closed_right(r, S, ev, what):
    """the file was finished: data, then a clean header, then closed"""
    c = r.case
    h = [i for i, e in enumerate(ev) if e == ('header', 1)]
    cl = [i for i, e in enumerate(ev) if e == ('close',)]
    b = [i for i, e in enumerate(ev) if e == ('block',)]
    if c.isopen:
        if not h or not cl or h[-1] > cl[0] or b and b[-1] > h[0] or ('header', 0) in ev[:cl[0]]:
            r.bad('header', 'close', 'the file is not finished by a clean header and closed (%s)' % what)
            return
        r.rep.ok('header', None)
    elif h or b:
        r.bad('header', 'notopen', 'writes to a file that is not open')


def wr_close(r, S, kind, ret):
    if kind == 'ret':
        closed_right(r, S, S.q.ev, 'close')
        if r.op == 'close' and const(r.get(S, 'open')) != 0:
            r.bad('state', 'stillopen', 'the writer is still open')
        if not r.same(S, S.q.tot, r.case.total):
            r.bad('flush', 'lost', '%s of %s bytes are in the file' % (vf.show(S.q.tot), vf.show(r.case.total)))
        r.recorded(S)
    elif not S.q.io:
        r.bad('state', 'other', 'throws %s although no I/O failed' % S.exc)
    if r.op == 'close':
        r.inv(S)


def wr_open(r, S, kind, ret):
    ev = S.q.ev
    o = [i for i, e in enumerate(ev) if e[0] == 'open']
    if kind == 'ret':
        if len(o) != 1:
            r.bad('state', 'opens', 'the file is opened %d times' % len(o))
            return
        closed_right(r, S, ev[:o[0]], 'open')
        if ev[o[0] + 1:] != (('header', 0),) or S.q.hdr is None or S.q.hdr[2] != ():
            r.bad('header', 'fresh', 'a new file does not get an unclean header')
        if const(r.get(S, 'open')) != 1:
            r.bad('state', 'notopen', 'the writer is not open')
        if r.pos(S) != () or r.get(S, 'index') != ():
            r.bad('state', 'fresh', 'a new file starts with %s bytes' % vf.show(r.pos(S)))
        t = r.get(S, 'temp')
        if (t == USER) != (r.op == 'open_temp') or r.op == 'open' and t != ():
            r.bad('recorded', 'which', 'the temporary file is not the given one')
        S = S.copy()
        r.upd(S, nb=(), tot=())
        r.inv(S)
    else:
        if not S.q.io:
            r.bad('state', 'other', 'throws %s although no I/O failed' % S.exc)
        if o and const(r.get(S, 'open')) != 0:
            r.bad('state', 'halfopen', 'the writer counts as open although opening failed')
        if o and ev[-1] != ('close',):
            r.bad('state', 'leak', 'the file stays open although opening failed')
        if not o:
            r.inv2(S)
    r.rep.ok('state', None)


class R(Base):
    """readers"""
    VALS = ('index', 'z', 'number', 'size')

    def total(self, S):
        return CNT

    @property
    def reversed(self):
        return self.kind != 'serialization_reader'

    def pos(self, S):
        z, ix, k, m = (self.get(S, n) for n in ('z', 'index', 'number', 'size'))
        if const(z) == 0:
            return ()
        if not self.reversed:
            return add(mul(k, self.BS), ix)
        return add(add(add(m, mul(k, self.BS), -1), z, -1), ix)

    def virtual(self, S, I, args, vs):
        if vs[0] != ('obj',) or len(args) != 1:
            raise build.Broken('unexpected virtual call')
        sub = copy.copy(self)
        sub.collect = []
        local = {k: v for k, v in S.mem.items() if k[0][:1] == ('alloca',)}
        s = vf.S(S.q, {('arg', 0): args[0]}, {k: v for k, v in S.mem.items() if k not in local}, dict(S.facts), None)
        outer = self.vf
        vf.VF(self.env.next, sub, [s])
        self.vf = outer
        r = []
        for z, kind, v in sub.collect:
            n = vf.S(z.q, dict(S.env), {k: v for k, v in z.mem.items() if k[0][:1] != ('alloca',)}, dict(z.facts), z.exc)
            n.mem.update(local)
            r.append(('ret' if kind == 'ret' else 'throw', n))
        return r

    def readfail(self, S):
        r = self.fail(S, 'io')
        self.upd(r[1], held=None)
        return r

    def reverse(self, S, n, args):
        a, b = self.off(args[0], BLK), self.off(args[1], BLK)
        if a != () or b is None or not self.same(S, b, self.get(S, 'z')) or not self.reversed:
            self.bad('bytes', 'reverse', 'turns round bytes %s to %s of the block' % (a and vf.show(a), b and vf.show(b)))
        self.upd(n, rev=1 - S.q.rev)
        return [('ret', n)]

    def reading(self, S, I, a, n):
        q = S.q
        o = self.off(a, BLK)
        if o is None:
            c = self.hcell(S, a)
            if c is None or q.at != () or const(n) is None or const(n) < 26:
                self.bad('header', 'where', 'reads %s bytes at %s' % (vf.show(n), q.at is not None and vf.show(q.at)))
                return
            self.vf.clobber(S, c[0], c[1], c[1] + const(n), I.id)
            for f, o2 in HF:
                S.mem[(c[0], c[1] + o2)] = L(('disk', f))
            self.upd(S, ev=q.ev + (('header',),), at=n)
            return
        m = self.get(S, 'size')
        if q.at is None:
            self.bad('place', 'unknown', 'reads a block at an unknown position')
            return
        rest = self.N(S, add(q.at, C(-self.H)))
        if any(c % self.BS for _, c in rest):
            self.bad('place', 'where', 'reads a block at %s' % vf.show(q.at))
            return
        k = tuple((x, c // self.BS) for x, c in rest)
        end = add(rest, n)
        if o != () or not self.ge(S, add(C(self.BS), n, -1)):
            self.bad('place', 'outside', 'reads %s bytes to byte %s of the block' % (vf.show(n), vf.show(o)))
        if not self.ge(S, add(m, end, -1)) or not (self.same(S, n, C(self.BS)) or self.same(S, end, m)):
            self.bad('place', 'count', 'reads %s bytes of block %s of a stream of %s' % (vf.show(n), vf.show(k), vf.show(m)))
        self.upd(S, held=k, rev=0, at=add(q.at, n), fill=n)
        self.rep.ok('place', None)

    def copy(self, S, d, s, n):
        q = S.q
        os, od = self.off(s, BLK), self.off(d, USER)
        if os is None or od is None:
            self.bad('bytes', 'direction', 'copies to something else than the caller')
            return
        if q.held is None:
            self.bad('bytes', 'stale', 'uses a block that was not read')
            return
        if q.rev != int(self.reversed):
            self.bad('bytes', 'order', 'the block is used in the wrong direction')
        at = add(mul(q.held, self.BS), os) if not self.reversed else add(add(self.get(S, 'size'), add(mul(q.held, self.BS), q.fill), -1), os)
        pos = self.N(S, add(at, self.start_pos(), -1))
        if not self.same(S, pos, od) or not self.same(S, od, q.done):
            self.bad('bytes', 'which', 'byte %s of the stream becomes byte %s of the caller after %s' % (vf.show(at), vf.show(od), vf.show(q.done)))
        if not self.ge(S, self.N(S, add(q.fill, add(os, n), -1))):
            self.bad('bytes', 'outside', 'copies %s bytes from byte %s of a block of %s' % (vf.show(n), vf.show(os), vf.show(q.fill)))
        if not self.ge(S, self.N(S, add(CNT, add(od, n), -1))):
            self.bad('bytes', 'beyond', 'copies more than was asked for')
        self.upd(S, done=self.N(S, add(q.done, n)))
        self.rep.ok('bytes', None)

    def inv(self, S):
        q = S.q
        z, ix, k, m = (self.N(S, self.get(S, n)) for n in ('z', 'index', 'number', 'size'))
        self.rep.ok('state', None)
        if m != self.N(S, self.case.size):
            self.bad('state', 'size', 'the size changes to %s' % vf.show(m))
        if self.get(S, 'data') != BLK or not self.same(S, self.get(S, 'bsize'), C(self.BS)):
            self.bad('state', 'block', 'the block is not allocated')
        if const(z) == 0:
            ok = ix == () and (k == () if not self.reversed else self.ge(S, add(mul(k, self.BS), m, -1)) and self.ge(S, add(add(m, mul(k, self.BS), -1), C(self.BS - 1))))
            if not ok:
                self.bad('state', 'fresh', 'nothing was read but the reader is in block %s' % vf.show(k))
            return
        end = self.N(S, add(mul(k, self.BS), z))
        if not self.ge(S, k) or not self.ge(S, z, 1) or not self.ge(S, add(C(self.BS), z, -1)) or not self.ge(S, add(m, end, -1)) or not (self.same(S, z, C(self.BS)) or self.same(S, end, m)):
            self.bad('state', 'z', 'block %s of a stream of %s is taken to have %s bytes' % (vf.show(k), vf.show(m), vf.show(z)))
        if not self.ge(S, ix) or not self.ge(S, add(z, ix, -1)):
            self.bad('state', 'index', 'the position within the block is %s of %s' % (vf.show(ix), vf.show(z)))
        if not self.same(S, ix, z):
            if q.held is None or not self.same(S, q.held, k) or not self.same(S, q.fill, z) or q.rev != int(self.reversed):
                self.bad('state', 'held', 'the block is taken for block %s of %s bytes but holds %s' % (vf.show(k), vf.show(z), 'nothing valid' if q.held is None else vf.show(q.held)))


def rd_read(r, S, kind, ret):
    g = r.N(S, add(r.pos(S), r.start_pos(), -1))
    more = add(add(r.start_pos(), CNT), r.case.size, -1)          # bytes asked for beyond the end
    if not r.same(S, g, S.q.done):
        r.bad('position', 'after', 'the position moves by %s when %s bytes are copied' % (vf.show(g), vf.show(S.q.done)))
    if kind == 'ret':
        if not r.same(S, S.q.done, CNT):
            r.bad('bytes', 'count', 'copies %s of %s bytes' % (vf.show(S.q.done), vf.show(CNT)))
        if not r.ge(S, r.N(S, mul(more, -1))):
            r.bad('end', 'missing', 'reads beyond the end')
    elif S.exc == EOS:
        if not r.ge(S, r.N(S, more), 1):
            r.bad('end', 'spurious', 'throws end_of_stream_exception although there are enough bytes')
    elif not S.q.io:
        r.bad('end', 'other', 'throws %s although no I/O failed' % S.exc)
    r.rep.ok('position', None)
    r.inv(S)


def rd_value(r, S, kind, ret):
    c = r.case
    if kind != 'ret':
        r.bad('query', 'throws', 'throws %s' % S.exc)
        return
    r.rep.ok('query', None)
    if r.op == 'can_read':
        t = vf.truth(r.vf, S, ret) if hasattr(vf, 'truth') else None
        for want in (True, False):
            S2 = r.vf.assume(S, ret, want) if const(ret) is None else (S if (const(ret) & 1 == 1) == want else None)
            if S2 is None or r.dead(S2):
                continue
            left = add(c.size, c.pos, -1)
            if not (r.ge(S2, left, 1) if want else r.ge(S2, mul(left, -1))):
                r.bad('query', 'can_read', 'can_read is %s at %s of %s' % (want, vf.show(c.pos), vf.show(c.size)))
        return
    want = {'offset': c.pos, 'size': c.size, 'file_size': add(c.size, C(r.H))}[r.op]
    if not r.same(S, ret, want):
        r.bad('query', 'value', 'gives %s instead of %s' % (vf.show(ret), vf.show(want)))


def rd_open(r, S, kind, ret):
    ev = S.q.ev
    o = [i for i, e in enumerate(ev) if e[0] == 'open']
    want = {'magic': r.env.ids[0], 'version': r.env.ids[1], 'clean': 1, 'reverse': int(r.reversed)}
    r.rep.ok('header', None)
    if kind == 'ret':
        if len(o) != 1 or ev[o[0]] != ('open', 'open_ro') or ('header',) not in ev[o[0]:] or ('close',) in ev[o[0]:]:
            r.bad('state', 'opens', 'the file is not opened once for reading, with its header read')
            return
        if r.case.isopen and ('close',) not in ev[:o[0]]:
            r.bad('state', 'leak', 'the open file is not closed first')
        for f, v in want.items():
            if not r.same(S, L(('disk', f)), C(v)):
                r.bad('header', 'accept', 'a file whose %s is wrong is accepted' % {'clean': 'clean mark', 'reverse': 'direction'}.get(f, f))
        if const(r.get(S, 'open')) != 1:
            r.bad('state', 'notopen', 'the reader is not open')
        if r.get(S, 'size') != L(('disk', 'size')):
            r.bad('state', 'size', 'the size is %s' % vf.show(r.get(S, 'size')))
        if const(r.get(S, 'z')) != 0:
            r.bad('state', 'stale', 'the old block is still taken to be valid')
        r.inv(S)
    else:
        if not S.q.io:
            # is there something wrong with the header?
            z = S
            for f, v in want.items():
                z = z and r.vf.assume(z, L(('op', 'icmp', 'eq', L(('disk', f)), C(v))), True)
            if z is not None and not r.dead(z):
                r.bad('header', 'reject', 'a valid file is rejected with %s' % S.exc)
        if const(r.get(S, 'open')) != 0 and (o or not r.case.isopen):
            r.bad('state', 'halfopen', 'the reader counts as open although opening failed')
        if o and ev[-1] != ('close',):
            r.bad('state', 'leak', 'the file stays open although opening failed')


def rd_close(r, S, kind, ret):
    r.rep.ok('state', None)
    if kind != 'ret' and not S.q.io:
        r.bad('state', 'other', 'throws %s although no I/O failed' % S.exc)
    if const(r.get(S, 'open')) != 0 or (('close',) in S.q.ev) != bool(r.case.isopen):
        r.bad('state', 'close', 'the file is not closed')


class Env:
    def __init__(self, lay, kind):
        self.lay, self.kind, self.BS, self.H, self.ids, self.next = lay, kind, None, None, None, None


def foreign(v):
    return any(k and (k[0] in ('X', 'K', 'M', 'P', '*', 'op', 'init', 'w') or k[0] == 'disk') for k, _ in v)


def wcases(env, temp):
    B = C(env.BS)
    t = TEMP if temp else ()
    base = [add(TEMP, C(-1)), add(BLK, C(-1)), add(USER, C(-1))]
    com = {'open': C(1), 'temp': t, 'data': BLK, 'bsize': B, 'nb': K, 'size': mul(K, env.BS), 'index': X}
    out = []
    q = Q0._replace(nb=K, tot=mul(K, env.BS))

    def mk(name, facts, mem, fill, **kw):
        m = dict(com)
        m.update(mem)
        pos = add(mul(m['nb'], env.BS), m['index'])
        out.append(Case(name, m, base + facts, q._replace(fill=fill, **kw.pop('q', {})), pos, temp=t, isopen=1, **kw))
    tt = ', temporary' if temp else ''
    mk('empty block' + tt, [], {'index': ()}, (), total=mul(K, env.BS))
    mk('block in use' + tt, [add(X, C(-1)), add(add(B, X, -1), C(-1))], {}, X, total=add(mul(K, env.BS), X))
    mk('full block' + tt, [], {'index': B}, B, total=add(mul(K, env.BS), B))
    return out


def wclosing(env):
    B = C(env.BS)
    out = []
    for t in ((), TEMP):
        tot = add(mul(K, env.BS), P)
        out.append(Case('closing failed', {'open': C(1), 'temp': t, 'data': (), 'bsize': (), 'nb': add(K, C(1)), 'size': tot, 'index': ()},
                        [add(P, C(-1)), add(B, P, -1), add(TEMP, C(-1)), add(BLK, C(-1)), add(USER, C(-1))], Q0._replace(nb=add(K, C(1)), tot=tot), tot, temp=t, isopen=1, total=tot))
    out.append(Case('closed', {'open': (), 'temp': (), 'data': (), 'bsize': (), 'nb': K, 'size': M, 'index': ()}, [add(BLK, C(-1)), add(USER, C(-1))], Q0, (), temp=(), isopen=0, total=()))
    out.append(Case('opening failed', {'open': (), 'temp': TEMP, 'data': BLK, 'bsize': B, 'nb': K, 'size': M, 'index': ()}, [add(BLK, C(-1)), add(USER, C(-1)), add(TEMP, C(-1))], Q0, (), temp=(), isopen=0, total=()))
    return out


def rcases(env):
    B = C(env.BS)
    rev = env.kind != 'serialization_reader'
    base = [add(BLK, C(-1)), add(USER, C(-1))]
    com = {'open': C(1), 'data': BLK, 'bsize': B, 'z': (), 'index': (), 'number': ()}
    out = []

    def mk(name, facts, mem, size, pos, held=None, fill=()):
        m = dict(com)
        m.update(mem)
        m['size'] = size
        out.append(Case(name, m, base + facts, Q0._replace(held=held, fill=fill, rev=int(rev and held is not None)), pos, size=size, isopen=1))
    KB = mul(K, env.BS)
    if not rev:
        mk('nothing read', [], {}, M, ())
    else:
        mk('nothing read of an empty stream', [], {}, (), ())
        mk('nothing read', [add(P, C(-1)), add(B, P, -1)], {'number': add(K, C(1))}, add(KB, P), ())
    for last in (0, 1):
        z = P if last else B
        size = add(KB, P) if last else M
        fx = [add(P, C(-1)), add(B, P, -1)] if last else [add(add(M, KB, -1), B, -1)]
        pos = (lambda x: add(KB, x)) if not rev else (lambda x: add(add(add(size, KB, -1), z, -1), x))
        n = 'last block' if last else 'block'
        mk(n, fx + [add(add(z, X, -1), C(-1))], {'z': z, 'number': K, 'index': X}, size, pos(X), K, z)
        mk('behind the ' + n, fx, {'z': z, 'number': K, 'index': z}, size, pos(z), None, ())
    return out


def state(env, c):
    s = vf.S(c.q)
    for k, v in c.mem.items():
        s.mem[env.lay.c[k]] = v
    s.env[('arg', 0)] = OBJ
    return s


class Probe(Base):
    """finds out the size of blocks and of the header area"""
    VALS = ()

    def call(self, S, I, args):
        if I.short == 'tpie::array::resize':
            c = self.vf.cell(S, I.a[0])
            if c and (c[0], c[1] + self.lay.arr[0]) == self.lay.c['data'] and const(args[1]):
                self.env.BS = const(args[1])
            S = S.copy()
            return [('ret', S)]
        if (I.short or '').endswith('seek_i') and const(args[1]):
            self.env.H = const(args[1])
        return None

    def exit(self, *a):
        pass

    def head(self, V, b, S):
        return None

    def step(self, S, I):
        pass


def layout(rep):
    """the four classes, and the constants of their files"""
    mod = load([build.tu('serial.cpp'), build.lib('serialization_stream.cpp')], [r'^(\w+ )*w_(sw|rw|r|rr)_\w+\(', r'serialization_(reverse_)?reader::next_block'],
               preserve=[x for x in STD if 'boost' not in x] + PRES, nothrow=NOTHROW, std=False)
    envs = {}
    for pre, kind, cells in (('sw', 'serialization_writer', WCELLS), ('rw', 'serialization_reverse_writer', dict(WCELLS, sb='m_serializationBuffer')),
                             ('r', 'serialization_reader', RCELLS), ('rr', 'serialization_reverse_reader', RCELLS)):
        env = envs[pre] = Env(Lay(mod, 'tpie::' + kind, cells), kind)
        # the constants
        dummy = Case('probe', {}, [], Q0, ())
        for op in ('open', 'close') if pre in ('sw', 'rw') else ('open',):
            f = one(mod, r'\bw_%s_%s\(' % (pre, op))
            s = vf.S(Q0)
            s.env[('arg', 0)] = OBJ
            if op == 'close':
                s.mem[env.lay.c['nb']] = ()
                s.mem[env.lay.c['index']] = C(1)
            p = Probe(rep, env, dummy, op)
            p.loop_init(None)
            vf.VF(f, p, [s])
        if pre in ('r', 'rr'):
            env.next = one(mod, r'tpie::%s::next_block' % kind)
            s = vf.S(Q0)
            s.env[('arg', 0)] = OBJ
            s.mem[env.lay.c['z']] = ()
            s.mem[env.lay.c['number']] = C(1) if pre == 'rr' else ()
            p = Probe(rep, env, dummy, 'next_block')
            p.loop_init(None)
            vf.VF(env.next, p, [s])
        if not env.BS or not env.H:
            raise build.Broken('size of a block or header of %s not found' % kind)
    return mod, envs


def check(rep):
    rep.expl = ('Every public operation of the four serialization stream classes is followed from every state their representation invariant allows. File positions, block numbers and byte '
                'counts are affine forms over unbounded quantities; each copy between caller, block and file is compared with the byte sequence the stream stands for, loops are cut at their '
                'heads, and the invariant is shown to hold again at every exit, normal or by exception, so the result holds after any sequence of operations.')
    rep.rule('bytes', 'each byte copied between the caller and the block is the next one of the sequence (for reverse streams, in reverse order), and lies inside both')
    rep.rule('flush', 'blocks reach the file in order, complete, exactly once, each where the previous one ends; nothing in a block is dropped')
    rep.rule('header', 'an open file is marked unclean; closing writes the true size and a clean mark after all data; readers accept exactly clean files of their format and direction')
    rep.rule('place', 'readers fetch whole blocks from where they are in the file, and no bytes that do not exist')
    rep.rule('position', 'the position advances by exactly the bytes transferred, also when an operation fails')
    rep.rule('end', 'end_of_stream_exception is thrown exactly when there are not enough bytes left, and nothing else unless I/O failed')
    rep.rule('query', 'can_read, offset, size and file_size agree with position and size')
    rep.rule('state', 'the representation invariant is kept by every operation, also when it fails')
    rep.rule('recorded', 'the size of a temporary file is recorded after each block')
    rep.assumptions = ['the raw file accessor transfers all bytes or throws (F01)', 'sizes stay below 2^63', 'an operation that throws inside a destructor terminates the program',
                       'tpie::array::resize leaves an empty array when it fails']
    n = 0
    mod, envs = layout(rep)
    ref = envs['sw']
    for e in envs.values():
        if e.BS != ref.BS or e.H != ref.H:
            rep.fail('place', 'layout:' + e.kind, 'a %s uses blocks of %d bytes after %d, a %s of %d after %d' % (e.kind, e.BS, e.H, ref.kind, ref.BS, ref.H))

    def run(pre, op, cases, cls, spec, loop=False, extra=None):
        env = envs[pre]
        env.rets = 0
        f = one(mod, r'\bw_%s_%s\(' % (pre, op))
        rep.fn(f)

        def mk(rp, c, tmpl):
            r = cls(rp, env, c, op, spec)
            s = state(env, c)
            if extra:
                extra(env, c, s)
            if tmpl is not None:
                r.upd_done = None
                s.q = s.q._replace(done=c.prog)
            return r, s
        gen = []
        if loop:
            tot = CNT if pre != 'rw' else SN
            for c in cases:
                prog = add(c.pos, POS0, -1)
                gen.append(c.within([prog, add(tot, prog, -1)]))
        k = induct.follow(rep, f, cases, gen, mk, (1, -1, 0), foreign, '%s of %s' % (op, env.kind))
        if env.rets < len(cases) // 2:
            raise build.Broken('%s of %s does not return' % (op, env.kind))
        return k

    def srcbuf(env, c, s):
        s.mem[env.lay.c['sb0']] = SBUF
        s.mem[env.lay.c['sb1']] = add(SBUF, SN)
    for pre in ('sw', 'rw'):
        env = envs[pre]
        if pre == 'sw':
            pass
        op_cases = wcases(env, 0) + wcases(env, 1)
        W.inv2 = W.inv
        for op in ('open', 'open_temp'):
            n += run(pre, op, op_cases + wclosing(env), W, wr_open)
        for op in ('close', 'destroy'):
            n += run(pre, op, op_cases + wclosing(env), W, wr_close)
        if pre == 'sw':
            n += run(pre, 'write', op_cases, W, wr_write, loop=True)
        else:
            n += run(pre, 'write', op_cases, W, wr_write, loop=True, extra=srcbuf)
            zs = []
            for sn in ((), SN):
                for c in op_cases:
                    c = copy.copy(c)
                    c.sn = sn
                    zs.append(c)

            def app(env, c, s):
                s.env[('arg', 0)] = L(('ser',))
                s.mem[(('ser',), 0)] = OBJ
                s.mem[env.lay.c['sb0']] = SBUF
                s.mem[env.lay.c['sb1']] = add(SBUF, c.sn)
            n += run(pre, 'append', zs, W, wr_append, extra=app)
    ids = {envs[p].ids for p in ('sw', 'rw')}
    if len(ids) != 1 or None in ids:
        rep.fail('header', 'ids', 'forward and reverse writers do not write the same format')
    for pre in ('r', 'rr'):
        env = envs[pre]
        env.ids = envs['sw'].ids
        cs = rcases(env)
        n += run(pre, 'read', cs, R, rd_read, loop=True)
        for op in ('can_read', 'offset', 'size', 'file_size'):
            n += run(pre, op, cs, R, rd_value)
        closed = Case('closed', {'open': (), 'data': (), 'bsize': (), 'size': M, 'index': (), 'z': (), 'number': K}, [add(BLK, C(-1)), add(USER, C(-1))], Q0, (), size=M, isopen=0)
        opens = []
        for c in cs + [closed]:
            c = copy.copy(c)
            c.size = L(('disk', 'size'))
            opens.append(c)
        for op in ('open', 'open_temp'):
            n += run(pre, op, opens, R, rd_open)
        n += run(pre, 'close', cs + [closed], R, rd_close)
    rep.ok('state', '%d runs' % n)
    for rule, k in (('bytes', 20), ('flush', 10), ('header', 10), ('place', 4), ('position', 20), ('query', 20)):
        rep.need(rule, k)
