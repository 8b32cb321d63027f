"""Compressed blocks: what the compressor thread puts into the file, and where, is what it looks for when it reads."""
import build, vf
from vf import L, C, const, add, mul, leaf1
from common import load, one
from linfacts import LinRule
from F06 import vslot

BSA = 'tpie::file_accessor::'
PRES = [r'byte_stream_accessor<.*>::', r'stream_accessor_base<.*>::', r'tpie::temp_file::', r'tpie::get_compression_scheme\(', r'tpie::increment_user', r'tpie::stat_timer',
        r'tpie::get_memory_manager', r'tpie::resource_manager', r'tpie::memory_manager']
ME, REQ, BUF, STORE, RESP, ACC = ('me',), ('req',), ('buf',), ('store',), ('resp',), L(('acc',))
R, SIZE, CAP, BNO, WOFF, FS, CLEN, ULEN = (L((x,)) for x in ('R', 'SIZE', 'CAP', 'BNO', 'WOFF', 'FSIZE', 'CLEN', 'ULEN'))
MAXBITS = (1 << 24) - 1
ALL1 = C(-1)


# ---------------------------------------------------------------- bits of a form
def bits(v, width, n=64):
    """value as n bits: 0, 1, (leaf, bit), or None where unknown.  width(leaf): number of bits that may be set"""
    out = [0] * n
    for k, c in v:
        if k == ():
            c %= 1 << n
            b = [(c >> i) & 1 for i in range(n)]
        else:
            b = leafbits(k, width, n)
            if c == -1 or c <= 0 or c & (c - 1):
                return [None] * n
            s = c.bit_length() - 1
            b = ([0] * s + b)[:n]
        for i in range(n):
            if out[i] == 0:
                out[i] = b[i]
            elif b[i] != 0:
                return out[:i] + [None] * (n - i)
    return out


def leafbits(k, width, n):
    if k[0] == 'op' and k[1] in ('and', 'or', 'xor'):
        a, b = bits(k[2], width, n), bits(k[3], width, n)
        o = []
        for x, y in zip(a, b):
            if k[1] == 'and':
                o.append(0 if x == 0 or y == 0 else y if x == 1 else x if y == 1 or x == y else None)
            elif k[1] == 'or':
                o.append(1 if x == 1 or y == 1 else y if x == 0 else x if y == 0 or x == y else None)
            else:
                o.append(y if x == 0 else x if y == 0 else 0 if x == y and x is not None else None)
        return o
    if k[0] == 'op' and k[1] == 'udiv':
        c = const(k[3])
        if c and c > 0 and not c & (c - 1):
            s = c.bit_length() - 1
            return bits(k[2], width, n)[s:] + [0] * s
    if k[0] == 'op' and k[1] == 'urem':
        c = const(k[3])
        if c and c > 0 and not c & (c - 1):
            s = c.bit_length() - 1
            return bits(k[2], width, n)[:s] + [0] * (n - s)
    w = width(k)
    return [(k, i) if i < w else 0 for i in range(n)]


def upd(q, **kw):
    d = dict(q)
    d.update(kw)
    return tuple(sorted(d.items(), key=lambda x: x[0]))


class Rq(LinRule):
    facts = []

    def __init__(self, rep, mod, f, name, back=None):
        self.rep, self.mod, self.f, self.name, self.back = rep, mod, f, name, back
        self.facts = [add(CAP, ()), add(SIZE, ()), ]
        self.nret = 0

    def q(self, S, k):
        return dict(S.q).get(k)

    def bad(self, rid, tag, text):
        self.rep.fail(rid, '%s:%s' % (self.name, tag), '%s: %s' % (self.name, text), self.vf.trace())

    def cell(self, n):
        return self.cells[n]

    def width(self, k):
        if k == ('CLEN',):
            return 24
        if k[0] == 'at' or k[0] == 'pref':
            return 32
        return 64

    # -------------------------------------------------- memory that was read, or will be written
    def region(self, S, a):
        """(base, offset) if a is inside a scratch block"""
        lf = [(k, c) for k, c in a if k and k[0] in ('heap',) and c == 1]
        if len(lf) != 1:
            return None
        return lf[0][0], add(a, L(lf[0][0]), -1)

    def step(self, S, I):
        if I.op == 'trunc' and I.d.get('t') in ('i8', 'i16'):
            v = self.vf.ev(S, I.a[0])
            if const(v) is None:
                S.env[I.id] = L(('op', 'and', C(255 if I.d['t'] == 'i8' else 65535), v))
                return [S]
        if I.op == 'load':
            a = self.vf.ev(S, I.a[0])
            if self.region(S, a) and I.d.get('t') not in ('i8',):
                S.env[I.id] = self.memval(S, a)
                return [S]
        if I.op == 'store':
            a = self.vf.ev(S, I.a[1])
            if self.region(S, a):
                S.q = upd(S.q, puts=self.q(S, 'puts') + ((a, self.vf.ev(S, I.a[0]), self.vf._bits(I.a[0])),))
                return [S]
        if I.iscall and (I.short or '').startswith(('llvm.memcpy', 'memcpy')):
            d, s, n = (self.vf.ev(S, x) for x in I.a[:3])
            rd, rs = self.region(S, d), self.region(S, s)
            if const(n) == 4 and (rd or rs):
                v = self.memval(S, s) if rs else self.vf.load(S, (leaf1(s)[0], leaf1(s)[1]))
                if rd:
                    S.q = upd(S.q, puts=self.q(S, 'puts') + ((d, v, 32),))
                else:
                    lf, o = leaf1(d)
                    S.mem[(lf, o)] = v
                return [S]
        return None

    def memval(self, S, a):
        for p, v, w in reversed(self.q(S, 'puts')):
            if p == a:
                return v
        pos = self.filepos(S, a)
        return L(('at', pos)) if pos is not None else L(('junk', a))

    def filepos(self, S, a):
        """place in the file of the byte that was read to address a"""
        r = self.region(S, a)
        for off, ptr, n in reversed(self.q(S, 'reads')):
            p = self.region(S, ptr)
            if r and p and r[0] == p[0]:
                return add(add(off, a), ptr, -1)
        return None

    def assume_throw(self, S, t):
        e = S.copy()
        e.exc = t
        return ('throw', e)

    def call(self, S, I, args):
        s = I.short or ''
        m = s.rpartition('::')[2]

        def ret(v=None, **kw):
            n = S.copy(upd(S.q, **kw))
            if v is not None:
                n.env[I.id] = v
            return [('ret', n)]
        if s.startswith(('std::__shared_ptr', 'std::shared_ptr')):
            if m in ('operator->', 'operator*', 'get', 'operator bool'):
                lf, o = leaf1(args[0])
                return ret(self.vf.load(S, (lf, o)))
            if m in ('shared_ptr', '__shared_ptr', 'operator=') and len(args) == 2:
                n = S.copy()
                lf, o = leaf1(args[0])
                sl, so = leaf1(args[1])
                if (lf, o) != (None, None):
                    n.mem[(lf, o)] = self.vf.load(S, (sl, so))
                if I.id is not None:
                    n.env[I.id] = args[0]
                return [('ret', n)]
            return ret()
        if s.startswith('llvm.') and 'umax' not in s and 'umin' not in s:
            return None
        if s in ('operator new[]', 'operator new', 'malloc'):
            p = L(('heap', I.id))
            r = ret(p, alloc=self.q(S, 'alloc') + ((('heap', I.id), args[0]),))
            return r + [self.assume_throw(S, 'std::bad_alloc')]
        if s.startswith(BSA):
            return self.file(S, I, args, m, ret)
        if s == 'tpie::get_compression_scheme':
            return ret(L(('scheme', args[0])))
        if s.startswith('tpie::temp_file::') and m == 'update_recorded_size':
            return ret(recorded=self.q(S, 'recorded') + (args[1],))
        vs = vslot(self.vf, S, I) if I.d.get('cv') is not None else None
        if vs is not None and vs[0][0] == 'scheme':
            return self.scheme(S, I, args, vs[0][1], self.slots.get(vs[1]), ret)
        if s == 'tpie::get_memory_manager':
            return ret(L(('mm',)))
        if s.startswith(('tpie::stat_timer', 'tpie::increment_user', 'tpie::memory_manager', 'tpie::resource_manager', 'std::mutex', 'std::condition_variable', 'std::unique_lock', 'operator delete')):
            out = ret()
            if 'register_' in s and 'register_deallocation' not in s:
                out.append(self.assume_throw(S, 'tpie::out_of_memory_error'))
            return out
        return None

    def throws(self, I):
        s = I.short or ''
        return not s.startswith(('std::mutex', 'std::condition', 'std::unique_lock', 'std::shared', 'std::__shared', 'tpie::stat_timer', 'tpie::increment', 'operator delete')) and LinRule.throws(self, I)

    def checked(self, S):
        """the last read returned as much as it was asked for"""
        p = self.q(S, 'unchecked')
        if p is not None and self.vf.compare(S, 'eq', p[0], p[1]) is not True:
            self.bad('short', 'read', 'goes on although fewer bytes than asked for may have been read')

    def file(self, S, I, args, m, ret):
        q = dict(S.q)
        io = [self.assume_throw(S, 'tpie::io_exception')]
        if m == 'get_compressed':
            return ret(C(self.comp))
        if m == 'get_compression_flags':
            return ret(L(('flags',)))
        if args and args[0] != ACC:
            self.bad('place', 'file', 'uses another file than that of the request')
        if m == 'file_size':
            return ret(q['fs']) + io
        if m == 'read':
            off, ptr, n = args[1:4]
            self.checked(S)
            r = self.region(S, ptr)
            if r:
                for lf, sz in q['alloc']:
                    if lf == r[0]:
                        self.rep.ok('bounds')
                        if not self.ge(S, add(add(sz, n, -1), r[1], -1)):
                            self.bad('bounds', 'read', '%s bytes are read to place %s of a block of %s' % (vf.show(n), vf.show(r[1]), vf.show(sz)))
            got = L(('nread', I.id))
            x = ret(got, reads=q['reads'] + ((off, ptr, n),), unchecked=(got, n) if self.comp else None)
            if not r:
                lf, o = leaf1(ptr)
                if lf is not None and lf[0] == 'alloca':
                    x[0][1].mem[(lf, o)] = L(('at', off))
            return x + io
        if m == 'write':
            return ret(writes=q['writes'] + (tuple(args[1:4]),), fs=L(('fsafter',))) + io
        if m == 'append':
            return ret(appends=q['appends'] + ((args[1], args[2], q['fs']),), fs=add(q['fs'], args[2])) + io
        if m in ('truncate_bytes', 'truncate'):
            return ret(cuts=q['cuts'] + (args[1],), fs=args[1]) + io
        return None

    def scheme(self, S, I, args, t, name, ret):
        io = [self.assume_throw(S, 'tpie::stream_exception')]
        q = dict(S.q)
        if name == 'max_compressed_length':
            return ret(L(('MAXLEN', args[1], t)))
        if name == 'compress':
            dest, src, n, psz = args[1:5]
            x = ret(compress=q['compress'] + ((t, dest, src, n),))
            lf, o = leaf1(psz)
            x[0][1].mem[(lf, o)] = CLEN
            return x
        if name == 'uncompressed_length':
            return ret(ULEN, ulen=q['ulen'] + ((t, args[1], args[2]),)) + io
        if name == 'uncompress':
            self.checked(S)
            self.rep.ok('bounds')
            if not self.ge(S, add(CAP, ULEN, -1)):
                self.bad('bounds', 'uncompress', 'uncompresses %s bytes into a buffer that may be smaller' % vf.show(ULEN))
            return ret(uncompress=q['uncompress'] + ((t, args[1], args[2], args[3]),)) + io
        return None

    # -------------------------------------------------- what has to hold at the end
    def get(self, S, n):
        return self.vf.load(S, self.cells[n])

    def eq_(self, S, a, b):
        return a == b or self.vf.compare(S, 'eq', a, b) is True or LinRule.eq(self, S, a, b)

    def exit(self, S, I, kind, ret):
        if kind != 'ret':
            return
        self.nret += 1
        (self.read_exit if self.back is not None else self.write_exit)(S, dict(S.q))

    def read_exit(self, S, q):
        rep = self.rep
        if not self.comp:
            rep.ok('plain')
            if q['reads'] != ((R, L(STORE), SIZE),):
                self.bad('plain', 'read', 'an uncompressed block is read as %s' % '; '.join('%s bytes at %s' % (vf.show(n), vf.show(o)) for o, p, n in q['reads']))
            if self.get(S, 'bsize') != SIZE:
                self.bad('plain', 'size', 'the buffer ends up with %s bytes' % vf.show(self.get(S, 'bsize')))
            return
        self.checked(S)
        if len(q['uncompress']) != 1:
            self.bad('frame', 'times', 'the block is uncompressed %d times' % len(q['uncompress']))
            return
        t, dst, src, n = q['uncompress'][0]
        rep.ok('frame')
        if dst != L(STORE):
            self.bad('frame', 'dest', 'the block is not uncompressed to the start of the buffer')
        # which header the size was taken from
        nb = bits(n, self.width)
        hdrs = {x[0] for x in nb[:24] if isinstance(x, tuple)}
        if len(hdrs) != 1 or nb != [(list(hdrs)[0], i) for i in range(24)] + [0] * 40 or list(hdrs)[0][0] != 'at':
            self.bad('bits', 'size', 'the size of the compressed data is %s instead of the low 24 bits of a header' % vf.show(n))
            return
        h = list(hdrs)[0]
        start = add(R, add(C(8), n), -1) if self.back else R
        pos = {'first': start, 'last': add(add(start, n), C(4))}
        rep.ok('place')
        if h[1] != pos['last' if self.back else 'first']:
            self.bad('place', 'size', 'the size of a block %s %s is taken from the bytes at %s' % ('before' if self.back else 'at', vf.show(R), vf.show(h[1])))
        f = self.filepos(S, src)
        if f != add(start, C(4)):
            self.bad('place', 'data', 'the data of a block %s %s is taken from %s' % ('before' if self.back else 'at', vf.show(R), vf.show(f)))
        a, b = L(('at', pos['first'])), L(('at', pos['last']))
        rep.ok('both')
        if self.vf.compare(S, 'eq', a, b) is not True:
            self.bad('both', 'trailer', 'the header and the trailer of the block are not compared')
        tb = bits(t, self.width)
        if tb != [(x, 24 + i) for x in ([h] if tb[0] is None else [tb[0][0]] if isinstance(tb[0], tuple) else [h]) for i in range(8)] + [0] * 56 or tb[0][0] not in (leaf1(a)[0], leaf1(b)[0]):
            self.bad('bits', 'scheme', 'the scheme is %s instead of the high 8 bits of the header' % vf.show(t))
        for x in q['ulen']:
            if x != (t, src, n):
                self.bad('frame', 'length', 'the uncompressed size is asked for other data')
        if not q['ulen']:
            self.bad('frame', 'nolength', 'the uncompressed size is not asked for')
        rep.ok('report', n=5)
        whole = add(n, C(8))
        for k, want, what in (('bsize', ULEN, 'number of bytes in the buffer'), ('bblock', whole, 'size in the file'), ('bread', start, 'place in the file'),
                              ('next', start if self.back else add(start, whole), 'place of the next block')):
            v = self.get(S, k)
            if not self.eq_(S, v, want):
                self.bad('report', k, 'the %s of the block is reported as %s instead of %s' % (what, vf.show(v), vf.show(want)))

    def write_exit(self, S, q):
        rep = self.rep
        temp = self.temp
        if not self.comp:
            rep.ok('plain')
            if q['writes'] != ((WOFF, L(STORE), SIZE),) or q['appends'] or q['cuts']:
                self.bad('plain', 'write', 'an uncompressed block is written as %s' % '; '.join('%s bytes at %s' % (vf.show(n), vf.show(o)) for o, p, n in q['writes']))
            rep.ok('recorded')
            if q['recorded'] != ((L(('fsafter',)),) if temp else ()):
                self.bad('recorded', 'plain', 'the recorded size becomes %s' % ', '.join(map(vf.show, q['recorded'])))
            return
        if len(q['compress']) != 1 or len(q['appends']) != 1 or q['writes']:
            self.bad('frame', 'times', 'a block is compressed %d times and appended %d times' % (len(q['compress']), len(q['appends'])))
            return
        t, dst, src, n = q['compress'][0]
        ptr, count, at = q['appends'][0]
        rep.ok('frame')
        if src != L(STORE) or n != SIZE:
            self.bad('frame', 'source', '%s bytes from %s are compressed instead of the contents of the buffer' % (vf.show(n), vf.show(src)))
        if dst != add(ptr, C(4)) or count != add(CLEN, C(8)):
            self.bad('frame', 'where', 'compressed data of %s bytes at %s is appended as %s bytes from %s' % (vf.show(CLEN), vf.show(dst), vf.show(count), vf.show(ptr)))
        vals = {}
        for p, v, w in q['puts']:
            d = add(p, ptr, -1)
            vals[d] = (v, w)
        rep.ok('both')
        h, tr = vals.get(()), vals.get(add(CLEN, C(4)))
        if h is None or tr is None or h != tr or h[1] != 32:
            self.bad('both', 'write', 'the data is not enclosed in two equal headers (%s and %s)' % tuple('none' if x is None else vf.show(x[0]) for x in (h, tr)))
            return
        rep.ok('bits', n=2)
        ml = L(('MAXLEN', SIZE, t))
        if not self.ge(S, add(C(MAXBITS), ml, -1)):
            self.bad('bits', 'big', 'the compressed size may not fit into the header')
        b = bits(h[0], self.width)
        tb = bits(t, self.width)
        if b[:24] != [(('CLEN',), i) for i in range(24)]:
            self.bad('bits', 'size', 'the header holds %s instead of the compressed size' % vf.show(h[0]))
        if b[24:32] != tb[:8] or None in tb[:8]:
            self.bad('bits', 'scheme', 'the header holds %s, which is not scheme %s' % (vf.show(h[0]), vf.show(t)))
        for lf, sz in q['alloc']:
            r = self.region(S, ptr)
            if r and lf == r[0]:
                rep.ok('bounds')
                if not self.ge(S, add(add(sz, ml, -1), C(-8))) or r[1]:
                    self.bad('bounds', 'write', 'a block of %s bytes is allocated for up to %s' % (vf.show(sz), vf.show(add(ml, C(8)))))
        rep.ok('place')
        if q['cuts'] != (() if self.append else (WOFF,)) or at != (FS if self.append else WOFF):
            self.bad('place', 'append', 'a block %s is put at %s after cutting the file at %s' % ('to be appended' if self.append else 'to be put at ' + vf.show(WOFF), vf.show(at), ', '.join(map(vf.show, q['cuts'])) or 'no place'))
        start, whole = at, add(CLEN, C(8))
        rep.ok('report', n=4)
        for k, want, what in (('bblock', whole, 'size in the file'), ('bread', start, 'place in the file')):
            if not self.eq_(S, self.get(S, k), want):
                self.bad('report', k, 'the %s of the block written is recorded with the buffer as %s instead of %s' % (what, vf.show(self.get(S, k)), vf.show(want)))
        old = L(('OLDNO',))
        got = tuple(self.get(S, k) for k in ('rno', 'rread', 'rblock'))
        if got != (BNO, start, whole):
            late = self.vf.compare(S, 'ult', BNO, old) is True and self.vf.compare(S, 'ne', old, ALL1) is True
            if not late or got != (old, L(('OLDREAD',)), L(('OLDBLOCK',))):
                self.bad('report', 'info', 'the block written is told to the stream to be block %s at %s with %s bytes' % tuple(map(vf.show, got)))
        rep.ok('recorded')
        if [x for x in q['recorded'] if not self.eq_(S, x, add(start, whole))] or len(q['recorded']) != (1 if temp else 0):
            self.bad('recorded', 'comp', 'the recorded size becomes %s' % ', '.join(map(vf.show, q['recorded'])))


Q0 = upd((), alloc=(), reads=(), writes=(), appends=(), cuts=(), compress=(), uncompress=(), ulen=(), puts=(), recorded=(), unchecked=None, fs=FS)


def reqfn(mod, kind):
    """the function of the compressor thread that carries out a request"""
    fs = [f for f in mod.functions if any(k and k.endswith(kind + 'E') for k in f.argkeys) and f.short.startswith('tpie::compressor_thread::')]
    # helpers are inlined into it
    fs = [f for f in fs if len(f.argkeys) == 2 and any(True for _ in f.calls(r'get_compression_scheme')) or len(fs) == 1]
    if len(fs) != 1:
        raise build.Broken('%d functions carry out a %s' % (len(fs), kind))
    return fs[0]


def moff(mod, cls, p):
    o = mod.moff(cls, p)
    if o is None:
        raise build.Broken('%s::%s not found' % (cls, p))
    return o


def requests(rep):
    mod = load([build.lib('compressed/%s.cpp' % x) for x in ('thread', 'request')], [r'^tpie::compressor_thread::impl::\w*\(.*(read|write)_request ?[&*]'], preserve=PRES)
    el, sz = moff(mod, 'tpie::array', 'm_elements'), moff(mod, 'tpie::array', 'm_size')
    B = 'tpie::compressor_buffer'
    st = moff(mod, B, 'm_storage')
    cells = {'bsize': (BUF, moff(mod, B, 'm_size')), 'bblock': (BUF, moff(mod, B, 'm_blockSize')), 'bread': (BUF, moff(mod, B, 'm_readOffset')), 'bel': (BUF, st + el), 'bcap': (BUF, st + sz)}
    P = 'tpie::compressor_response'
    for k, n in (('next', 'm_nextReadOffset'), ('rno', 'm_blockNumber'), ('rread', 'm_readOffset'), ('rblock', 'm_blockSize')):
        cells[k] = (RESP, moff(mod, P, n))
    slots = scheme_slots()
    fr, fw = reqfn(mod, 'read_request'), reqfn(mod, 'write_request')
    for f in (fr, fw):
        rep.fn(f)
    common = {cells['bsize']: SIZE, cells['bel']: L(STORE), cells['bcap']: CAP, cells['rno']: L(('OLDNO',)), cells['rread']: L(('OLDREAD',)), cells['rblock']: L(('OLDBLOCK',))}

    def go(f, r, mem, facts):
        s = vf.S(Q0)
        for k, key in enumerate(f.argkeys):
            s.env[('arg', k)] = L(ME) if key.endswith('implE') else L(REQ) if key.endswith('_requestE') else L(('arg', k))
        s.mem.update(common)
        s.mem.update(mem)
        r.facts = list(facts)
        r.cells, r.slots = cells, slots
        vf.VF(f, r, [s])
        if not r.nret:
            r.vf = None
            rep.fail('frame', r.name + ':never', '%s is never completed' % r.name)
    K = 'tpie::read_request'
    for comp in (0, 1):
        for back in (0, 1) if comp else (0,):
            r = Rq(rep, mod, fr, 'reading a block ' + ('backward' if back else 'forward') if comp else 'reading an uncompressed block', back)
            r.comp = comp
            mem = {(REQ, moff(mod, K, 'm_response')): L(RESP), (REQ, moff(mod, K, 'm_buffer')): L(BUF), (REQ, moff(mod, K, 'm_fileAccessor')): ACC, (REQ, moff(mod, K, 'm_readOffset')): R,
                   (REQ, moff(mod, K, 'm_readDirection')): C(DIR['backward' if back else 'forward'])}
            go(fr, r, mem, [])
    K = 'tpie::write_request'
    for comp in (0, 1):
        for temp in (0, 1):
            for app in (0, 1) if comp else (0,):
                r = Rq(rep, mod, fw, ('appending' if app else 'rewriting') + ' a block' if comp else 'writing an uncompressed block')
                r.comp, r.temp, r.append = comp, temp, app
                mem = {(REQ, moff(mod, K, 'm_response')): L(RESP), (REQ, moff(mod, K, 'm_buffer')): L(BUF), (REQ, moff(mod, K, 'm_fileAccessor')): ACC,
                       (REQ, moff(mod, K, 'm_writeOffset')): ALL1 if app else WOFF, (REQ, moff(mod, K, 'm_tempFile')): L(('temp',)) if temp else (), (REQ, moff(mod, K, 'm_blockNumber')): BNO}
                go(fw, r, mem, [add(L(('temp',)), C(-1)), add(C(1 << 63), WOFF, -1)])


DIR = {'forward': 0, 'backward': 1}


def scheme_slots():
    """slots of the virtual functions of compression_scheme"""
    mod = load([build.tu('scheme.cpp')], [r'\bw_cz_\w+\('], preserve=[r'tpie::get_compression_scheme_'])
    r = {}
    for n in ('max_compressed_length', 'compress', 'uncompressed_length', 'uncompress'):
        got = set()

        class Rr(vf.Rule):
            def call(self, S, I, args):
                s = vslot(self.vf, S, I)
                if s:
                    got.add(s[1])
        vf.VF(one(mod, r'\bw_cz_%s\(' % n), Rr(), [vf.S(())])
        if len(got) != 1:
            raise build.Broken('%s is not a virtual call' % n)
        r[got.pop()] = n
    got = []

    class E(vf.Rule):
        def exit(self, S, I, kind, ret):
            got.append(const(ret))
    for n in ('forward', 'backward'):
        del got[:]
        vf.VF(one(mod, r'\bw_cz_dir_%s\(' % n), E(), [vf.S(())])
        DIR[n] = got[0]
    return r


def schemes(rep):
    mod = load([build.tu('scheme.cpp')], [r'\bw_cz_\w+\('], preserve=[r'tpie::get_compression_scheme_'])
    f = one(mod, r'\bw_cz_get\(')
    rep.fn(f)
    for t, n in ((0, 'none'), (1, 'snappy')):
        got = set()

        class G(vf.Rule):
            def call(self, S, I, args):
                if (I.short or '').startswith('tpie::get_compression_scheme_'):
                    got.add(I.short.rpartition('_')[2])
        s = vf.S(())
        s.env[('arg', 0)] = C(t)
        vf.VF(f, G(), [s])
        rep.ok('scheme')
        if got != {n}:
            rep.fail('scheme', 'map:' + n, 'blocks of scheme %s (%d) are handled by %s' % (n, t, ', '.join(sorted(got)) or 'nothing'))
    # the schemes themselves: arguments in the right places
    A = lambda i: L(('arg', i))
    want = {'none': {'compress': ('memcpy', (A(1), A(2), A(3)), A(3)), 'uncompress': ('memcpy', (A(1), A(2), A(3)), None), 'max_compressed_length': ('ret', A(1), None), 'uncompressed_length': ('ret', A(2), None)},
            'snappy': {'compress': ('snappy::RawCompress', (A(2), A(3), A(1), A(4)), None), 'uncompress': ('snappy::RawUncompress', (A(2), A(3), A(1)), None),
                       'max_compressed_length': ('snappy::MaxCompressedLength', (A(1),), 'same'), 'uncompressed_length': ('snappy::GetUncompressedLength', (A(1), A(2), None), None)}}
    for sch, fns in want.items():
        m = load([build.lib('compressed/scheme_%s.cpp' % sch)], [r'compression_scheme_impl::(max_compressed_length|compress|uncompressed_length|uncompress)\('], preserve=[r'snappy::', r'tpie::stat_timer'])
        for n, (what, args, extra) in fns.items():
            f = one(m, r'compression_scheme_impl::%s\(' % n)
            rep.fn(f)
            seen = []

            class Z(vf.Rule):
                def call(self, S, I, a):
                    s = I.short or ''
                    if s.startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')):
                        seen.append(('memcpy', tuple(a[:3])))
                    elif s.startswith('snappy::'):
                        seen.append((s, tuple(a)))
                        n_ = S.copy()
                        n_.env[I.id] = L(('snappy',))
                        if s.endswith('GetUncompressedLength'):
                            lf, o = leaf1(a[2])
                            n_.mem[(lf, o)] = L(('UL',))
                        return [('ret', n_)]

                def step(self, S, I):
                    if I.iscall and (I.short or '').startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')):
                        a = [self.vf.ev(S, x) for x in I.a]
                        seen.append(('memcpy', tuple(a[:3])))
                    return None

                def exit(self, S, I, kind, ret):
                    if kind == 'ret':
                        exits.append((S, ret, self.vf))
            exits = []
            vf.VF(f, Z(), [vf.S(())])
            rep.ok('scheme')
            name = '%s of scheme %s' % (n, sch)
            ok = True
            for S, r, V in exits:
                if what == 'ret':
                    ok &= r == args
                if extra == 'same':
                    ok &= r == L(('snappy',))
                if sch == 'none' and n == 'compress':
                    ok &= V.load(S, (('arg', 4), 0)) == A(3)
                if n == 'uncompressed_length' and sch == 'snappy':
                    ok &= r == L(('UL',)) and V.compare(S, 'ne', L(('snappy',)), ()) is not False
            if what != 'ret':
                c = set(x for x in seen if x[0] == what)
                ok &= len(c) == 1 and all(w is None or w == g for x in c for w, g in zip(args, x[1]))
            if not exits or not ok:
                rep.fail('scheme', '%s:%s' % (sch, n), '%s does not do what it has to with its arguments (%s)' % (name, ', '.join('%s(%s)' % (k, ', '.join(map(vf.show, a))) for k, a in seen)))


def check(rep):
    rep.expl = ('The two functions in which the compressor thread carries out requests are followed on every path with symbolic request, file size, block header and sizes; '
                'headers are compared bit by bit; what is put into the file when writing is what is looked for when reading.')
    rep.rule('frame', 'a compressed block is the compressed contents of the buffer, between two headers, and exactly that is uncompressed into the buffer')
    rep.rule('bits', 'the header holds the compressed size in its low 24 bits, which must suffice, and the scheme used in its high 8 bits, and both are taken from there')
    rep.rule('both', 'header and trailer are the same when written and are compared when read')
    rep.rule('place', 'blocks are put at the end of the file, after cutting it where the request says so, and are read forward from, or backward to, the place of the request')
    rep.rule('short', 'reads that return too little are not used')
    rep.rule('bounds', 'nothing is read or uncompressed beyond the memory that is there for it')
    rep.rule('report', 'place, size and number of the block and the place of the next one are reported as they are')
    rep.rule('plain', 'an uncompressed block is read and written at the place of the request with the size of the buffer')
    rep.rule('recorded', 'the recorded size of a temporary file becomes the size of the file')
    rep.rule('scheme', 'each scheme number stands for the same scheme in both directions, and schemes process the data they are given')
    rep.assumptions += ['snappy produces at most MaxCompressedLength bytes and uncompresses what it compressed.', 'The byte accessor of the file is as F10 checks it.']
    schemes(rep)
    requests(rep)
    for r, n in (('frame', 4), ('bits', 2), ('both', 4), ('report', 10), ('scheme', 10), ('bounds', 4)):
        rep.need(r, n)


LEVEL = 'other'
