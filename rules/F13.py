"""What a file of the current format version looks like is fixed."""
import build, vf, S01
from vf import L, C, const, add, mul
from common import load, one
from header import P, RAW, BASE, HDR
from linfacts import LinRule, masklow
from ir import strip_targs
import ir

MAGIC, VERSION = 0x521cbe927dd6056a, 4
SMAGIC, SVERSION = 0xfa340f49edbada67, 1
# offsets in the header of a stream
FMT = (('magic', 0), ('version', 8), ('item size', 16), ('block size', 24), ('size of the user data', 32), ('room for user data', 40), ('size', 48), ('flags', 56), ('place of the last block', 64))
HEAD = 72
CLEAN, COMPRESSED = 1, 2
prod = lambda a, b: ir.linkey(ir._lprod(dict(a), dict(b)))


class St(LinRule):
    """q = (position, events)"""
    facts = []
    fold = ()

    def __init__(self, on_write, on_exit=None):
        self.on_write, self.on_exit = on_write, on_exit

    def call(self, S, I, args):
        s = I.short or ''
        if not s.startswith(P):
            return None
        m = s[len(P):]
        n = S.copy()
        if m == 'seek_i':
            n.q = (args[1],)
        elif m == 'write_i':
            self.on_write(self, n, args[1], args[2], S.q[0])
            n.q = (add(S.q[0], args[2]) if S.q[0] is not None else None,)
        elif m == 'try_open_rw':
            n.env[I.id] = ()
            n.q = ((),)
        elif m.startswith('open'):
            n.q = ((),)
        t = S.copy()
        t.exc = 'io'
        return [('ret', n), ('throw', t)]

    def exit(self, S, I, kind, ret):
        if self.on_exit and kind == 'ret':
            self.on_exit(self, S, ret)


def streams(rep):
    mod = load([build.tu('accessor.cpp')], [r'^(\w+ )*w_(st|by)_\w+\(', r'^unsigned long w_'], preserve=[RAW])
    offs = {}
    for s in mod.structs.values():
        if strip_targs(s['name']) == BASE:
            offs = dict((m['n'], m['o']) for m in s['m'])
    for n in ('m_size', 'm_itemSize', 'm_blockSize', 'm_userDataSize', 'm_maxUserDataSize', 'm_lastBlockReadOffset', 'm_useCompression', 'm_blockItems', 'm_open', 'm_write'):
        if n not in offs:
            raise build.Broken('stream_accessor_base::%s not found' % n)
    THIS = ('arg', 0)
    M = lambda n: L(('init', (THIS, offs[n])))
    A = lambda n: L(('arg', n))
    MAX64 = C(-1)

    def header(what, want, n):
        def w(r, S, data, count, pos):
            rep.ok('header', None)
            if const(pos or ()) != 0 or pos is None:
                if const(count) != 0:
                    rep.fail('header', what + ':place', '%s writes %s bytes at %s' % (what, vf.show(count), 'an unknown place' if pos is None else vf.show(pos)), r.vf.trace())
                return
            k = const(count)
            if k is None or k < HEAD:
                rep.fail('header', what + ':len', '%s writes a header of %s bytes instead of %d' % (what, vf.show(count), HEAD), r.vf.trace())
                return
            lf = [x for x, c in data if c == 1 and x != ()]
            if len(lf) != 1:
                raise build.Broken('what is written as header of a stream is not known')
            o = const(add(data, L(lf[0]), -1)) or 0
            n[0] += 1
            for f, at in FMT:
                v = r.vf.load(S, (lf[0], o + at))
                x = want[f]
                if v != x and not (const(v) is not None and const(x) is not None and (const(v) - const(x)) % 2 ** 64 == 0):
                    rep.fail('header', '%s:%s' % (what, f), '%s writes %s at byte %d of the header, where the %s of a file, %s, belongs' % (what, vf.show(v), at, f, vf.show(x)), r.vf.trace())
        return w
    for pre in ('st', 'by'):
        kind = {'st': 'stream', 'by': 'byte stream'}[pre]
        for comp in (0, 1):
            # open(path, read, write, item, block, user, hint, compression) of a new file
            for rd in (0, 1):
                n = [0]
                want = dict(zip((f for f, _ in FMT), (C(MAGIC), C(VERSION), A(4), A(5), (), A(6), (), C(COMPRESSED * comp), MAX64)))
                f = one(mod, r'\bw_%s_open\(' % pre)
                rep.fn(f)
                s = vf.S(((),))
                s.env[('arg', 2)], s.env[('arg', 3)] = C(rd), C(1)
                s.env[('arg', 8)] = C(comp)
                s.mem[(THIS, offs['m_open'])] = ()

                def opened(r, S, ret):
                    v = r.vf.load(S, (THIS, offs['m_blockItems']))
                    if v != L(('op', 'udiv', A(5), A(4))):
                        rep.fail('place', 'items', 'a block holds %s items' % vf.show(v), r.vf.trace())
                vf.VF(f, St(header('creating a %s' % kind, want, n), opened), [s])
                if not n[0]:
                    rep.fail('header', 'open:none:' + kind, 'creating a %s writes no header' % kind)
            n = [0]
            want = dict(zip((f for f, _ in FMT), (C(MAGIC), C(VERSION), M('m_itemSize'), M('m_blockSize'), M('m_userDataSize'), M('m_maxUserDataSize'), M('m_size'),
                                                  C(CLEAN + COMPRESSED * comp), M('m_lastBlockReadOffset'))))
            f = one(mod, r'\bw_%s_close\(' % pre)
            rep.fn(f)
            s = vf.S((None,))
            for m, v in (('m_open', 1), ('m_write', 1), ('m_useCompression', comp)):
                s.mem[(THIS, offs[m])] = C(v)
            vf.VF(f, St(header('closing a %s' % kind, want, n)), [s])
            if not n[0]:
                rep.fail('header', 'close:none:' + kind, 'closing a %s writes no header' % kind)
    # blocks and user data
    MAXU = M('m_maxUserDataSize')
    where = []

    def blk(r, S, data, count, pos):
        where.append((r, S, pos))
    vf.VF(one(mod, r'\bw_st_write_block\('), St(blk), [vf.S((None,))])
    bs = prod(A(2), M('m_blockSize'))
    for r, S, pos in where:
        rep.ok('place', 'block')
        if pos is None:
            rep.fail('place', 'block', 'a block is written at an unknown place')
            continue
        at = add(pos, bs, -1)
        based(rep, r, S, at, add(MAXU, C(HEAD)), 'block 0 of a stream')
    bytes_ = []

    def byt(r, S, data, count, pos):
        bytes_.append((r, S, pos))
    vf.VF(one(mod, r'\bw_by_write\('), St(byt), [vf.S((None,))])
    for r, S, pos in bytes_:
        rep.ok('place', 'byte')
        based(rep, r, S, add(pos or (), A(1), -1), add(MAXU, C(HEAD)), 'byte 0 of a byte stream')
    user = []

    def usr(r, S, data, count, pos):
        user.append((r, S, pos))
    vf.VF(one(mod, r'\bw_st_write_user\('), St(usr), [vf.S((None,))])
    for r, S, pos in user:
        rep.ok('place', 'user data')
        if pos is None or const(pos) != HEAD:
            rep.fail('place', 'user', 'user data is written at byte %s of the file instead of %d' % (pos is not None and vf.show(pos), HEAD), r.vf.trace())
    if not where or not user or not bytes_:
        raise build.Broken('no writes of blocks or user data')


def based(rep, r, S, at, end, what):
    """at is end rounded up to a multiple of 4096"""
    hi = add(add(end, C(4095)), at, -1)
    lo = add(at, end, -1)
    mult = all(c % 4096 == 0 or (masklow(k) or (0, 1))[1] % 4096 == 0 for k, c in r.norm(S, at))
    if not mult or not r.ge(S, lo) or not r.ge(S, hi):
        rep.fail('place', 'base:' + what, '%s lies at %s instead of at %s rounded up to a multiple of 4096' % (what, vf.show(at), vf.show(end)), r.vf.trace())


class Spy(S01.W):
    """writes of headers"""
    got = ()

    def bad(self, *a):
        pass

    def writing(self, S, I, a, n):
        c = self.hcell(S, a)
        if S.q.at == () and c is not None and self.off(a, S01.BLK) is None:
            self.got.append((const(n), dict((f, self.vf.load(S, (c[0], c[1] + o))) for f, o in S01.HF), self.vf.trace()))
        S01.W.writing(self, S, I, a, n)

    def exit(self, *a):
        pass


class Quiet:
    def __getattr__(self, n):
        return lambda *a, **k: None


def serial(rep):
    mod, envs = S01.layout(rep)
    for pre in ('sw', 'rw'):
        e = envs[pre]
        seen = set()
        got = []
        for op in ('open', 'close'):
            f = one(mod, r'\bw_%s_%s\(' % (pre, op))
            rep.fn(f)
            for c in S01.wcases(e, 0) + S01.wclosing(e):
                p = Spy(Quiet(), e, c, op)
                p.got = got
                p.loop_init(None)
                vf.VF(f, p, [S01.state(e, c)])
        for n, v, tr in got:
            rep.ok('serial', None)
            seen.add(const(v['clean']))
            if (const(v['magic']) or 0) % 2 ** 64 != SMAGIC or const(v['version']) != SVERSION:
                rep.fail('serial', 'id:' + pre, 'a %s identifies its file as %s, %s' % (e.kind, vf.show(v['magic']), vf.show(v['version'])), tr)
            if const(v['reverse']) != int(pre == 'rw'):
                rep.fail('serial', 'reverse:' + pre, 'byte 25 of the header of a %s is %s' % (e.kind, vf.show(v['reverse'])), tr)
            if n is None or not 26 <= n <= 4096:
                rep.fail('serial', 'area:' + pre, 'the header of a %s takes %s bytes' % (e.kind, n), tr)
            t = v['size']
            if const(v['clean']) == 1 and (const(t) is not None or not t):
                rep.fail('serial', 'size:' + pre, 'byte 16 of the header of a %s is %s instead of the size' % (e.kind, vf.show(t)), tr)
        if seen != {0, 1}:
            rep.fail('serial', 'clean:' + pre, 'byte 24 of the header of a %s takes the values %s' % (e.kind, sorted(seen, key=str)))
        rep.ok('serial', None)
        if e.H != 4096:
            rep.fail('serial', 'start:' + pre, 'the data of a %s starts at byte %d' % (e.kind, e.H))
        if pre == 'rw' and e.BS != 2 << 20:
            rep.fail('serial', 'block:' + pre, 'the bytes of a %s are reversed in blocks of %d' % (e.kind, e.BS))


def schemes(rep):
    mod = load([build.tu('scheme.cpp')], [r'\bw_cz_get\('], preserve=[r'tpie::get_compression_scheme_'])
    f = one(mod, r'\bw_cz_get\(')
    rep.fn(f)
    for t, n in ((0, 'none'), (1, 'snappy')):
        got = set()

        class G(vf.Rule):
            def call(self, S, I, args):
                if (I.short or '').startswith('tpie::get_compression_scheme_'):
                    got.add(I.short.rpartition('_')[2])
        s = vf.S(())
        s.env[('arg', 0)] = C(t)
        vf.VF(f, G(), [s])
        rep.ok('scheme')
        if got != {n}:
            rep.fail('scheme', n, 'blocks of scheme number %d are handled by %s instead of %s' % (t, ', '.join(sorted(got)) or 'nothing', n))


def check(rep):
    rep.expl = ('The headers and positions written by the accessors of streams and serialization streams are computed by value flow and compared, byte position by byte position, with the '
                'layout that the magic numbers and version numbers stand for.')
    rep.rule('header', 'each word of the header of a stream is what version 4 has there: magic, version, item size, block size, user data size and maximum, size, flags (1 clean, 2 compressed), last block')
    rep.rule('place', 'user data starts at byte 72, block 0 at the end of the room for it rounded up to 4096, blocks follow each other')
    rep.rule('serial', 'serialization streams have magic, version 1, size, clean and reverse marks in a header of 4096 bytes, followed by the data')
    rep.rule('scheme', 'number 0 stands for uncompressed, 1 for snappy')
    rep.assumptions += ['integers have the byte order of the machine', 'readers accept what writers write (F03, F10, F12, S01)']
    streams(rep)
    serial(rep)
    schemes(rep)
    rep.need('header', 12)
    rep.need('serial', 4)
