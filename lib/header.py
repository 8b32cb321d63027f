"""Stream accessor open/close followed with the on-disk header as a tracked value."""
import build, vf, flow
from vf import C, L, const, leaf1
from common import load, one

P = 'tpie::file_accessor::posix::'
RAW = r'tpie::file_accessor::posix::(open_ro|open_wo|open_rw_new|try_open_rw|close_i|read_i|write_i|seek_i|truncate_i|file_size_i)'
BASE = 'tpie::file_accessor::stream_accessor_base'
HDR = 'tpie::stream_header_t'
FIELDS = ('magic', 'version', 'itemSize', 'blockSize', 'userDataSize', 'maxUserDataSize', 'size', 'flags', 'lastBlockReadOffset')
MISMATCH = ('magic', 'version', 'itemSize', 'blockSize', 'userData', 'dirty')
INVALID = 'tpie::invalid_file_exception'


class Q:
    """automaton part: file open?, position, events"""


class HeaderRule(vf.Rule):
    """scenario: dict(read, write, exists, mismatch, comp, small)"""

    def __init__(self, mod, f, sc, on_exit, on_write=None):
        self.mod, self.f, self.sc = mod, f, sc
        self.on_exit, self.on_write = on_exit, on_write
        self.hdr = {}
        k = mod.byname.get(HDR)
        if not k:
            raise build.Broken('stream_header_t not found')
        self.size = mod.structs[k]['size']
        for m in mod.structs[k]['m']:
            self.hdr[m['o']] = m['n']
        miss = set(FIELDS) - set(self.hdr.values())
        if miss:
            raise build.Broken('header fields missing: %s' % sorted(miss))

    # q = (raw open, pos, dirty-mark of the last header written, number of writes, written before validation)
    def cond(self, S, pred, a, b, I):
        """which disk values differ from what is expected"""
        for x, y, p in ((a, b, pred), (b, a, vf.SWAP[pred])):
            lf, off = leaf1(x)
            if lf and lf[0] == 'disk' and off == 0:
                n = lf[1]
                mis = self.sc.get('mismatch')
                ly, oy = leaf1(y)
                if n in ('magic', 'version'):
                    if const(y) is not None and p in ('eq', 'ne'):
                        self.consts.setdefault(n, set()).add(const(y))
                        return (mis != n) == (p == 'eq')
                if n in ('itemSize', 'blockSize'):
                    if y == self.expected(n) and p in ('eq', 'ne'):
                        return (mis != n) == (p == 'eq')
                if n == 'userDataSize' and ly == ('disk', 'maxUserDataSize') and oy == 0:
                    bad = mis == 'userData'
                    return {'ugt': bad, 'ule': not bad}.get(p)
                if n == 'maxUserDataSize' and y == L(('arg', self.argno['maxUser'])):
                    small = bool(self.sc.get('small'))
                    return {'ult': small, 'uge': not small}.get(p)
        return None

    def expected(self, n):
        return L(('arg', self.argno[{'itemSize': 'item', 'blockSize': 'block'}[n]]))

    def exc(self, S, I, args):
        if I.short == P + 'close_i':
            S.q = (0,) + S.q[1:]
        return [S]

    def call(self, S, I, args):
        s = I.short or ''
        if not s.startswith(P):
            return None
        m = s[len(P):]
        q = S.q
        r = []

        def ret(q2, val=None):
            n = S.copy(q2)
            if val is not None:
                n.env[I.id] = C(val)
            r.append(('ret', n))
            return n

        def thr(q2=None):
            n = S.copy(q2 or S.q)
            n.exc = 'io'
            r.append(('throw', n))
        if m in ('open_ro', 'open_wo', 'open_rw_new'):
            ret((1, C(0)) + q[2:])
            thr()
        elif m == 'try_open_rw':
            if self.sc.get('exists', 1):
                ret((1, C(0)) + q[2:], 1)
            else:
                ret(q, 0)
            thr()
        elif m == 'close_i':
            ret((0,) + q[1:])
            thr((0,) + q[1:])
        elif m == 'seek_i':
            ret((q[0], args[1]) + q[2:])
            thr()
        elif m == 'read_i':
            lf, off = leaf1(args[1])
            n = ret((q[0], None) + q[2:])
            if lf is not None:
                if const(q[1]) == 0 and const(args[2]) == self.size:
                    for o, name in self.hdr.items():
                        v = L(('disk', name))
                        if name == 'flags':
                            v = C((0 if self.sc.get('mismatch') == 'dirty' else 1) | (2 if self.sc.get('comp') else 0))
                        n.mem[(lf, off + o)] = v
                else:
                    n.q = n.q[:4] + ('?',)
            thr()
        elif m == 'write_i':
            lf, off = leaf1(args[1])
            if const(q[1]) == 0:
                vals = {}
                if lf is not None and const(args[2]) == self.size:
                    for o, name in self.hdr.items():
                        vals[name] = self.vf.load(S, (lf, off + o), name)
                fl = const(vals.get('flags')) if vals.get('flags') is not None else None
                if self.on_write:
                    self.on_write(self, S, I, vals)
                mark = None if fl is None else 'clean' if fl & 1 else 'dirty'
                ret((q[0], None, mark, q[3] + 1 if q[3] < 4 else 4, q[4]))
            else:
                ret((q[0], None, q[2], q[3], q[4] if q[4] else 'data'))
            thr()
        elif m == 'truncate_i':
            ret((q[0], q[1], q[2], q[3], 'trunc'))
            thr()
        else:
            return None
        return r

    def exit(self, S, I, kind, ret):
        self.on_exit(self, S, I, kind)

    # values of members of *this
    def member(self, S, name):
        key = self.mod.byname
        off = self.moff(name)
        return self.vf.load(S, (('arg', 0), off), name)

    def moff(self, name):
        for k, s in self.mod.structs.items():
            from ir import strip_targs
            if strip_targs(s['name']) == BASE:
                for m in s['m']:
                    if m['n'] == name:
                        return m['o']
        raise build.Broken('member %s of stream_accessor_base not found' % name)


def run_open(mod, f, sc, on_exit, on_write=None, consts=None):
    """sc: read, write, exists, mismatch, comp, small, start"""
    r = HeaderRule(mod, f, sc, on_exit, on_write)
    r.consts = consts if consts is not None else {}
    names = [a['n'] for a in f.args]
    if len(names) != 9:
        raise build.Broken('unexpected parameters of ' + f.name)
    r.argno = {'read': 2, 'write': 3, 'item': 4, 'block': 5, 'maxUser': 6, 'comp': 8}
    s = vf.S((0, None, None, 0, ''))
    s.env[('arg', 2)] = C(1 if sc['read'] else 0)
    s.env[('arg', 3)] = C(1 if sc['write'] else 0)
    s.env[('arg', 8)] = C(sc.get('newcomp', 0))
    s.mem[(('arg', 0), r.moff('m_open'))] = C(sc.get('start', 0))
    if sc.get('start'):
        s.q = (1, None, None, 0, '')
        s.mem[(('arg', 0), r.moff('m_write'))] = C(sc.get('oldwrite', 0))
        s.mem[(('arg', 0), r.moff('m_useCompression'))] = C(sc.get('oldcomp', 0))
        s.mem[(('arg', 0), r.moff('m_compressionFlags'))] = C(sc.get('oldcomp', 0))
    v = vf.VF(f, r, [s])
    return v


def run_close(mod, f, write, comp, on_exit, on_write=None, open_=1, cflags=None):
    sc = {}
    r = HeaderRule(mod, f, sc, on_exit, on_write)
    r.consts = {}
    r.argno = {'item': 99, 'block': 99, 'maxUser': 99}
    s = vf.S((1 if open_ else 0, None, None, 0, ''))
    s.mem[(('arg', 0), r.moff('m_open'))] = C(1 if open_ else 0)
    s.mem[(('arg', 0), r.moff('m_write'))] = C(1 if write else 0)
    s.mem[(('arg', 0), r.moff('m_useCompression'))] = C(1 if comp else 0)
    # the flags asked for at open need not match what the file turned out to be
    s.mem[(('arg', 0), r.moff('m_compressionFlags'))] = C(comp if cflags is None else cflags)
    return vf.VF(f, r, [s])


def module():
    return load([build.tu('accessor.cpp')], [r'^(\w+ )?w_(st|by)_(open|close)\('], preserve=[RAW])
