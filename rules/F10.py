"""Reads look where writes put the data; header, user data and blocks do not overlap."""
import build, vf, header
from vf import L, C, const, add, mul, leaf1
from common import load, one
from header import P, RAW, BASE, HDR
from ir import strip_targs


class Acc(vf.Rule):
    def __init__(self, mod, f, scen, on_exit):
        self.mod, self.f, self.scen, self.on_exit = mod, f, scen, on_exit

    def cond(self, S, pred, a, b, I):
        for D, rel in self.scen:
            r = vf.decide_rel(D, rel, pred, a, b)
            if r is not None:
                return r
        return None

    def call(self, S, I, args):
        s = I.short or ''
        if not s.startswith(P):
            return None
        m = s[len(P):]
        pos, ev = S.q
        n = S.copy()
        if m == 'seek_i':
            n.q = (args[1], ev)
        elif m in ('read_i', 'write_i'):
            n.q = (None, ev + ((m, pos, args[1], args[2]),)) if len(ev) < 4 else S.q
        elif m == 'truncate_i':
            n.q = (pos, ev + ((m, None, None, args[1]),))
        elif m == 'file_size_i':
            n.env[I.id] = L(('fsize',))
        else:
            n.q = (pos, ev + ((m, None, None, None),))
        t = S.copy()
        t.exc = 'io'
        return [('ret', n), ('throw', t)]

    def exit(self, S, I, kind, ret):
        if kind == 'ret':
            self.on_exit(self, S, I, ret)


def check(rep):
    rep.expl = ('The file positions and lengths handed to the raw file are computed as affine forms over the arguments and members by value flow through the '
                'accessor methods, and compared with each other: reading and writing the same block or byte use the same position.')
    rep.rule('block', 'write_block(b, n) writes n items at location(b); read_block(b, n) reads the items of the block that exist from location(b) and returns their number; '
             'truncate(i) cuts the file at the location of item i')
    rep.rule('size', 'write_block grows the size to the end of what it wrote and never shrinks it; truncate sets it')
    rep.rule('layout', 'location(b) is a base plus b times the block size; the base lies behind header and maximum user data; user data is written and read right behind the header and never beyond its maximum')
    rep.rule('bytes', 'byte n of a byte stream is written, read, appended and truncated at base + n; reads are limited to what the file holds')
    rep.assumptions = ['the raw file operations behave as checked by F02', 'callers pass at most one block of items']
    mod = load([build.tu('accessor.cpp')], [r'^(\w+ )*w_(st|by)_\w+\(', r'^unsigned long w_'], preserve=[RAW])
    k = mod.byname.get(HDR)
    hsize = mod.structs[k]['size']
    offs = {}
    for kk, s in mod.structs.items():
        if strip_targs(s['name']) == BASE:
            offs = {m['n']: m['o'] for m in s['m']}
    if 'm_size' not in offs:
        raise build.Broken('stream_accessor_base layout not found')

    def M(n):
        return L(('init', (('arg', 0), offs[n])))

    def A(n):
        return L(('arg', n))

    def runf(name, scen, on_exit):
        f = one(mod, r'\b%s\(' % name)
        rep.fn(f)
        cnt = [0]

        def oe(r, S, I, ret):
            cnt[0] += 1
            on_exit(r, S, I, ret)
        vf.VF(f, Acc(mod, f, scen, oe), [vf.S((None, ()))])
        if not cnt[0]:
            raise build.Broken('no normal exit of ' + name)
        return f

    def io(S, kind):
        return [e for e in S.q[1] if e[0] == kind]

    # ---- blocks: arguments (this, data, block, count)
    off = vf.mul(M('m_blockItems'), 1)
    import ir
    prod = lambda a, b: ir.linkey(ir._lprod(dict(a), dict(b)))
    first = prod(A(2), M('m_blockItems'))
    end = add(first, A(3))
    D = add(end, M('m_size'), -1)
    loc = {}
    for rel in '<=>':
        def wr(r, S, I, ret):
            ws = io(S, 'write_i')
            rep.ok('block', 'write_block, end %s size' % rel)
            if len(ws) != 1 or len(S.q[1]) != 1:
                rep.fail('block', 'write:n', 'write_block performs %d file operations' % len(S.q[1]), r.vf.trace())
                return
            _, pos, data, n = ws[0]
            if data != A(1) or n != prod(A(3), M('m_itemSize')):
                rep.fail('block', 'write:len', 'write_block writes %s bytes from %s' % (vf.show(n), vf.show(data)), r.vf.trace())
            loc.setdefault('w', pos)
            if loc['w'] != pos:
                rep.fail('block', 'write:pos', 'write_block uses different locations')
            ns = r.vf.load(S, (('arg', 0), offs['m_size']))
            want = [end] if rel == '>' else [M('m_size')] if rel == '<' else [end, M('m_size')]
            rep.ok('size')
            if ns not in want:
                rep.fail('size', 'write:' + rel, 'after writing up to an item %s the size, the size becomes %s' % ({'<': 'before', '=': 'at', '>': 'behind'}[rel], vf.show(ns)), r.vf.trace())
        runf('w_st_write_block', [(D, rel)], wr)
    if not loc.get('w'):
        rep.fail('block', 'write:none', 'write_block does not position the file before writing')
        return
    for rel in '<=>':
        def rd(r, S, I, ret):
            rs = io(S, 'read_i')
            rep.ok('block', 'read_block, end %s size' % rel)
            if len(rs) != 1 or len(S.q[1]) != 1:
                rep.fail('block', 'read:n', 'read_block performs %d file operations' % len(S.q[1]), r.vf.trace())
                return
            _, pos, data, n = rs[0]
            if pos != loc['w']:
                rep.fail('block', 'read:pos', 'read_block reads at %s, write_block writes at %s' % (vf.show(pos), vf.show(loc['w'])), r.vf.trace())
            full, rest = A(3), add(M('m_size'), first, -1)
            want = [full] if rel == '<' else [rest] if rel == '>' else [full, rest]
            if data != A(1) or n not in [prod(w, M('m_itemSize')) for w in want]:
                rep.fail('block', 'read:len:' + rel, 'read_block reads %s bytes (end of the request %s the size)' % (vf.show(n), rel), r.vf.trace())
            if ret not in want:
                rep.fail('block', 'read:ret:' + rel, 'read_block returns %s (end of the request %s the size)' % (vf.show(ret), rel), r.vf.trace())
        runf('w_st_read_block', [(D, rel)], rd)

    # ---- layout
    bs = prod(A(2), M('m_blockSize'))
    base = add(loc['w'], bs, -1)
    rep.ok('layout', 'location(b) = %s' % vf.show(loc['w']))
    if ('arg', 2) in vf.leaves(base) or ('arg', 3) in vf.leaves(base):
        rep.fail('layout', 'linear', 'the location of block b is %s: consecutive blocks are not one block size apart' % vf.show(loc['w']))
    lo, gran = vf.alignlow(base)
    slack = const(add(add(lo, M('m_maxUserDataSize'), -1), C(hsize), -1))
    rep.ok('layout', 'first block at >= %s (granularity %d)' % (vf.show(lo), gran))
    if slack is None or slack < 0:
        rep.fail('layout', 'base', 'the first block may start before the end of header and user data: base is %s' % vf.show(base))

    # ---- truncate(this, items)
    def trunc(r, S, I, ret):
        ts = [e for e in S.q[1] if e[0] == 'truncate_i']
        rep.ok('block', 'truncate')
        q = L(('op', 'udiv', A(1), M('m_blockItems')))
        m1 = L(('op', 'urem', A(1), M('m_blockItems')))
        m2 = add(A(1), prod(q, M('m_blockItems')), -1)
        head = add(base, prod(q, M('m_blockSize')))
        want = [add(head, prod(m, M('m_itemSize'))) for m in (m1, m2)]
        if len(ts) != 1 or len(S.q[1]) != 1:
            rep.fail('block', 'trunc:n', 'truncate performs %d file operations' % len(S.q[1]), r.vf.trace())
        elif norm(ts[0][3]) not in [norm(w) for w in want]:
            rep.fail('block', 'trunc:pos', 'truncate cuts the file at %s, the item is located at %s' % (vf.show(ts[0][3]), vf.show(want[0])), r.vf.trace())
        ns = r.vf.load(S, (('arg', 0), offs['m_size']))
        rep.ok('size', 'truncate')
        if ns != A(1):
            rep.fail('size', 'trunc', 'truncate sets the size to %s' % vf.show(ns), r.vf.trace())

    def norm(v):
        # x % m and x - (x/m)*m are the same number
        r = v
        for leaf, c in v:
            ls = leaf[1:] if leaf[0] == '*' else (leaf,)
            for l in ls:
                if l[:2] == ('op', 'urem'):
                    others = [x for x in ls if x is not l]
                    q = L(('op', 'udiv', l[2], l[3]))
                    e = add(l[2], prod(q, l[3]), -1)
                    t = C(1)
                    for o in others:
                        t = prod(t, L(o))
                    r = add(add(r, mul(L(leaf), c), -1), mul(prod(e, t), c))
        return r
    runf('w_st_truncate', [], trunc)

    # ---- user data: (this, data, count)
    upos = {}
    for rel in '<=>':
        D2 = add(A(2), M('m_maxUserDataSize'), -1)
        f = one(mod, r'\bw_st_write_user\(')

        def uw(r, S, I, ret):
            if rel == '>':
                rep.fail('layout', 'user:over', 'more user data than there is room for is accepted', r.vf.trace())
                return
            ws = io(S, 'write_i')
            for _, pos, data, n in ws:
                upos.setdefault('w', pos)
                if pos != upos['w'] or data != A(1) or n != A(2):
                    rep.fail('layout', 'user:write', 'user data is written as %s bytes at %s' % (vf.show(n), vf.show(pos)), r.vf.trace())
            ns = r.vf.load(S, (('arg', 0), offs['m_userDataSize']))
            if ns != A(2) and not (const(ns) == 0 and not ws):
                rep.fail('layout', 'user:size', 'the user data size becomes %s' % vf.show(ns), r.vf.trace())
        vf.VF(f, Acc(mod, f, [(D2, rel)], uw), [vf.S((None, ()))])
        rep.ok('layout', 'user data write, %s maximum' % rel)
    if const(upos.get('w', ())) is None or const(upos['w']) < hsize:
        rep.fail('layout', 'user:pos', 'user data is written at %s, the header takes %d bytes' % (vf.show(upos.get('w')), hsize))
    elif slack is not None and slack < const(upos['w']) - hsize:
        rep.fail('layout', 'user:room', 'user data of maximum size overlaps the first block')
    for rel in '<=>':
        D3 = add(A(2), M('m_userDataSize'), -1)

        def ur(r, S, I, ret):
            want = [A(2)] if rel == '<' else [M('m_userDataSize')] if rel == '>' else [A(2), M('m_userDataSize')]
            if ret not in want and not (const(ret) == 0 and not io(S, 'read_i')):
                rep.fail('layout', 'user:readret', 'read_user_data returns %s' % vf.show(ret), r.vf.trace())
            for _, pos, data, n in io(S, 'read_i'):
                if pos != upos.get('w') or data != A(1) or n not in want:
                    rep.fail('layout', 'user:read', 'user data is read as %s bytes at %s, written at %s' % (vf.show(n), vf.show(pos), vf.show(upos.get('w'))), r.vf.trace())
        runf('w_st_read_user', [(D3, rel)], ur)
        rep.ok('layout', 'user data read, %s stored size' % rel)

    # ---- byte streams: write(this, off, data, n), append(this, data, n), read(this, off, data, n), truncate(this, n), size(this)
    F = L(('fsize',))
    bb = {}

    def bw(r, S, I, ret):
        ws = io(S, 'write_i')
        if len(ws) != 1 or len(S.q[1]) != 1 or ws[0][2:] != (A(2), A(3)):
            rep.fail('bytes', 'write', 'write does not write exactly the given bytes once', r.vf.trace())
            return
        bb['w'] = add(ws[0][1] or (), A(1), -1)
        rep.ok('bytes', 'write at %s' % vf.show(ws[0][1]))
    runf('w_by_write', [], bw)
    b0 = bb.get('w')
    if b0 is None or ('arg', 1) in vf.leaves(b0):
        rep.fail('bytes', 'base', 'byte n is not written at base + n')
        return
    lo, gran = vf.alignlow(b0)
    sl = const(add(add(lo, M('m_maxUserDataSize'), -1), C(hsize), -1))
    rep.ok('bytes', 'base')
    if sl is None or sl < 0:
        rep.fail('bytes', 'overlap', 'byte 0 is located at %s, inside header or user data' % vf.show(b0))

    def bt(r, S, I, ret):
        rep.ok('bytes', 'truncate')
        ts = [e for e in S.q[1] if e[0] == 'truncate_i']
        if len(ts) != 1 or ts[0][3] != add(b0, A(1)):
            rep.fail('bytes', 'trunc', 'truncate_bytes(n) cuts the file at %s' % (vf.show(ts[0][3]) if ts else 'nothing'), r.vf.trace())
    runf('w_by_truncate', [], bt)
    DF = add(F, b0, -1)
    for rel in '<=>':
        def bs_(r, S, I, ret):
            rep.ok('bytes', 'file_size')
            want = [C(0)] if rel == '<' else [DF] if rel == '>' else [C(0), DF]
            if ret not in want:
                rep.fail('bytes', 'size:' + rel, 'file_size() is %s for a file %s the base' % (vf.show(ret), {'<': 'shorter than', '=': 'as long as', '>': 'longer than'}[rel]), r.vf.trace())
        runf('w_by_size', [(DF, rel)], bs_)

        def ba(r, S, I, ret):
            rep.ok('bytes', 'append')
            ws = io(S, 'write_i')
            want = [b0] if rel == '<' else [F] if rel == '>' else [b0, F]
            if len(ws) != 1 or ws[0][1] not in want or ws[0][2:] != (A(1), A(2)):
                rep.fail('bytes', 'append:' + rel, 'append writes at %s for a file %s the base' % (vf.show(ws[0][1]) if ws else 'nowhere', rel), r.vf.trace())
        runf('w_by_append', [(DF, rel)], ba)
        sz = C(0) if rel == '<' else DF
        for rel2 in '<=>':
            scen = [(DF, rel)] + [(add(add(A(1), A(3)), z, -1), rel2) for z in ([C(0), DF] if rel == '=' else [sz])]

            def br(r, S, I, ret):
                rep.ok('bytes', 'read')
                zs = [C(0), DF] if rel == '=' else [sz]
                want = ([A(3)] if rel2 != '>' else []) + ([add(z, A(1), -1) for z in zs] if rel2 != '<' else [])
                rs = io(S, 'read_i')
                if len(rs) != 1 or rs[0][1] != add(b0, A(1)) or rs[0][2] != A(2) or rs[0][3] not in want or ret not in want:
                    rep.fail('bytes', 'read:%s%s' % (rel, rel2), 'read(n) of a byte stream reads %s bytes at %s, returns %s' % (
                        vf.show(rs[0][3]) if rs else 'no', vf.show(rs[0][1]) if rs else '?', vf.show(ret)), r.vf.trace())
            if rel == '<' and rel2 != '>':
                continue
            runf('w_by_read', scen, br)
    rep.need('block', 7)
    rep.need('bytes', 10)


LEVEL = 'other'
