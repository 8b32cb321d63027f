"""file_stream: positions, sizes, block buffers and the bookkeeping shared with the compressor thread, by induction over the public operations.

The compressor thread is represented by its contract: requests of a stream are processed in order, a write request for a
block stores the number of items given and reports where the block was put, a read request fills the buffer.  Block numbers
are enumerated relative to one another (same block, next block, anything further), so that every offset has the form
block * items per block + index."""
import copy
import itertools
from collections import namedtuple
import build, vf
from vf import L, C, const, add, mul, leaf1
from common import load, one, throw_type
from linfacts import LinRule, prod, isform

ITEM = 24
PRES = [r'^tpie::compressed_stream_base::close\(', r'^tpie::stream_buffers::', r'^tpie::compressor_thread(_lock)?::', r'^tpie::compressor_response::', r'^tpie::compressor_request::',
        r'^tpie::temp_file::', r'byte_stream_accessor<.*>::', r'stream_accessor_base<.*>::', r'^tpie::the_compressor_thread', r'^tpie::get_block_size']
NOTHROW = [r'^tpie::stream_buffers::', r'^tpie::compressor_thread(_lock)?::', r'^tpie::compressor_response::', r'^tpie::compressor_request::', r'^tpie::the_compressor_thread', r'^std::(__)?shared_ptr',
           r'byte_stream_accessor<.*>::', r'stream_accessor_base<.*>::', r'^tpie::temp_file::', r'^tpie::get_block_size', r'^tpie::compressed_stream_base::(close|seek)\(']
EOS = 'tpie::end_of_stream_exception'
SEX = 'tpie::stream_exception'
BS, BSZ = L(('BS',)), None
PAD = L(('PAD',))
BSZ = add(mul(BS, ITEM), PAD)
THIS, PI, ACCP, TEMP, RESP, POS = ('this',), ('pimpl',), None, L(('temp',)), None, ('argp',)
SIGNED = ('arg', 7)
MAX = C(-1)
NONE, BEG, END, POSN = C(0), C(1), C(2), C(3)

BASE = {'cr': 'm_cachedReads', 'cw': 'm_cachedWrites', 'size': 'm_size', 'ss': 'm_seekState', 'off': 'm_offset', 'begin': 'm_bufferBegin', 'end': 'm_bufferEnd', 'next': 'm_nextItem', 'p': 'm_p'}
PIM = {'dirty': 'm_bufferDirty', 'bs': 'm_blockItems', 'bsz': 'm_blockSize', 'open': 'm_open', 'is': 'm_itemSize', 'owned': 'm_ownedTempFile', 'temp': 'm_tempFile', 'acc': 'm_byteStreamAccessor',
       'bufs': 'm_buffers', 'buf': 'm_buffer', 'nsb': 'm_streamBlocks', 'lbro': 'm_lastBlockReadOffset', 'cfs': 'm_currentFileSize', 'resp': 'm_response', 'uro': 'm_updateReadOffsetFromWrite',
       'lwb': 'm_lastWriteBlockNumber', 'ro': 'm_readOffset', 'np': 'm_nextPosition', 'nro': 'm_nextReadOffset', 'o': 'm_o', 'rd': 'm_canRead', 'wr': 'm_canWrite'}
BUF = {'el': None, 'bsize': 'm_size', 'bstate': 'm_state', 'bro': 'm_readOffset', 'bbs': 'm_blockSize'}

G = namedtuple('G', 'acc ev bufs n pend cached rb fe rd rew unsaved lost want clean done last nro lock')


def OFF(k, ver=0):
    return () if const(k) == 0 and not ver else L(('op', 'OFF1' if ver else 'OFF', k))


def nxt(k):
    return add(k, C(1))


class Lay:
    def __init__(self, mod):
        def off(s, m):
            o = mod.moff(s, m)
            if o is None:
                raise build.Broken('member %s of %s not found' % (m, s))
            return o
        self.c = {k: (THIS, off('tpie::compressed_stream_base', m)) for k, m in BASE.items()}
        self.c.update({k: (PI, off('tpie::compressed_stream_base_p', m)) for k, m in PIM.items()})
        self.b = {k: 0 if m is None else off('tpie::compressor_buffer', m) for k, m in BUF.items()}
        a, b = off('tpie::stream_position', 'm_readOffset'), off('tpie::stream_position', 'm_offset')
        self.pos = (a, b)
        self.acc = add(L(PI), C(self.c['acc'][1]))
        self.resp = add(L(PI), C(self.c['resp'][1]))
        n = self.c.pop('np')
        self.c['nro_'], self.c['noff'] = (PI, n[1] + a), (PI, n[1] + b)


class Case:
    def __init__(self, **kw):
        self.__dict__.update(kw)


def weak(vars_):
    """weak orderings: dicts var -> rank (dense)"""
    seen = set()
    for r in itertools.product(range(len(vars_)), repeat=len(vars_)):
        d = sorted(set(r))
        t = tuple(d.index(x) for x in r)
        if t not in seen:
            seen.add(t)
            yield dict(zip(vars_, t))


def place(vars_, adj):
    """forms for block variables: every ordering, first block zero or not; `adj`: pairs whose being neighbours matters.  'E' (if there) directly follows 'T'"""
    for w in weak(vars_):
        if 'E' in w and 'T' in w and w['E'] != w['T'] + 1:
            continue
        n = max(w.values()) + 1
        opts = []
        for i in range(n):
            names = {v for v in w if w[v] == i}
            prev = {v for v in w if w[v] == i - 1}
            if i == 0:
                opts.append((0, 1))
            elif 'E' in names:
                opts.append((0,))
            elif any(a in prev and b in names or a in names and b in prev for a, b in adj):
                opts.append((0, 2))
            else:
                opts.append((1,))
        for o in itertools.product(*opts):
            cur, lv = None, []
            for i, x in enumerate(o):
                if i == 0:
                    cur = C(0) if not x else add(C(1), L(('B',)))
                else:
                    cur = add(cur, C(1)) if x == 0 else add(add(cur, C(x)), L(('G%d' % i,)))
                lv.append(cur)
            yield {v: lv[w[v]] for v in w}, w


def lt(a, b):
    return add(add(b, a, -1), C(-1))


def le(a, b):
    return add(b, a, -1)


def cases(comp, need_arg, temp, caches=True):
    """every state of an open stream that the representation invariant allows.  T: last block (with items), E: the block after it"""
    out = []
    X, PM, I, AI = L(('X',)), L(('PM',)), L(('I',)), L(('AI',))
    for empty in (0, 1):
        for hk in ('none', 'K', 'new'):            # no buffer, a block of the file, the block after the last one
            for ss in (NONE, BEG, END, POSN):
                if hk == 'none' and ss == NONE or not comp and ss in (BEG, END):
                    continue
                vs = ([] if empty else ['T']) + ['E'] + (['K'] if hk == 'K' else []) + (['J'] if ss == POSN else []) + (['A'] if need_arg else [])
                if hk == 'K' and empty:
                    continue
                for f, w in place(vs, {('K', 'T')}):
                    if empty and const(f['E']) != 0 or any(w[v] > w['E'] for v in w):
                        continue
                    if hk == 'K' and w['K'] == w['E']:
                        continue
                    out += shapes(comp, need_arg, temp, empty, hk, ss, f, w, X, PM, I, AI, caches)
    return out


def shapes(comp, need_arg, temp, empty, hk, ss, f, w, X, PM, I, AI, caches):
    out = []
    T, E = f.get('T'), f['E']
    base0 = [add(BS, C(-1)), add(C(ITEM - 1), PAD, -1)]
    # items in the last block; 'new' blocks may hold items that are not in the file
    for full in ((1,) if empty else (0, 1)):
        if hk == 'new' and not full:
            continue
        for fresh in ((0, 1, 2) if hk == 'new' else (0,)):      # items in the new block: none, some, all
            base = list(base0)
            nsb = E
            if empty:
                M = ()
            elif full:
                M = prod(E, BS)
            else:
                M = add(prod(T, BS), PM)
                base += [add(PM, C(-1)), lt(PM, BS)]
            held = None
            if hk == 'K':
                held = f['K']
                valid = BS if full or w['K'] < w['T'] else PM
                dirties = (0,) if comp and w['K'] < w['T'] else (0, 1)
            elif hk == 'new':
                held = E
                valid = [(), PM, BS][fresh]
                if fresh == 1:
                    base += [add(PM, C(-1)), lt(PM, BS)]
                M = add(M, valid)
                dirties = (1,) if fresh else (0,)
            else:
                dirties = (0,)
                valid = None
            lastk = held is not None and (hk == 'new' or w['K'] == w['T'])
            for dirty in dirties:
                xs = [None] if held is None else [()] + ([(X)] if valid != () else []) + ([valid] if valid != () else [])
                for x in xs:
                    b2 = list(base)
                    if x == X:
                        b2 += [add(X, C(-1)), lt(X, valid)]
                    if ss == END and held is not None and lastk:
                        continue
                    O = add(prod(held, BS), x) if held is not None else L(('O0',))
                    # where a pending position is
                    poss = [None]
                    if ss == POSN:
                        poss = places(f, w, 'J', I, empty, full, M, PM, E, hk, fresh, dirty and lastk and hk == 'K')
                    args = [None]
                    if need_arg:
                        args = places(f, w, 'A', AI, empty, full, M, PM, E, hk, fresh, dirty and lastk and hk == 'K')
                    for pj in poss:
                        for pa in args:
                            b3 = list(b2)
                            mem = {}
                            name = []
                            if held is None:
                                name.append('no block')
                            else:
                                name.append('%s%sblock of %s, at %s' % ('dirty ' if dirty else '', 'new ' if hk == 'new' else 'last ' if lastk else '', vf.show(M), vf.show(O)))
                            if ss == POSN:
                                jp, jf, jb = pj
                                b3 += jf
                                mem['noff'], mem['nro_'] = jp, OFF(jb) if comp else ()
                                name.append('seeking to %s' % vf.show(jp))
                            elif ss != NONE:
                                name.append({BEG: 'seeking to the beginning', END: 'seeking to the end'}[ss])
                            ap = ab = None
                            if need_arg:
                                ap, af, ab = pa
                                b3 += af
                                name.append('argument %s' % vf.show(ap))
                            if pj and pa and pj[2] == pa[2] and pj[1] and pa[1]:
                                # two positions in the same block: both orders
                                variants = [[le(pj[0], pa[0])], [lt(pa[0], pj[0])]]
                            else:
                                variants = [[]]
                            if held is not None and pa and pa[2] == held and x == X and pa[1]:
                                variants = [v + z for v in variants for z in ([le(ap, O)], [lt(O, ap)])]
                            pos = {NONE: O, BEG: (), END: M, POSN: mem.get('noff')}[ss]
                            cv = [(0, 0)]
                            if caches and ss == NONE:
                                if lt_known(x, valid):
                                    cv.append((1, 0))
                                if dirty and lastk and x == valid and x != BS:
                                    cv.append((0, 1))
                            infos = ['new']
                            if comp and const(nsb) != 0:
                                infos = ['resp', 'open'] + (['trunc'] if dirty and hk == 'K' else [])
                            elif not comp:
                                infos = ['resp']
                            for v in variants:
                                for cr, cw in cv:
                                    for inf in infos:
                                        out.append(mkcase(comp, temp, b3 + v, dict(mem), name, held, hk, x, O, M, nsb, dirty, lastk, ss, pos, ap, ab, cr, cw, inf, valid))
    return out


def lt_known(x, valid):
    return x is not None and valid is not None and valid != () and x != valid


def places(f, w, v, I, empty, full, M, PM, E, hk, fresh, rewriting):
    """positions in block f[v]: [(offset, facts, block)]"""
    b = f[v]
    if w[v] == w['E']:
        if hk == 'new' and fresh:
            hi = PM if fresh == 1 else BS
            r = [(add(prod(b, BS), I), [lt(I, hi)], b)]
            if fresh == 1:
                r.append((M, [], b))
            return r
        # the end of a stream whose last block is full
        return [(M, [], b)] if (full or empty) and not rewriting else []
    if not empty and w[v] == w['T'] and not full:
        return [(add(prod(b, BS), I), [lt(I, PM)], b), (M, [], b)]
    return [(add(prod(b, BS), I), [lt(I, BS)], b)]


def mkcase(comp, temp, facts, mem, name, held, hk, x, O, M, nsb, dirty, lastk, ss, pos, ap, ab, cr, cw, inf, valid):
    CR, CW = L(('CR',)), L(('CW',))
    m = {'cr': (), 'cw': (), 'size': M, 'ss': ss, 'off': O, 'p': L(PI), 'o': L(THIS), 'dirty': C(dirty), 'bs': BS, 'bsz': BSZ, 'open': C(1), 'is': C(ITEM), 'temp': TEMP if temp else (),
         'nsb': nsb, 'uro': L(('URO',)) if dirty or not comp else ()}
    m.update(mem)
    facts = facts + [add(C(1), L(('URO',)), -1), add(TEMP, C(-1))]
    if held is not None:
        p = L(('mem', 0))
        m.update(begin=p, end=add(p, mul(BS, ITEM)), next=add(p, mul(x, ITEM)), buf=L(('buf', 0)))
    else:
        m['buf'] = ()
    if cr:
        m['cr'] = CR
        facts = facts + [add(CR, C(-1)), le(add(x, CR), valid)]
    if cw:
        m['cw'] = CW
        facts = facts + [add(CW, C(-1)), le(add(x, CW), BS)]
    if comp:
        last = add(nsb, C(-1))
        if const(nsb) == 0:
            pass
        elif inf == 'resp':
            m['lbro'], m['cfs'] = MAX, MAX
        elif inf == 'open':
            m['lbro'], m['cfs'] = OFF(last), OFF(nsb)
        else:
            m['lbro'], m['cfs'] = OFF(last), MAX
        if held is not None:
            if hk == 'K':
                m['ro'] = OFF(held)
                if not dirty:
                    m['nro'] = OFF(nxt(held))
            elif not dirty:
                m['ro'] = OFF(held)
    q = G(acc=(), ev=(), bufs=((0, held, 'ok' if x is not None and valid != () else 'fresh'),) if held is not None else (), n=0,
          pend=nsb if inf != 'open' and inf != 'trunc' and const(nsb) != 0 else None, cached=nsb if const(nsb) != 0 else None,
          rb=add(nsb, C(-1)) if comp and inf == 'resp' else None, fe=nsb if comp else None, rd=None, rew=None, unsaved=(0, held) if dirty else None, lost=None,
          want=None, clean=0, done=0, last=None, nro=None, lock=0)
    return Case(name=', '.join(name) + ('' if comp else ' (uncompressed)'), mem=m, facts=facts, q=q, comp=comp, held=held, x=x, size=M, nsb=nsb, pos=pos, arg=ap, argblock=ab, temp=temp, dirty=dirty,
                lastk=lastk, ss=ss, closed=False)


def closed_case(comp, temp=0):
    m = {'cr': (), 'cw': (), 'ss': BEG, 'p': L(PI), 'o': L(THIS), 'dirty': (), 'bs': BS, 'bsz': BSZ, 'open': (), 'is': C(ITEM), 'temp': (), 'owned': (), 'buf': (), 'uro': L(('URO',)), 'size': L(('M0',)),
         'off': L(('O0',)), 'nsb': L(('NSB0',))}
    q = G(acc=(), ev=(), bufs=(), n=0, pend=None, cached=None, rb=None, fe=None, rd=None, rew=None, unsaved=None, lost=None, want=None, clean=0, done=0, last=None, nro=None, lock=0)
    return Case(name='a closed stream', mem=m, facts=[add(BS, C(-1)), add(C(ITEM - 1), PAD, -1), add(C(1), L(('URO',)), -1)], q=q, comp=comp, held=None, x=None, size=L(('M0',)), nsb=L(('NSB0',)), pos=(), arg=None, argblock=None,
                temp=0, dirty=0, lastk=0, ss=BEG, closed=True)


class R(LinRule):
    signed = (SIGNED,)
    drop_dead = True
    collect = None
    fold = tuple('G%d' % i for i in range(8)) + ('B',)

    def __init__(self, rep, lay, case, op, spec, fns):
        self.rep, self.lay, self.case, self.op, self.spec, self.fns = rep, lay, case, op, spec, fns
        self.facts = case.facts
        self.nret = 0
        self.depth = 0

    def head(self, V, b, S):
        return True

    def bad(self, rid, tag, text):
        self.rep.fail(rid, '%s:%s' % (self.op, tag), '%s (%s): %s' % (self.op, self.case.name, text), self.vf.trace())

    def get(self, S, n):
        return self.norm(S, self.vf.load(S, self.lay.c[n], n))

    def ge(self, S, form, c=0):
        return LinRule.ge(self, S, self.norm(S, form), c)

    def put(self, S, n, v):
        S.mem[self.lay.c[n]] = v

    def held(self, S):
        """number of the buffer held"""
        v = self.get(S, 'buf')
        return v[0][0][1] if len(v) == 1 and v[0][0][0] == 'buf' else None

    def info(self, q, n):
        for k, b, c in q.bufs:
            if k == n:
                return b, c
        return None, None

    def off(self, S, j):
        j = self.norm(S, j)
        r = S.q.rew
        if r is not None and self.ge(S, add(j, r, -1), 1):
            return OFF(j, 1)
        return OFF(j)

    def items(self, S, k, size=None):
        """how many items block k has"""
        d = add(self.get(S, 'size') if size is None else size, prod(k, BS), -1)
        if self.ge(S, add(d, BS, -1)):
            return BS
        if self.ge(S, d) and self.ge(S, add(BS, d, -1)):
            return d
        return None

    # -- arithmetic
    def base(self, S):
        out = self.facts
        for k, v in S.facts.items():
            # not more than an ordinary quantity as an unsigned number
            if k[0] == 'rel' and k[1] == 'u' and isform(k[2]) and isform(k[3]):
                for x, y, w in ((k[2], k[3], '<'), (k[3], k[2], '>')):
                    if w not in v and any(l == SIGNED for l, _ in y) and not any(l == SIGNED for l, _ in x) and const(x) != -1:
                        out = out + [y]
        return out

    def quots(self, S):
        m = LinRule.quots(self, S)
        for k, r in S.facts.items():
            if k[0] == 'rel' and r == frozenset('=') and isform(k[2]) and isform(k[3]):
                d = add(k[2], k[3], -1)
                l = [(x, c) for x, c in d if x != ()]
                if len(l) == 1 and l[0][0][0] in self.fold and dict(d).get((), 0) % l[0][1] == 0:
                    m[l[0][0]] = C(-dict(d).get((), 0) // l[0][1])
        for k, y in list(m.items()):
            if k[:2] == ('op', 'udiv'):
                m[('op', 'urem') + k[2:]] = add(k[2], prod(y, k[3]), -1)
        return m

    def leaf_facts(self, k):
        if k and (k[0] in ('mem', 'buf') and len(k) == 2 or k == PI):
            return [add(L(k), C(-1))]
        return LinRule.leaf_facts(self, k)

    def _ge(self, T, facts, depth):
        if self._pos(T):
            return True
        if depth == 0:
            return False
        neg = [(k, c) for k, c in T if c < 0 and k != ()]
        for H in facts:
            hd = dict(H)
            if neg:
                r = [c // hd[k] for k, c in neg if hd.get(k, 0) < 0]
                if not r:
                    continue
                m = max(1, max(r))
            elif hd.get((), 0) < 0 or any(hd.get(k, 0) > 0 for k, c in T):
                m = max([1] + [c // hd[k] for k, c in T if k != () and c > 0 and hd.get(k, 0) > 0])
            else:
                continue
            if self._ge(add(T, mul(H, m), -1), facts, depth - 1):
                return True
        return False

    def div(self, S, a, b):
        """q with q*b <= a < (q+1)*b"""
        if b == BS:
            qf, rest = (), ()
            for k, c in a:
                if k == ('BS',):
                    qf = add(qf, C(c))
                elif k[:1] == ('*',) and ('BS',) in k:
                    l = list(k[1:])
                    l.remove(('BS',))
                    qf = add(qf, mul(L(l[0]) if len(l) == 1 else L(('*',) + tuple(l)), c))
                else:
                    rest = add(rest, ((k, c),))
        elif const(b) and const(b) > 0:
            cb = const(b)
            qf = tuple((k, c // cb) for k, c in a if c // cb)
            rest = tuple((k, c % cb) for k, c in a if c % cb)
            if a == ():
                return ()
        else:
            return None
        for d in (0, -1, 1):
            r = add(rest, mul(b, -d))
            if self.ge(S, r) and self.ge(S, add(b, r, -1), 1):
                return add(qf, C(d))
        return None

    def cond(self, S, p, a, b, I=None):
        ca, cb = const(a), const(b)
        if (ca is None) != (cb is None):
            if cb is None:
                a, b, ca, cb, p = b, a, cb, ca, vf.SWAP[p]
            if cb < 0 and p[0] != 's' and not any(k == SIGNED for k, _ in a):
                return {'eq': False, 'ne': True, 'ult': True, 'ule': True, 'ugt': False, 'uge': False}[p]
        if p[0] == 'u' and any(k == SIGNED for k, _ in add(a, b, -1)):
            na, nb = self.ge(S, mul(a, -1), 1), self.ge(S, mul(b, -1), 1)
            if na != nb and (self.ge(S, b) if na else self.ge(S, a)):
                return na == (p in ('ugt', 'uge'))
        return LinRule.cond(self, S, p, a, b, I)

    # -- events
    def call(self, S, I, args):
        s = I.short or ''
        m = s.split('::')[-1]
        q = S.q
        n = S.copy()
        env = n.env

        def ret(v=None, **kw):
            if v is not None:
                env[I.id] = v
            if kw:
                n.q = q._replace(**kw)
            return [('ret', n)]

        def two(outs):
            r = []
            for v, kw in outs:
                z = S.copy(q._replace(**kw))
                z.env[I.id] = v
                r.append(('ret', z))
            return r
        if s.startswith(('std::__shared_ptr', 'std::shared_ptr')):
            return self.shared(S, I, args, m, n)
        if s == '__cxa_throw':
            t = S.copy()
            t.exc = throw_type(I) or '?'
            return [('throw', t)]
        if s == 'tpie::get_block_size':
            return ret(L(('gbs',)))
        if s == 'tpie::the_compressor_thread':
            return ret(L(('thread',)))
        if s.startswith('tpie::compressor_thread_lock::'):
            if m.startswith('~'):
                return ret(lock=0)
            if q.lock:
                self.bad('wait', 'lock', 'takes the lock of the compressor thread twice')
            return ret(lock=1)
        if s.startswith('tpie::compressor_request::'):
            if m in ('set_write_request', 'set_read_request'):
                c = self.vf.cell(S, I.a[0])
                n.mem[c] = L((m,) + tuple(self.deref(S, I, i, a) for i, a in enumerate(args[1:], 1)))
            return [('ret', n)]
        if s == 'tpie::compressor_thread::request':
            return self.request(S, I, n)
        if s == 'tpie::compressor_thread::wait_for_request_done':
            return self.waitdone(S, I)
        if s == 'tpie::stream_buffers::get_buffer':
            return self.get_buffer(S, I, args)
        if s == 'tpie::stream_buffers::clean':
            return ret(clean=1)
        if s in ('tpie::stream_buffers::empty', 'tpie::stream_buffers::count'):
            own = self.held(S) is not None
            if not q.clean:
                self.bad('wait', 'clean', 'looks for unfinished requests without giving the finished buffers back')
            e = m == 'empty'
            out = []
            if not (e and own):
                out.append((C(1) if e else C(int(own)), dict(pend=None, cached=None)))
            if q.pend is not None or e and own:
                out.append(((), {}) if e else (C(int(own) + 1), {}))
            return two(out)
        if s.startswith('tpie::compressor_response::'):
            return self.response(S, I, args, m, n, ret, two)
        if 'stream_accessor_base' in s or 'byte_stream_accessor' in s:
            return self.accessor(S, I, args, m, n, ret)
        if s == 'tpie::temp_file::update_recorded_size':
            return ret(ev=q.ev + (('recorded', args[0] == TEMP and args[-1] == L(('fsize', len([e for e in q.ev if e[0] in ('trunc', 'truncb')])))),))
        if s == 'tpie::compressed_stream_base::close':
            return self.close(S, I, n)
        if s == 'tpie::compressed_stream_base::seek':
            return self.nested(S, I, args)
        if s.startswith('tpie::log_') or m in ('operator<<', 'basic_string', '~basic_string') or 'exception' in s or s.startswith(('__cxa_', 'std::endl', 'std::ostream', 'std::terminate')):
            return None
        if s.startswith('operator delete') and args[0] == L(PI):
            return ret(ev=q.ev + (('freed',),))
        if s.startswith('operator new') and self.op == 'construct':
            t = S.copy()
            t.exc = 'alloc'
            return ret(L(PI)) + [('throw', t)]
        if s in ('operator new', 'operator new[]', 'tpie::tpie_new') or s.startswith('tpie::temp_file::'):
            v = L(('temp',)) if s.startswith('operator') or 'new' in s else None
            t = S.copy()
            t.exc = 'io'
            r = ret(v)
            return r + ([('throw', t)] if m != '~temp_file' else [])
        return None

    def deref(self, S, I, i, a):
        """smart pointer arguments are passed by address"""
        c = self.vf.cell(S, I.a[i])
        if c == self.lay.c['buf'] or c is not None and c[0][0] == 'alloca' and c in S.mem and S.mem[c] and S.mem[c][0][0][0] == 'buf':
            return S.mem[c]
        return a

    def shared(self, S, I, args, m, n):
        cell = lambda i: self.vf.cell(S, I.a[i])
        val = lambda i: self.vf.load(S, cell(i))
        if m in ('get', 'operator->', 'operator*'):
            n.env[I.id] = val(0)
        elif m == 'operator bool':
            v = val(0)
            n.env[I.id] = C(0) if v == () else C(1)
        elif m == 'swap':
            a, b = val(0), val(1)
            n.mem[cell(0)], n.mem[cell(1)] = b, a
        elif m == 'reset' or m in ('shared_ptr', '__shared_ptr') and len(args) == 1:
            n.mem[cell(0)] = ()
        elif m in ('operator=', 'shared_ptr', '__shared_ptr') and len(args) == 2:
            n.mem[cell(0)] = val(1)
            if '&&' in (I.callee or ''):
                n.mem[cell(1)] = ()
            n.env[I.id] = args[0]
        elif m.startswith('~'):
            n.mem.pop(cell(0), None)
        elif m in ('unique', 'use_count'):
            n.env[I.id] = L(('uses', I.id))
        self.drop(n)
        return [('ret', n)]

    def drop(self, S):
        """is a modified buffer no longer held?"""
        q = S.q
        if q.unsaved is not None and self.held(S) != q.unsaved[0]:
            S.q = q._replace(lost=q.unsaved[1], unsaved=None)

    def bcell(self, n, f):
        return (('buf', n), self.lay.b[f])

    def request(self, S, I, n):
        q = S.q
        c = self.vf.cell(S, I.a[1])
        r = S.mem.get(c)
        if not q.lock:
            self.bad('wait', 'nolock', 'makes a request without the lock of the compressor thread')
        if r is None or len(r) != 1 or r[0][0][0] not in ('set_write_request', 'set_read_request'):
            self.bad('request', 'empty', 'makes a request that has not been set up')
            return [('ret', n)]
        a = r[0][0][1:]
        buf = a[0][0][0][1] if a[0] and a[0][0][0][0] == 'buf' else None
        if buf is None or a[0] != self.get(S, 'buf'):
            self.bad('request', 'buffer', 'makes a request for another buffer than the one of the current block')
            return []
        blk, content = self.info(q, buf)
        comp = self.case.comp
        if a[1] != self.lay.acc or a[-1] != self.lay.resp:
            self.bad('request', 'file', 'makes a request for another file or response')
        st = const(self.vf.load(S, self.bcell(buf, 'bstate')))
        if r[0][0][0] == 'set_write_request':
            temp, off, items, bno = a[2:6]
            if temp != self.get(S, 'temp'):
                self.bad('request', 'temp', 'the temporary file of a write request is %s' % vf.show(temp))
            if st != 1:
                self.bad('request', 'wstate', 'the buffer of a write request is not marked as being written')
            if not self.eq(S, bno, blk):
                self.bad('request', 'block', 'block %s is written as block %s' % (vf.show(blk), vf.show(bno)))
                return []
            want = self.items(S, blk)
            if want is None or not self.eq(S, items, want):
                self.bad('request', 'items', 'block %s of %s items is written with %s' % (vf.show(blk), 'an unknown number of' if want is None else vf.show(want), vf.show(items)))
            elif self.ge(S, mul(want, -1)):
                self.bad('request', 'none', 'a block without items is written')
            bsz = self.vf.load(S, self.bcell(buf, 'bsize'))
            if want is not None and not self.eq(S, bsz, mul(want, ITEM)):
                self.bad('request', 'bytes', 'the size of the written block is taken to be %s' % vf.show(bsz))
            nsb = self.get(S, 'nsb')
            k1 = nxt(blk)
            kw = dict(unsaved=None, done=0, clean=0)
            if not comp:
                if not self.eq(S, off, prod(blk, BSZ)):
                    self.bad('request', 'offset', 'block %s is written at %s' % (vf.show(blk), vf.show(off)))
                kw['pend'] = k1 if q.pend is None or self.ge(S, add(k1, q.pend, -1)) else q.pend
                kw['cached'] = k1 if q.cached is None or self.ge(S, add(k1, q.cached, -1)) else q.cached
            else:
                if const(off) == -1:
                    if q.fe is None or not self.eq(S, q.fe, blk):
                        self.bad('request', 'append', 'block %s is appended although the file does not end before it' % vf.show(blk))
                else:
                    if off != self.off(S, blk):
                        self.bad('request', 'offset', 'block %s is written at %s' % (vf.show(blk), vf.show(off)))
                    kw['rew'] = blk
                if q.pend is not None and not self.ge(S, add(k1, q.pend, -1)):
                    self.bad('request', 'order', 'block %s is written while a later one may still be waiting to be written' % vf.show(blk))
                if q.rb is not None and not self.ge(S, add(blk, q.rb, -1)):
                    self.bad('request', 'info', 'block %s is written while the response still knows a later block' % vf.show(blk))
                kw.update(pend=k1, fe=k1, rb=blk, cached=k1 if q.cached is None or self.ge(S, add(k1, q.cached, -1)) else q.cached)
            n.q = q._replace(**kw)
            self.rep.ok('request', None)
            return [('ret', n)]
        off, d = a[2], const(a[3])
        if st != 2:
            self.bad('request', 'rstate', 'the buffer of a read request is not marked as being read')
        nitems = self.items(S, blk)
        if nitems is None or not self.ge(S, nitems, 1):
            self.bad('request', 'nothing', 'block %s is read although it has no items' % vf.show(blk))
            return []
        if q.unsaved is not None:
            self.bad('lost', 'read', 'a block is read over a modified one')
        if comp:
            want = self.off(S, blk if d == 0 else nxt(blk))
            if off != want:
                self.bad('request', 'where', 'block %s is read %s from %s instead of %s' % (vf.show(blk), 'forward' if d == 0 else 'backward', vf.show(off), vf.show(want)))
        else:
            if not self.eq(S, off, prod(blk, BSZ)):
                self.bad('request', 'where', 'block %s is read from %s' % (vf.show(blk), vf.show(off)))
            bsz = self.vf.load(S, self.bcell(buf, 'bsize'))
            for S2, (b,) in self.splits(S, (bsz,)):
                if not self.ge(S2, add(b, mul(nitems, ITEM), -1)) or not self.ge(S2, add(BSZ, b, -1)):
                    self.bad('request', 'length', '%s bytes are read for the %s items of block %s' % (vf.show(b), vf.show(nitems), vf.show(blk)))
        n.q = q._replace(rd=(buf, d, self.off(S, blk), self.off(S, nxt(blk))), done=0, clean=0)
        self.rep.ok('request', None)
        return [('ret', n)]

    def complete(self, z):
        """the outstanding read is done"""
        q = z.q
        buf, d, lo, hi = q.rd
        blk, _ = self.info(q, buf)
        z.mem[self.bcell(buf, 'bstate')] = C(3)
        if self.case.comp:
            z.mem[self.bcell(buf, 'bsize')] = mul(self.items(z, blk), ITEM)
            z.mem[self.bcell(buf, 'bro')] = lo
            z.mem[self.bcell(buf, 'bbs')] = add(hi, lo, -1)
        z.q = q._replace(rd=None, want=None, done=1, nro=hi if d == 0 else lo, bufs=tuple((k, b, 'ok' if k == buf else c) for k, b, c in q.bufs))

    def waitdone(self, S, I):
        q = S.q
        if not q.lock:
            self.bad('wait', 'nolock', 'waits without the lock of the compressor thread')
        out = []
        busy = [k for k, _, _ in q.bufs if const(S.mem.get(self.bcell(k, 'bstate'))) == 1]
        if q.pend is None and q.rd is None and not busy:
            self.bad('wait', 'hang', 'waits for a request although none is unfinished')
            return []
        a = S.copy(q._replace(clean=0))
        if q.rd is not None:
            self.complete(a)
            a.q = a.q._replace(clean=0)
            return [('ret', a), ('ret', S.copy(q._replace(clean=0)))]
        out.append(('ret', a))
        if busy:
            b = S.copy(q._replace(clean=0))
            for k in busy:
                b.mem[self.bcell(k, 'bstate')] = C(3)
            out.append(('ret', b))
        c = S.copy(q._replace(clean=0, pend=None))
        for k in busy:
            c.mem[self.bcell(k, 'bstate')] = C(3)
        out.append(('ret', c))
        return out

    def response(self, S, I, args, m, n, ret, two):
        q = S.q
        if m in ('compressor_response', '~compressor_response'):
            return ret()
        if args[0] != self.lay.resp:
            self.bad('wait', 'resp', 'uses another response')
        if m == 'clear_block_info':
            return ret(rb=None)
        if m == 'wait':
            if not q.lock:
                self.bad('wait', 'nolock', 'waits without the lock of the compressor thread')
            if q.rd is not None:
                z = S.copy()
                self.complete(z)
                return [('ret', z), ('ret', S.copy())]
            if q.want == 'never' or q.pend is None and q.want != 'done':
                self.bad('wait', 'hang', 'waits for an answer that does not come')
                return []
            return ret(want=None)
        if m == 'has_block_info':
            k = args[1]
            if q.rb is None:
                return ret((), want='never')
            if self.eq(S, k, q.rb):
                sure = q.pend is None or q.done and q.last == 'fresh'
                return two([(C(1), dict(want=None))] + ([] if sure else [((), dict(want='info'))]))
            if self.ge(S, add(k, q.rb, -1), 1):
                return ret((), want='never')
            self.bad('wait', 'info', 'asks where block %s is when block %s is the last one known' % (vf.show(k), vf.show(q.rb)))
            return []
        if m in ('get_read_offset', 'get_block_size'):
            k = args[1]
            if q.rb is None or not self.eq(S, k, q.rb):
                self.bad('wait', 'noinfo', 'uses information about block %s that the response does not have' % vf.show(k))
                return []
            lo, hi = self.off(S, k), self.off(S, nxt(k))
            return ret(lo if m == 'get_read_offset' else add(hi, lo, -1))
        if m == 'done':
            if q.rd is not None or q.pend is not None:
                return two([(C(1), dict(done=1, want=None)), ((), dict(want='done'))])
            return ret(C(1), done=1)
        if m == 'next_read_offset':
            return ret(q.nro if q.nro is not None else L(('junk', I.id)))
        return None

    def get_buffer(self, S, I, args):
        q = S.q
        k = args[3]
        cell = self.vf.cell(S, I.a[0])
        if args[1] != add(L(PI), C(self.lay.c['bufs'][1])):
            self.bad('buffer', 'manager', 'takes a buffer from elsewhere')
        if not q.lock:
            self.bad('wait', 'nolock', 'takes a buffer without the lock of the compressor thread')
        if self.held(S) is not None:
            self.bad('buffer', 'second', 'takes a second buffer while holding one')
        if q.unsaved is not None:
            self.bad('lost', 'dropped', 'another block is fetched while the current one is modified and not written')
        if q.lost is not None and q.cached is not None:
            self.bad('lost', 'stale', 'the buffer of a modified block that was dropped may be found again')
        if q.cached is not None and not self.ge(S, add(prod(k, BS), self.get(S, 'size'), -1)) and not self.ge(S, add(self.get(S, 'nsb'), q.cached, -1)):
            self.bad('buffer', 'stale', 'blocks that were truncated away may still be found')
        out = []
        i = q.n + 1
        nit = self.items(S, k)

        def mk(kind):
            z = S.copy(q._replace(n=i, bufs=((i, k, 'fresh' if kind == 'fresh' else 'ok'),), last=kind, clean=1, want=None))
            z.mem[cell] = L(('buf', i))
            for x in list(z.mem):
                if x[0][:1] == ('buf',):
                    del z.mem[x]
            b = lambda f, v: z.mem.__setitem__(self.bcell(i, f), v)
            b('el', L(('mem', i)))
            if kind == 'fresh':
                b('bstate', C(0))
                b('bsize', ())
                b('bro', L(('junk', 'ro')))
                b('bbs', MAX)
            else:
                b('bstate', C(3 if kind == 'clean' else 1))
                b('bsize', mul(nit, ITEM))
                if self.case.comp:
                    b('bro', self.off(S, k))
                    b('bbs', add(self.off(S, nxt(k)), self.off(S, k), -1))
                else:
                    b('bro', L(('junk', 'ro')))
                    b('bbs', L(('junk', 'bs')))
            out.append(('ret', z))
        mk('fresh')
        if q.cached is not None and self.ge(S, add(q.cached, k, -1), 1) and nit is not None:
            mk('clean')
            if q.pend is not None and self.ge(S, add(q.pend, k, -1), 1):
                mk('writing')
        self.rep.ok('buffer', None)
        return out

    def accessor(self, S, I, args, m, n, ret):
        q = S.q
        if m not in ('byte_stream_accessor', '~stream_accessor_base', 'open') and args[0] != self.lay.acc:
            self.bad('request', 'accessor', 'uses another file')
        if m == 'get_compressed':
            return ret(C(int(self.case.comp)))
        if m in ('truncate', 'truncate_bytes', 'read_user_data', 'write_user_data', 'set_last_block_read_offset', 'set_size', 'close'):
            if q.pend is not None:
                self.bad('request', 'busy', '%s of the file while requests for it are unfinished' % m)
        if m == 'truncate':
            return ret(ev=q.ev + (('trunc', args[1]),), fe=() if const(args[1]) == 0 else None)
        if m == 'truncate_bytes':
            v = args[1]
            k = v[0][0] if len(v) == 1 else None
            if v != () and (k is None or k[:2] not in (('op', 'OFF'), ('op', 'OFF1'))):
                self.bad('size', 'cut', 'truncates the file at %s' % vf.show(v))
                return ret()
            j = () if v == () else k[2]
            return ret(ev=q.ev + (('truncb', j),), fe=j, rb=q.rb)
        if m == 'file_size':
            return ret(OFF(self.case.nsb) if self.op.startswith('open') and self.case.comp and q.fe == self.case.nsb else L(('fsize', len([e for e in q.ev if e[0] in ('trunc', 'truncb')]))))
        if m == 'open':
            t = S.copy(q._replace(ev=q.ev + (('open', 'failed'),)))
            t.exc = 'io'
            return ret(ev=q.ev + (('open',) + tuple(args[1:]),)) + [('throw', t)]
        if m == 'size':
            return ret(self.case.size)
        if m == 'get_last_block_read_offset':
            return ret(OFF(add(self.case.nsb, C(-1))) if const(self.case.nsb) != 0 else L(('junk', 'lbro')))
        if m in ('set_last_block_read_offset', 'set_size', 'read_user_data', 'write_user_data', 'close'):
            return ret(ev=q.ev + ((m,) + tuple(args[1:]),))
        return None

    def close(self, S, I, n):
        for k, v in (('cr', ()), ('cw', ()), ('ss', BEG), ('dirty', ()), ('open', ()), ('temp', ()), ('owned', ()), ('buf', ())):
            self.put(n, k, v)
        n.q = S.q._replace(ev=S.q.ev + (('closed',),), unsaved=None, lost=None, pend=None, cached=None, rb=S.q.rb, bufs=(), rd=None)
        if S.q.lock:
            self.bad('wait', 'lock', 'closes the stream while holding the lock of the compressor thread')
        return [('ret', n)]

    def nested(self, S, I, args):
        """seek called by another operation"""
        if self.depth > 3:
            self.bad('wait', 'recursion', 'seek calls itself without end')
            return []
        sub = copy.copy(self)
        sub.depth = self.depth + 1
        sub.collect = []
        local = {k: v for k, v in S.mem.items() if k[0][:1] == ('alloca',) or k[0] == 'range'}
        s = vf.S(S.q, {('arg', i): a for i, a in enumerate(args)}, {k: v for k, v in S.mem.items() if k not in local}, dict(S.facts), None)
        outer = self.vf
        V = vf.VF(self.fns['seek'], sub, [s])
        self.nstates = getattr(self, 'nstates', 0) + V.nstates
        self.vf = outer
        r = []
        for z, kind, v in sub.collect:
            n = vf.S(z.q, dict(S.env), dict(z.mem), dict(z.facts), z.exc)
            n.mem = {k: v for k, v in n.mem.items() if k[0][:1] != ('alloca',)}
            n.mem.update(local)
            r.append(('ret' if kind == 'ret' else 'throw', n))
        return r

    # -- buffer accesses
    def step(self, S, I):
        if I.op in ('udiv', 'urem'):
            a, b = self.vf.ev(S, I.a[0]), self.vf.ev(S, I.a[1])
            if const(a) is None or const(b) is None:
                q = self.div(S, a, b)
                if q is None and self._sel(a) is not None:
                    qs = {self.div(S2, x, b) for S2, (x,) in self.splits(S, (a,))}
                    q = qs.pop() if len(qs) == 1 else None
                if q is not None:
                    S.env[I.id] = q if I.op == 'udiv' else add(a, prod(q, b), -1)
            return None
        if I.op in ('load', 'store'):
            self.access(S, I, 'r' if I.op == 'load' else 'w', self.vf.ev(S, I.a[0] if I.op == 'load' else I.a[1]))
        elif I.iscall and (I.short or '').startswith(('llvm.memcpy', 'llvm.memmove')):
            self.access(S, I, 'w', self.vf.ev(S, I.a[0]))
            self.access(S, I, 'r', self.vf.ev(S, I.a[1]))
        return None

    def access(self, S, I, rw, p):
        ks = [k for k, c in p if k[:1] == ('mem',) and c == 1]
        if not ks:
            return
        n = ks[0][1]
        rest = add(p, L(ks[0]), -1)
        rest = add(rest, C(-(dict(rest).get((), 0) % ITEM)))
        if any(c % ITEM for _, c in rest):
            self.bad('place', 'unaligned', 'accesses the buffer at %s' % vf.show(rest))
            return
        idx = tuple((k, c // ITEM) for k, c in rest)
        if self.held(S) != n:
            self.bad('place', 'stale', 'uses a buffer that has been given back')
            return
        if const(S.mem.get(self.bcell(n, 'bstate'), C(3))) in (1, 2):
            self.bad('place', 'busy', 'uses a buffer that the compressor thread is working on')
        blk, content = self.info(S.q, n)
        if not self.ge(S, idx) or not self.ge(S, add(BS, idx, -1), 1):
            self.bad('place', 'outside', 'accesses item %s of the buffer' % vf.show(idx))
        if rw == 'r' and content == 'fresh':
            self.bad('place', 'unread', 'reads a buffer that has not been filled')
        e = (rw, add(prod(blk, BS), idx))
        if not S.q.acc or S.q.acc[-1] != e:
            S.q = S.q._replace(acc=S.q.acc + (e,))
        if rw == 'w':
            S.q = S.q._replace(unsaved=(n, blk), bufs=tuple((a, b, 'ok' if a == n else c) for a, b, c in S.q.bufs))

    def exit(self, S, I, kind, ret):
        if self.collect is not None:
            self.collect.append((S, kind, ret))
            return
        vals = (self.position(S), self.get(S, 'size'), ret)
        states = [S]
        d = self.get(S, 'dirty')
        if const(d) is None and d is not None:
            # decide whether the block is modified
            states = []
            for t in (True, False):
                S2 = self.vf.assume(S, d, t)
                if S2 is not None:
                    S2 = S2.copy()
                    self.put(S2, 'dirty', C(int(t)))
                    states.append(S2)
        for S2, (p, z, r) in [x for s in states for x in self.splits(s, vals)]:
            self.nret += 1
            if S2.q.lock:
                self.bad('wait', 'locked', 'keeps the lock of the compressor thread')
            self.spec(self, S2, kind, p, z, r)
            self.rep.ok('position', None)

    def position(self, S):
        s = const(self.get(S, 'ss'))
        return {0: self.get(S, 'off'), 1: (), 2: self.get(S, 'size'), 3: self.get(S, 'noff')}.get(s, L(('unknown',)))

    # -- what holds between operations
    def inv(self, S):
        c = self.case
        g = lambda x: self.get(S, x)
        q = S.q
        ss, nsb, M, dirty = const(g('ss')), g('nsb'), g('size'), const(g('dirty'))
        comp = c.comp
        n = self.held(S)
        if q.rd is not None:
            self.bad('wait', 'reading', 'a block is still being read')
        if const(g('open')) != 1:
            self.bad('buffer', 'open', 'the stream no longer counts as open')
            return
        if dirty not in (0, 1):
            self.bad('buffer', 'dirty', 'it is unknown whether the block is modified')
            return
        if ss is None or ss not in (0, 1, 2, 3):
            self.bad('buffer', 'state', 'the seek state is unknown')
            return
        blk = content = x = None
        if n is None:
            if g('buf') != ():
                self.bad('buffer', 'unknown', 'the current buffer is unknown')
                return
            if ss == 0:
                self.bad('buffer', 'none', 'no block is loaded although no seek is pending')
                return
            if dirty:
                self.bad('buffer', 'nodirty', 'a block that is not there is marked modified')
        else:
            blk, content = self.info(q, n)
            blk = self.norm(S, blk)
            if const(S.mem.get(self.bcell(n, 'bstate'), C(3))) == 2:
                self.bad('buffer', 'reading', 'the current block is still being read')
            if const(S.mem.get(self.bcell(n, 'bstate'), C(3))) == 1:
                self.bad('buffer', 'writing', 'the current block is still being written')
            b, e, i = g('begin'), g('end'), g('next')
            if b != L(('mem', n)) or e != add(b, mul(BS, ITEM)):
                self.bad('buffer', 'bounds', 'the bounds of the buffer are not those of the current block')
                return
            i = add(i, b, -1)
            if any(f % ITEM for _, f in i):
                self.bad('buffer', 'next', 'the next item is at %s' % vf.show(i))
                return
            x = self.norm(S, tuple((k, f // ITEM) for k, f in i))
            if not self.ge(S, x) or not self.ge(S, add(BS, x, -1)):
                self.bad('buffer', 'index', 'the next item is item %s of the block' % vf.show(x))
            if not self.eq(S, g('off'), add(prod(blk, BS), x)):
                self.bad('buffer', 'place', 'the position is %s although the next item is item %s of block %s' % (vf.show(g('off')), vf.show(x), vf.show(blk)))
            if not self.ge(S, add(M, g('off'), -1)):
                self.bad('buffer', 'beyond', 'the position %s within the block is beyond the size %s' % (vf.show(g('off')), vf.show(M)))
            here = self.items(S, blk)
            if content == 'fresh' and (here is None or not self.ge(S, mul(here, -1))):
                self.bad('buffer', 'unread', 'the buffer of block %s has not been filled' % vf.show(blk))
            if dirty and here is not None and self.ge(S, mul(here, -1)):
                self.bad('buffer', 'emptydirty', 'a block without items is marked modified')
        # blocks
        d = add(M, prod(nsb, BS), -1)
        isnew = n is not None and self.eq(S, blk, nsb)
        if isnew:
            if not self.ge(S, d) or not self.ge(S, add(BS, d, -1)):
                self.bad('size', 'blocks', '%s blocks are taken to be written of a stream of %s items' % (vf.show(nsb), vf.show(M)))
            if self.ge(S, d, 1) and not dirty:
                self.bad('buffer', 'newclean', 'the new block has items but is not marked modified')
            if not self.ge(S, d, 1) and not self.ge(S, mul(d, -1)):
                self.bad('buffer', 'newunknown', 'it is unknown whether the new block has items')
        elif not self.ge(S, mul(d, -1)) or not self.ge(S, add(d, BS), 1):
            self.bad('size', 'blocks', '%s blocks are taken to be written of a stream of %s items' % (vf.show(nsb), vf.show(M)))
        elif n is not None and not self.ge(S, add(nsb, blk, -1), 1):
            self.bad('buffer', 'outside', 'block %s is loaded of a stream of %s blocks' % (vf.show(blk), vf.show(nsb)))
        # modifications
        if q.unsaved is not None and not dirty and not self.ge(S, add(prod(q.unsaved[1], BS), M, -1)):
            self.bad('lost', 'clean', 'a modified block is not marked modified')
        if q.lost is not None and not self.ge(S, add(prod(q.lost, BS), M, -1)):
            self.bad('lost', 'forgotten', 'the modifications of block %s are forgotten' % vf.show(q.lost))
        last = n is not None and self.eq(S, nxt(blk), nsb)
        if comp and dirty and not isnew and not last:
            self.bad('buffer', 'middle', 'block %s of a compressed stream of %s is marked modified' % (vf.show(blk), vf.show(nsb)))
        # requests and cached blocks
        for what, v in (('requests', q.pend), ('buffers', q.cached)):
            if v is not None:
                if not self.ge(S, add(nsb, v, -1)):
                    self.bad('buffer', 'old' + what, '%s for blocks that no longer exist may be left' % what)
                elif what == 'buffers' and not self.ge(S, add(M, c.size, -1)) and not self.ge(S, add(M, prod(v, BS), -1)):
                    self.bad('buffer', 'shorter', 'the buffer of a block that was shortened may be left')
        # cached operations
        cr, cw = g('cr'), g('cw')
        if cr != ():
            if ss != 0 or n is None or not self.ge(S, add(add(BS, x, -1), cr, -1)) or not self.ge(S, add(add(M, g('off'), -1), cr, -1)) or not self.ge(S, cr):
                self.bad('cheap', 'reads', '%s items may be read without checks' % vf.show(cr))
        if cw != ():
            if ss != 0 or n is None or not dirty or not self.eq(S, g('off'), M) or not self.ge(S, add(add(BS, x, -1), cw, -1)) or not self.ge(S, cw):
                self.bad('cheap', 'writes', '%s items may be written without checks' % vf.show(cw))
        self.rep.ok('cheap', None)
        # pending position
        if ss == 3:
            p, ro = g('noff'), g('nro_')
            if not self.ge(S, p) or not self.ge(S, add(M, p, -1)):
                self.bad('position', 'pending', 'a position %s outside the stream of %s is pending' % (vf.show(p), vf.show(M)))
            k = self.div(S, p, BS)
            if not comp:
                if ro != ():
                    self.bad('position', 'pendoff', 'the pending position is taken to be at %s' % vf.show(ro))
            elif k is None:
                self.bad('position', 'pendblock', 'the block of the pending position %s is unknown' % vf.show(p))
            elif ro != self.off(S, k):
                self.bad('position', 'pendoff', 'block %s is taken to be at %s' % (vf.show(k), vf.show(ro)))
        if not comp:
            if ss in (1, 2):
                self.bad('position', 'ss', 'a seek of the wrong kind is pending')
            self.rep.ok('buffer', None)
            return
        if ss == 2 and n is not None and (isnew or last):
            self.bad('position', 'end', 'a seek to the end is pending although the last block is loaded')
        # read offsets
        if n is not None:
            ro, nro = g('ro'), g('nro')
            if (not isnew or not dirty) and ro != self.off(S, blk):
                self.bad('offset', 'current', 'block %s is taken to be at %s' % (vf.show(blk), vf.show(ro)))
            if not isnew and not dirty and nro != self.off(S, nxt(blk)):
                self.bad('offset', 'next', 'the block after block %s is taken to be at %s' % (vf.show(blk), vf.show(nro)))
        if not dirty and const(g('uro')) != 0:
            self.bad('offset', 'update', 'the read offset is still to be taken from an earlier write')
        # where the last block is
        if not self.ge(S, nsb, 1):
            if not self.ge(S, mul(nsb, -1)):
                self.bad('offset', 'unknown', 'the number of blocks is unknown')
        else:
            lb, cf = g('lbro'), g('cfs')
            prev = add(nsb, C(-1))
            if const(lb) != -1 and lb != self.off(S, prev) and not self.eq(S, nsb, C(1)):
                self.bad('offset', 'last', 'the last block %s is taken to be at %s' % (vf.show(prev), vf.show(lb)))
            rewriting = dirty and last
            if const(cf) != -1 and cf != self.off(S, nsb) and not rewriting:
                self.bad('offset', 'filesize', 'the file of %s blocks is taken to end at %s' % (vf.show(nsb), vf.show(cf)))
            rbok = q.rb is not None and self.eq(S, q.rb, prev)
            if not rbok and (const(lb) == -1 and not self.eq(S, nsb, C(1)) or const(cf) == -1 and not rewriting):
                self.bad('offset', 'lostinfo', 'it is no longer known where block %s is' % vf.show(prev))
            if q.rb is not None and not self.ge(S, add(prev, q.rb, -1)):
                self.bad('offset', 'oldinfo', 'the response still knows a block that no longer exists')
            if q.fe is None or not self.eq(S, q.fe, nsb):
                if not rewriting:
                    self.bad('size', 'fileend', 'the file ends after %s blocks instead of %s' % ('unknown' if q.fe is None else vf.show(q.fe), vf.show(nsb)))
        self.rep.ok('offset', None)
        self.rep.ok('buffer', None)

    def same(self, S, p, z, what, pos=True):
        if pos and not self.eq(S, p, self.case.pos):
            self.bad('position', 'moved:' + what, '%s moves the position from %s to %s' % (what, vf.show(self.case.pos), vf.show(p)))
        if not self.eq(S, z, self.case.size):
            self.bad('size', 'changed:' + what, '%s changes the size from %s to %s' % (what, vf.show(self.case.size), vf.show(z)))


def expect_access(r, S, want):
    got = S.q.acc
    if len(got) != len(want) or any(g[0] != w[0] or not r.eq(S, g[1], w[1]) for g, w in zip(got, want)):
        r.bad('place', 'access', 'accesses %s instead of %s' % (', '.join('%s item %s' % ({'r': 'reads', 'w': 'writes'}[k], vf.show(v)) for k, v in got) or 'nothing',
                                                              ', '.join('item %s' % vf.show(v) for k, v in want) or 'nothing'))
    else:
        r.rep.ok('place', None)


def ended(r, S):
    return r.ge(S, add(r.case.pos, r.case.size, -1))


def closed_only(f):
    """on a closed stream the operation throws stream_exception and changes nothing"""
    def spec(r, S, kind, p, z, ret):
        if not r.case.closed:
            return f(r, S, kind, p, z, ret)
        if kind == 'ret' or S.exc not in (SEX, EOS):
            r.bad('end', 'closed', '%s on a closed stream' % ('succeeds' if kind == 'ret' else 'throws %s' % S.exc))
        isclosed(r, S)
    return spec


def isclosed(r, S):
    for k, v, t in (('open', 0, 'counts as open'), ('buf', 0, 'keeps its block'), ('cr', 0, 'lets items be read without checks'), ('cw', 0, 'lets items be written without checks'),
                    ('ss', 1, 'has no seek pending'), ('temp', 0, 'keeps its temporary file'), ('dirty', 0, 'counts as modified')):
        if const(r.get(S, k)) != v:
            r.bad('lost', 'closed:' + k, 'a closed stream %s' % t)


def noexc(r, S, kind):
    if kind != 'ret':
        r.bad('end', 'throws', 'throws %s' % S.exc)
        return False
    return True


def reader(delta, acc):
    @closed_only
    def spec(r, S, kind, p, z, ret):
        c = r.case
        if kind == 'ret':
            if not r.ge(S, add(c.size, c.pos, -1), 1):
                r.bad('end', 'missing', 'reading at the end does not throw')
                return
            if acc is not None:
                expect_access(r, S, [('r', add(c.pos, C(acc)))])
            if not r.eq(S, p, add(c.pos, C(delta))):
                r.bad('position', 'after', 'the position becomes %s instead of %s' % (vf.show(p), vf.show(add(c.pos, C(delta)))))
            r.same(S, p, z, 'reading', False)
        else:
            if S.exc != EOS:
                r.bad('end', 'other', 'throws %s' % S.exc)
                return
            if not ended(r, S):
                r.bad('end', 'spurious', 'throws end_of_stream_exception before the end')
            r.same(S, p, z, 'a failing read')
        r.inv(S)
    return spec


def reader_back(acc):
    @closed_only
    def spec(r, S, kind, p, z, ret):
        c = r.case
        prev = add(c.pos, C(-1))
        if kind == 'ret':
            if not r.ge(S, prev):
                r.bad('end', 'front', 'reading back at the beginning does not throw')
                return
            if acc:
                expect_access(r, S, [('r', prev)])
            if not r.eq(S, p, prev):
                r.bad('position', 'after', 'the position becomes %s instead of %s' % (vf.show(p), vf.show(prev)))
            r.same(S, p, z, 'reading back', False)
        else:
            if S.exc != EOS:
                r.bad('end', 'other', 'throws %s' % S.exc)
                return
            if not r.ge(S, mul(c.pos, -1)):
                r.bad('end', 'spuriousback', 'throws although there is an item to read back')
            r.same(S, p, z, 'a failing read_back')
        r.inv(S)
    return spec


@closed_only
def writer(r, S, kind, p, z, ret):
    c = r.case
    nx = add(c.pos, C(1))
    if kind == 'ret':
        if c.comp and not ended(r, S):
            r.bad('end', 'overwrite', 'an item before the end of a compressed stream is overwritten')
            return
        expect_access(r, S, [('w', c.pos)])
        if not r.eq(S, p, nx):
            r.bad('position', 'after', 'the position becomes %s instead of %s' % (vf.show(p), vf.show(nx)))
        want = nx if ended(r, S) else c.size
        if not r.eq(S, z, want):
            r.bad('size', 'after', 'the size becomes %s instead of %s' % (vf.show(z), vf.show(want)))
    else:
        if S.exc != SEX or not c.comp or ended(r, S):
            r.bad('end', 'write', 'throws %s' % S.exc)
            return
        r.same(S, p, z, 'a refused write')
        if S.q.acc:
            r.bad('place', 'failwrite', 'a refused write changes an item')
    r.inv(S)


def seeker(target):
    def spec(r, S, kind, p, z, ret):
        c = r.case
        a = L(SIGNED)
        t = target(c, a)
        hi = add(c.size, t, -1)
        if c.comp:
            zero = r.eq(S, a, ())
            if kind == 'ret':
                if not zero:
                    r.bad('end', 'random', 'a compressed stream seeks to an arbitrary position')
                if not r.eq(S, p, t):
                    r.bad('position', 'seek', 'seeks to %s instead of %s' % (vf.show(p), vf.show(t)))
            elif S.exc != SEX or zero:
                r.bad('end', 'throws', 'throws %s' % S.exc)
        elif kind == 'ret':
            if not r.ge(S, t) or not r.ge(S, hi):
                r.bad('end', 'range', 'accepts a position outside the stream')
            if not r.eq(S, p, t):
                r.bad('position', 'seek', 'seeks to %s instead of %s' % (vf.show(p), vf.show(t)))
        elif S.exc != SEX or not r.ge(S, mul(t, -1), 1) and not r.ge(S, mul(hi, -1), 1):
            r.bad('end', 'refused', 'refuses a position inside the stream (%s)' % S.exc)
        r.same(S, p, z, 'seeking', kind != 'ret')
        if S.q.acc:
            r.bad('place', 'seek', 'seeking accesses items')
        r.inv(S)
    return spec


def value(what):
    def spec(r, S, kind, p, z, ret):
        c = r.case
        if not noexc(r, S, kind):
            return
        if what in ('offset', 'size'):
            want = c.pos if what == 'offset' else c.size
            if not r.eq(S, ret, want):
                r.bad('query', 'value', 'returns %s instead of %s' % (vf.show(ret), vf.show(want)))
        else:
            d = add(c.size, c.pos, -1) if what == 'can_read' else c.pos
            for t in (True, False):
                S1 = r.vf.assume(S, ret, t)
                for S2, _ in r.splits(S1) if S1 is not None else ():
                    if not (r.ge(S2, d, 1) if t else r.ge(S2, mul(d, -1))):
                        r.bad('query', 'bool%d' % t, 'may return %s at %s of %s' % (t, vf.show(c.pos), vf.show(c.size)))
        r.same(S, p, z, 'a query')
        r.rep.ok('query', None)
        r.inv(S)
    return spec


def getpos(r, S, kind, p, z, ret):
    c = r.case
    if not noexc(r, S, kind):
        return
    k = ret[0][0] if ret is not None and len(ret) == 1 else ()
    while k[:1] == ('ins',) and k[1] and k[1][0][0][:1] == ('ins',):
        break
    ro, off = field(ret, 0), field(ret, 1)
    if off is None or not r.eq(S, off, c.pos):
        r.bad('position', 'getpos', 'the position is reported as %s instead of %s' % ('?' if off is None else vf.show(off), vf.show(c.pos)))
    b = r.div(S, c.pos, BS)
    if b is None:
        raise build.Broken('no block for %s' % vf.show(c.pos))
    want = r.off(S, b) if c.comp else ()
    if ro != want:
        r.bad('offset', 'getpos', 'block %s is reported to be at %s' % (vf.show(b), '?' if ro is None else vf.show(ro)))
    r.same(S, p, z, 'get_position')
    r.inv(S)


def field(v, i):
    """member i of a returned structure"""
    while v is not None and len(v) == 1 and v[0][1] == 1:
        k = v[0][0]
        if k[0] == 'agg':
            return k[1][i] if i < len(k[1]) else None
        if k[0] != 'ins':
            return None
        if k[3] == (i,):
            return k[2]
        v = k[1]
    return None


def setpos(r, S, kind, p, z, ret):
    c = r.case
    if c.arg == 'end':
        want = c.size
    elif c.arg in ('beyond', 'notzero'):
        if kind == 'ret' or S.exc != SEX:
            r.bad('end', 'range', 'accepts a position %s' % ('outside the stream' if c.arg == 'beyond' else 'of a compressed stream'))
        r.same(S, p, z, 'a refused position')
        r.inv(S)
        return
    else:
        want = c.arg
    if not noexc(r, S, kind):
        return
    if not r.eq(S, p, want):
        r.bad('position', 'seek', 'seeks to %s instead of %s' % (vf.show(p), vf.show(want)))
    r.same(S, p, z, 'set_position', False)
    if S.q.acc:
        r.bad('place', 'seek', 'set_position accesses items')
    r.inv(S)


def trunc(bypos):
    def spec(r, S, kind, p, z, ret):
        c = r.case
        n = c.arg
        cuts = [e for e in S.q.ev if e[0] in ('trunc', 'truncb')]
        if kind != 'ret':
            if S.exc == SEX and c.comp and not bypos and n != () and not r.eq(S, n, c.size):
                r.same(S, p, z, 'a refused truncation')
                r.inv(S)
            else:
                r.bad('end', 'throws', 'throws %s' % S.exc)
            return
        if c.comp and not bypos and not r.eq(S, n, ()) and not r.eq(S, n, c.size):
            r.bad('end', 'arbitrary', 'a compressed stream is truncated to an arbitrary size')
            return
        if not r.eq(S, z, n):
            r.bad('size', 'trunc', 'the size becomes %s instead of %s' % (vf.show(z), vf.show(n)))
        lo = r.ge(S, add(n, c.pos, -1))
        hi = r.ge(S, add(c.pos, n, -1))
        if not (lo and r.eq(S, p, c.pos) or hi and r.eq(S, p, n)):
            r.bad('position', 'trunc', 'the position becomes %s when %s is truncated to %s at %s' % (vf.show(p), vf.show(c.size), vf.show(n), vf.show(c.pos)))
        for e in cuts:
            if e[0] == 'trunc' and not r.eq(S, e[1], n):
                r.bad('size', 'cut', 'the file is truncated to %s items instead of %s' % (vf.show(e[1]), vf.show(n)))
            if e[0] == 'truncb' and not r.eq(S, prod(e[1], BS), n):
                r.bad('size', 'cut', 'the file is truncated after %s blocks instead of %s items' % (vf.show(e[1]), vf.show(n)))
        if c.temp and cuts:
            after = S.q.ev[S.q.ev.index(cuts[-1]) + 1:]
            if ('recorded', True) not in after:
                r.bad('recorded', 'trunc', 'the size of the temporary file is not recorded after truncating')
            r.rep.ok('recorded', None)
        elif any(e[0] == 'recorded' for e in S.q.ev) and not c.temp:
            r.bad('recorded', 'notemp', 'records the size of a temporary file that does not exist')
        if not c.comp and not cuts and not r.eq(S, n, c.size) and not (c.held is not None and r.eq(S, c.held, c.nsb) and r.ge(S, add(n, prod(c.nsb, BS), -1))):
            r.bad('size', 'nocut', 'the file is not truncated')
        r.inv(S)
    return spec


def closer(r, S, kind, p, z, ret):
    c = r.case
    if not noexc(r, S, kind):
        return
    ev = S.q.ev
    if not c.closed:
        if [e[0] for e in ev][-1:] != ['close'] or ('set_size', c.size) not in ev:
            r.bad('size', 'header', 'the file is not closed with its size recorded (%s)' % ', '.join(e[0] for e in ev))
        if c.comp:
            lb = [e[1] for e in ev if e[0] == 'set_last_block_read_offset']
            nsb = r.get(S, 'nsb')
            want = r.off(S, add(nsb, C(-1))) if r.ge(S, nsb, 1) else ()
            if lb != [want]:
                r.bad('offset', 'header', 'the last block is recorded to be at %s instead of %s' % (', '.join(vf.show(x) for x in lb), vf.show(want)))
            if c.q.unsaved is not None and S.q.lost is None and not r.ge(S, mul(add(c.size, prod(nsb, BS), -1), -1)):
                r.bad('size', 'blocks', 'closed with %s blocks' % vf.show(nsb))
        if S.q.unsaved is not None or S.q.lost is not None:
            r.bad('lost', 'close', 'the modified block is not written when the stream is closed')
        if S.q.pend is not None or S.q.cached is not None:
            r.bad('lost', 'pending', 'the stream is closed before its requests are done')
    elif ev:
        r.bad('lost', 'again', 'closing a closed stream uses the file')
    isclosed(r, S)


def destroyer(r, S, kind, p, z, ret):
    if not noexc(r, S, kind):
        return
    ev = [e[0] for e in S.q.ev]
    if 'closed' not in ev and not r.case.closed:
        r.bad('lost', 'destroy', 'an open stream is destroyed without being closed')
    if ev.count('freed') != 1 or 'closed' in ev[ev.index('freed'):]:
        r.bad('lost', 'state', 'the state of the stream is freed %d times or before it is closed' % ev.count('freed'))


def constructor(r, S, kind, p, z, ret):
    if kind != 'ret':
        return
    isclosed(r, S)
    g = lambda k: r.get(S, k)
    if g('p') != L(PI) or g('o') != L(THIS) or const(g('is')) != ITEM or g('owned') != ():
        r.bad('lost', 'fields', 'a new stream is not set up')
    b, z = g('bs'), g('bsz')
    if not r.eq(S, b, L(('op', 'udiv', z, C(ITEM)))):
        r.bad('place', 'blocks', 'a block of %s bytes is taken to have %s items' % (vf.show(z), vf.show(b)))


def opener(how):
    def spec(r, S, kind, p, z, ret):
        c = r.case
        if not S.q.ev or S.q.ev[0] != ('closed',):
            r.bad('lost', 'reopen', 'another file is opened before the stream is closed')
        if kind != 'ret':
            for k in ('open', 'buf', 'cr', 'cw', 'dirty'):
                if const(r.get(S, k)) != 0:
                    r.bad('buffer', 'failopen:' + k, 'a stream that could not be opened is left in a wrong state (%s)' % k)
            return
        if p != ():
            r.bad('position', 'open', 'a stream is opened at %s' % vf.show(p))
        if not r.eq(S, z, c.size):
            r.bad('size', 'open', 'a stream is opened with size %s' % vf.show(z))
        o = [e for e in S.q.ev if e[0] == 'open' and e[1:2] != ('failed',)]
        if len(o) != 1:
            r.bad('buffer', 'opens', 'the file is opened %d times' % len(o))
        else:
            a = o[0][1:]
            if const(a[3]) != ITEM or a[4] != BSZ:
                r.bad('buffer', 'sizes', 'the file is opened for items of %s in blocks of %s bytes' % (vf.show(a[3]), vf.show(a[4])))
        if c.comp and S.q.rb is not None:
            r.bad('offset', 'old', 'what is known about the blocks of the file that was open before is kept')
        if (const(r.get(S, 'temp')) == 0) != (how == 'path'):
            r.bad('recorded', 'open', 'the temporary file of the stream is %s' % vf.show(r.get(S, 'temp')))
        r.inv(S)
    return spec


def userdata(name):
    def spec(r, S, kind, p, z, ret):
        if not noexc(r, S, kind):
            return
        if sum(e[0] == name for e in S.q.ev) != 1:
            r.bad('request', 'userdata', 'the user data is accessed %d times' % sum(e[0] == name for e in S.q.ev))
        r.same(S, p, z, name)
        r.inv(S)
    return spec


OPS = {
    'read': (reader(1, 0), 0), 'peek': (reader(0, 0), 0), 'skip': (reader(1, None), 0), 'read_back': (reader_back(1), 0), 'skip_back': (reader_back(0), 0), 'write': (writer, 0),
    'seek_b': (seeker(lambda c, a: a), 0), 'seek_c': (seeker(lambda c, a: add(c.pos, a)), 0), 'seek_e': (seeker(lambda c, a: add(c.size, a)), 0),
    'offset': (value('offset'), 0), 'size': (value('size'), 0), 'can_read': (value('can_read'), 0), 'can_read_back': (value('can_read_back'), 0),
    'get_position': (getpos, 0), 'set_position': (setpos, 1), 'truncate': (trunc(0), 1), 'truncate_pos': (trunc(1), 1), 'close': (closer, 0),
    'read_user_data': (userdata('read_user_data'), 0), 'write_user_data': (userdata('write_user_data'), 0),
    'destroy': (destroyer, 0), 'construct': (constructor, 0), 'open': (opener('path'), 0), 'open_temp': (opener('temp'), 0), 'open_anon': (opener('anon'), 0),
}
LEVEL = 'other'


def fcases(op, comp):
    if op.startswith('open'):
        out = []
        for z in (0, 1):
            for part in (0, 1):
                c = closed_case(comp)
                c.closed = False
                zb = add(C(z), L(('ZB',))) if z else ()
                pm = L(('PM',))
                c.facts = c.facts + ([add(pm, C(-1)), lt(pm, BS)] if part else [])
                c.size = add(prod(zb, BS), pm) if part else prod(zb, BS)
                c.nsb = nxt(zb) if part else zb
                c.q = c.q._replace(fe=c.nsb if comp else None, rb=L(('OLD',)) if comp else None)
                c.name = 'a file of %s items' % vf.show(c.size)
                out.append(c)
        return out
    if op == 'construct':
        c = closed_case(comp)
        c.mem = {}
        return [c] if comp else []
    spec, arg = OPS[op]
    out = []
    if op == 'truncate_pos' and not comp or op in ('truncate', 'close'):
        temps = (0, 1)
    else:
        temps = (1,) if arg and 'trunc' in op else (0,)
    for t in temps:
        cs = cases(comp, arg, t, caches=not arg)
        if op == 'truncate':
            # sizes: the positions, and zero
            cs += [add_arg(c, ()) for c in cases(comp, 0, t)]
        out += cs
    if op == 'truncate_pos':
        out += [add_arg(c, ()) for c in cases(comp, 0, 1)]
    if op == 'set_position':
        b = cases(comp, 0, 0)
        out += [add_arg(c, 'end') for c in b] + [add_arg(c, 'beyond') for c in b] + ([add_arg(c, 'notzero') for c in b] if not comp else [])
    if op in ('read', 'peek', 'skip', 'read_back', 'skip_back', 'write', 'close', 'destroy'):
        c = closed_case(comp)
        out.append(c)
    return out


def add_arg(c, a):
    c = copy.copy(c)
    c.arg = a
    c.argblock = ()
    c.name += ', argument %s' % (a if isinstance(a, str) else vf.show(a))
    return c


def inits(f, op, c, lay):
    s = vf.S(c.q)
    for k, v in c.mem.items():
        s.mem[lay.c[k]] = v
    if c.held is not None:
        s.mem[(('buf', 0), lay.b['el'])] = L(('mem', 0))
        s.mem[(('buf', 0), lay.b['bstate'])] = C(3)
    ret = 1 if f.d.get('sret') else 0
    s.env[('arg', 0)] = L(THIS)
    if op.startswith('seek'):
        s.env[('arg', 1)] = L(SIGNED)
    elif op == 'truncate':
        s.env[('arg', 1)] = c.arg
    elif op in ('truncate_pos', 'set_position'):
        s.env[('arg', 1)] = L(POS)
        a = c.arg
        if a == 'end':
            ro, off = END_POS
        elif a == 'beyond':
            ro, off = (OFF(nxt(c.nsb)) if c.comp else ()), add(add(c.size, C(1)), L(('Y',)))
        elif a == 'notzero':
            ro, off = add(C(1), L(('Y',))), ()
        else:
            ro, off = (OFF(c.argblock) if c.comp else ()), a
        s.mem[(POS, lay.pos[0])] = ro
        s.mem[(POS, lay.pos[1])] = off
    elif op == 'open_temp':
        s.env[('arg', 1)] = L(('temp',))
    return s


END_POS = (C(-1), C(-1))


def work(rep, mod, lay, op, comp, part, parts):
    f = one(mod, r'\bw_cs_%s\(' % op)
    fns = {'seek': one(mod, r'^tpie::compressed_stream_base::seek\(') if op != 'close' else None}
    n = st = 0
    for i, c in enumerate(fcases(op, comp)):
        if i % parts != part:
            continue
        r = R(rep, lay, c, op, OPS[op][0], fns)
        V = vf.VF(f, r, [inits(f, op, c, lay)])
        n += 1
        st += V.nstates
        if not r.nret and not rep.out:
            r.vf = V
            r.bad('wait', 'forever', 'the operation never comes back')
    return n, st


def run_op(a):
    """worker process"""
    op, comp, part, parts = a
    rep, mod, lay = _G
    rep.obl, rep.viol, rep.details, rep.funcs = {}, [], [], set()
    rep.out = 0
    try:
        n, st = work(rep, mod, lay, op, comp, part, parts)
    except build.Broken as e:
        return a, 0, 0, {}, [], str(e)
    return a, n, st, rep.obl, rep.viol, None


_G = None


def check(rep, only=None, tier='quick'):
    global _G, END_POS
    import multiprocessing
    import time
    rep.expl = ('Every public operation of file_stream<T> is followed from every state its representation invariant allows, down to the requests it makes to the compressor thread; '
                'the thread, the buffer manager and the file are represented by their contracts.  No code of the repository is run.')
    rep.rule('position', 'every operation moves the position as specified and only so')
    rep.rule('size', 'every operation changes the size as specified and only so; the file has the blocks counted')
    rep.rule('place', 'items are read from and written to the place in the buffer that belongs to the position, within a buffer that is held and filled')
    rep.rule('end', 'reading at either end throws end_of_stream_exception; what is refused is refused with stream_exception, and nothing else throws')
    rep.rule('cheap', 'reads and writes without checks are only counted where a check would succeed')
    rep.rule('request', 'requests are for the block held, with its number, size and place in the file, and in an order that preserves the file')
    rep.rule('wait', 'waits are for something that happens, with the lock of the compressor thread held once')
    rep.rule('buffer', 'the buffer, its block and the number of blocks agree after every operation')
    rep.rule('offset', 'the places in the file kept for the current, the next and the last block are theirs')
    rep.rule('lost', 'no modified block is dropped, closed or forgotten without having been written')
    rep.rule('recorded', 'the size of a temporary file is recorded after truncating')
    rep.rule('query', 'queries answer according to position and size')
    rep.assumptions += ['The compressor thread processes the requests of a stream in order and without I/O failures (C01-C03, F09 and F10 cover the thread and the files).',
                        'The state of the stream is one its operations produce; positions given to set_position and truncate were obtained from get_position of the same stream and are still valid.',
                        'Items are 24 bytes; nothing in the analysed code depends on the size but through sizeof.']
    mod = load([build.tu('fstream.cpp'), build.lib('compressed/stream_base.cpp')], [r'^(\w+[ :\w]*)? ?w_cs_\w+\(', r'^tpie::compressed_stream_base::seek\('], preserve=PRES, nothrow=NOTHROW)
    mod2 = load([build.tu('fstream.cpp'), build.lib('compressed/stream_base.cpp')], [r'^(\w+[ :\w]*)? ?w_cs_(close|construct|destroy|end_position)\('], preserve=PRES[1:], nothrow=NOTHROW)
    lay = Lay(mod)
    got = []

    class E(vf.Rule):
        def exit(self, S, I, kind, ret):
            got.append((field(ret, 0), field(ret, 1)))
    vf.VF(one(mod2, r'\bw_cs_end_position\('), E(), [vf.S(())])
    if len(got) != 1 or None in got[0]:
        raise build.Broken('stream_position::end() is not found')
    END_POS = got[0]
    tasks = []
    for op in OPS:
        if only and op not in only:
            continue
        rep.fn(one(mod2 if op == 'close' else mod, r'\bw_cs_%s\(' % op))
        for comp in (0, 1):
            n = len(fcases(op, comp))
            parts = max(1, n // 400)
            tasks += [(n // parts, (op, comp, i, parts)) for i in range(parts)]
    tasks = [t for t in tasks if t[0]]
    tasks.sort(key=lambda t: -t[0])
    rep.out = 0
    total = {}
    for group, m in (([t for _, t in tasks if t[0] == 'close'], mod2), ([t for _, t in tasks if t[0] != 'close'], mod)):
        if not group:
            continue
        _G = (copy.copy(rep), m, lay)
        with multiprocessing.get_context('fork').Pool(min(8, len(group))) as pool:
            for a, n, st, obl, viol, broken in pool.imap_unordered(run_op, group):
                if broken:
                    raise build.Broken(broken)
                t = total.setdefault((a[0], a[1]), [0, 0])
                t[0] += n
                t[1] += st
                for k, v in obl.items():
                    rep.obl[k] = rep.obl.get(k, 0) + v
                for v in viol:
                    if not any(x['key'] == v['key'] for x in rep.viol):
                        rep.viol.append(v)
    for (op, comp), (n, st) in sorted(total.items()):
        rep.details.append('%s (%scompressed): %d states, %d block visits' % (op, '' if comp else 'un', n, st))
    if not only:
        for r, n in (('position', 5000), ('request', 1000), ('buffer', 5000), ('place', 500), ('offset', 2000), ('cheap', 5000), ('query', 500), ('recorded', 100)):
            rep.need(r, n)
