"""Short transfers are continued, failed system calls are reported."""
import re
import build, ir, flow
from ir import lin, linkey, linstr, _ladd, _lmul
from common import load, one, throw_type

IO = 'tpie::io_exception'
SPACE = 'tpie::out_of_space_exception'
SYS = {'read': 1, 'write': 1, 'lseek': 0, 'lseek64': 0, 'fstat': 0, 'fstat64': 0, '__fxstat': 0, '__fxstat64': 0, 'ftruncate': 0, 'ftruncate64': 0,
       'open': 0, 'open64': 0, 'openat': 0, 'openat64': 0, 'creat': 0, 'close': 0, 'pread': 1, 'pread64': 1, 'pwrite': 1, 'pwrite64': 1,
       'fsync': 0, 'fdatasync': 0}
ENOSPC, ENOENT, OTHER = 28, 2, 5


def cmp_iv(p, lo, hi, clo, chi):
    """decide a comparison of two intervals, None if undecided (None bound = infinite)"""
    lt = hi is not None and clo is not None and hi < clo
    le = hi is not None and clo is not None and hi <= clo
    gt = lo is not None and chi is not None and lo > chi
    ge = lo is not None and chi is not None and lo >= chi
    eq = lo is not None and lo == hi == clo == chi
    if p in ('ult', 'slt'):
        return 1 if lt else 0 if ge else None
    if p in ('ule', 'sle'):
        return 1 if le else 0 if gt else None
    if p in ('ugt', 'sgt'):
        return 1 if gt else 0 if le else None
    if p in ('uge', 'sge'):
        return 1 if ge else 0 if lt else None
    if p == 'eq':
        return 1 if eq else 0 if lt or gt else None
    if p == 'ne':
        return 0 if eq else 1 if lt or gt else None
    return None


class Transfer:
    """one function moving `size` bytes between `data` and a file"""

    def __init__(self, rep, f, call, data, size, label):
        self.rep, self.f, self.call, self.label = rep, f, call, label
        calls = [I for I in f.insts() if I.iscall and I.short == call]
        if not calls:
            rep.fail('transfer', label + ':none', '%s never calls %s' % (label, call))
            return
        self.forms = [(linkey(lin(f, I.a[1])), linkey(lin(f, I.a[2]))) for I in calls]
        self.n = 0
        init = []
        for sign in ('zero', 'pos'):
            init.append((linkey({('arg', data): 1}), linkey({('arg', size): 1}), sign, None, None, OTHER))
        # Pos form, Remaining form, sign of remaining, last call id, outcome, errno
        self.E = flow.Explore(f, init, self.step, on_exit=self.exit, edge=self.edge, decide=self.decide, excl=self.excl)
        rep.ok('transfer', '%s: %d exits' % (label, self.n), n=max(1, self.n))
        if not self.n:
            raise build.Broken('no exit of ' + label)

    def bad(self, tag, I, text):
        self.rep.fail('transfer', '%s:%s' % (self.label, tag), '%s: %s at %s' % (self.label, text, I.where()), self.E.trace() if hasattr(self, 'E') else [])

    def rleaf(self, I):
        return self.f.expr({'k': 'i', 'i': I.id})

    def step(self, st, I):
        pos, rem, sign, last, out, eno = st
        if I.iscall and I.short == self.call:
            p, n = linkey(lin(self.f, I.a[1])), linkey(lin(self.f, I.a[2]))
            if out == 'err':
                self.bad('retry', I, 'continues after %s reported an error' % self.call)
            if out == 'eof':
                self.bad('spin', I, 'calls %s again after it made no progress' % self.call)
            if p != pos:
                self.bad('pos', I, 'transfers to/from %s where the unfinished part starts at %s' % (linstr(p), linstr(pos)))
            if n != rem:
                self.bad('len', I, 'transfers %s bytes where %s remain' % (linstr(n), linstr(rem)))
            r = {self.rleaf(I): 1}
            np, nr = linkey(_ladd(dict(p), r, 1)), linkey(_ladd(dict(n), r, -1))
            base = (np, nr)
            if sign == 'zero':
                return [base + ('zero', I.id, 'zero', OTHER), (pos, rem, sign, I.id, 'err', ENOSPC), (pos, rem, sign, I.id, 'err', OTHER)]
            eof = [] if self.call in ('write', 'pwrite', 'pwrite64') else [(pos, rem, sign, I.id, 'eof', OTHER)]
            return eof + [base + ('pos', I.id, 'part', OTHER), base + ('zero', I.id, 'full', OTHER),
                    (pos, rem, sign, I.id, 'err', ENOSPC), (pos, rem, sign, I.id, 'err', OTHER)]
        return [st]

    def edge(self, st, B, succ):
        pos, rem, sign, last, out, eno = st
        S = self.f.blocks[succ]
        ph = {}
        for I in S.insts:
            if I.op != 'phi':
                break
            for o, b in zip(I.a, I.d['in']):
                if b == B.id:
                    ph[('phi', I.id)] = lin(self.f, o)
        if not ph:
            return st
        for p, n in self.forms:
            if not (set(dict(p)) | set(dict(n))) & set(ph):
                continue
            if linkey(subst(dict(p), ph)) == pos and linkey(subst(dict(n), ph)) == rem:
                return (p, n, sign, last, out, eno)
        return st

    def decide(self, st, o, I):
        if I is None:
            return None
        pos, rem, sign, last, out, eno = st
        if I.op == 'load':
            r, off = self.f.addr(I.a[0])
            if r[0] == 'call' and self.f.inst[r[1]].short == '__errno_location':
                return eno
            return None
        if last is not None and I.id == last:
            return {'err': -1, 'eof': 0, 'zero': 0}.get(out)
        if I.op == 'icmp':
            d = _ladd(lin(self.f, I.a[0]), lin(self.f, I.a[1]), -1)
            p = I.d['pred']
            for form, iv in self.values(st):
                for k in (1, -1):
                    rest = _ladd(d, _lmul(form, k), -1)
                    if set(rest) <= {()}:
                        c = rest.get((), 0)
                        lo, hi = iv
                        if k == -1:
                            lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
                        lo = None if lo is None else lo + c
                        hi = None if hi is None else hi + c
                        v = cmp_iv(p, lo, hi, 0, 0)
                        if v is not None:
                            return v
        return None

    def excl(self, st, o, v):
        """a transferred byte count is neither zero nor negative"""
        return o.get('k') == 'i' and o['i'] == st[3] and st[4] in ('part', 'full') and v <= 0

    def values(self, st):
        pos, rem, sign, last, out, eno = st
        yield dict(rem), ((0, 0) if sign == 'zero' else (1, None))
        if last is not None:
            r = {self.rleaf(self.f.inst[last]): 1}
            yield lin(self.f, self.f.inst[last].a[2]), ((0, 0) if out == 'zero' else (1, None) if out != 'err' else (0, None))
            yield r, {'err': (-1, -1), 'eof': (0, 0), 'zero': (0, 0)}.get(out, (1, None))

    def exit(self, st, I, kind):
        pos, rem, sign, last, out, eno = st
        self.n += 1
        if kind == 'ret':
            if out == 'err':
                self.bad('ignored', I, 'returns although %s failed' % self.call)
            elif sign != 'zero':
                self.bad('short', I, 'returns although only a part was transferred')
        elif I.iscall or I.op == 'resume':
            if out not in ('err', 'eof'):
                self.bad('spurious', I, 'fails although nothing went wrong')


def subst(l, ph):
    r = {}
    for k, v in l.items():
        r = _ladd(r, _lmul(ph[k], v) if k in ph else {k: v}, 1)
    return r


def syscalls(rep, f, label, allowed):
    """every system call outcome -1 ends in an exception of the right type.
    allowed: {(syscall, errno): return value}"""
    holder = {'n': 0, 't': 0}

    def bad(tag, I, text):
        rep.fail('reported', '%s:%s' % (label, tag), '%s: %s at %s' % (label, text, I.where()), holder['E'].trace() if 'E' in holder else [])

    # state: id of failed call, errno, thrown type, successful ids
    def step(st, I):
        failed, eno, typ, okid = st
        if I.iscall and I.short in SYS:
            if failed is not None and f.inst[failed].short not in ('close',) and I.short != 'close':
                bad('continue:' + I.short, I, 'goes on with %s after %s failed' % (I.short, f.inst[failed].short))
            holder['n'] += 1
            if failed is not None:
                return [st]
            return [(None, 0, typ, I.id)] + [(I.id, e, typ, None) for e in (ENOSPC, ENOENT, OTHER)]
        if I.iscall and I.short == '__cxa_throw':
            t = throw_type(I)
            return [(failed, eno, t, okid)]
        return [st]

    def exc(st, I):
        if I.short == '__cxa_throw':
            return [(st[0], st[1], throw_type(I), st[3])]
        return [st]

    def decide(st, o, I):
        if I is None:
            return None
        failed, eno, typ, okid = st
        if I.id == failed:
            return -1
        if I.op == 'load':
            r, off = f.addr(I.a[0])
            if failed is not None and r[0] == 'call' and f.inst[r[1]].short == '__errno_location':
                return eno
            # a descriptor field holding the result just stored
            if failed is not None and f.inst[failed].short in ('open', 'open64') and f.load_field(I) == 'tpie::file_accessor::posix::m_fd':
                return -1
            return None
        if I.op == 'icmp' and I.a[1].get('k') == 'int' and I.a[0].get('k') == 'i' and I.a[0]['i'] == okid:
            return cmp_iv(I.d['pred'], 0, None, I.a[1]['v'], I.a[1]['v'])
        return None

    def exit(st, I, kind):
        failed, eno, typ, okid = st
        if failed is None:
            return
        holder['t'] += 1
        s = f.inst[failed].short
        if kind == 'ret':
            if (s, eno) in allowed:
                v = holder['E'].val(st, I.a[0]) if I.a else None
                if v == allowed[(s, eno)]:
                    return
            bad('ignored:' + s, f.inst[failed], 'a failing %s is not reported' % s)
        else:
            if (s, eno) in allowed:
                bad('refused:' + s, I, 'a missing file is an error here instead of being reported by the result')
            want = SPACE if eno == ENOSPC else IO
            if typ is not None and typ != want:
                bad('type:%s:%d' % (s, eno), f.inst[failed], '%s failing with %s throws %s instead of %s' % (s, 'ENOSPC' if eno == ENOSPC else 'another error', typ, want))
            elif typ is None and s != 'close':
                bad('notype:%s' % s, I, '%s failing leads to some other exception' % s)
    flow.Explore(f, [(None, 0, None, None)], step, on_exit=exit, exc=exc, decide=decide, holder=holder,
                 excl=lambda st, o, v: o.get('k') == 'i' and o['i'] == st[3] and v < 0)
    rep.ok('reported', '%s: %d failing calls followed to %d exits' % (label, holder['n'], holder['t']), n=holder['n'])
    return holder['n']


def check(rep):
    rep.expl = ('The outcomes of every system call are forked (failed with ENOSPC or another error, no progress, partial, complete) and followed on all paths. '
                'The part still to be transferred is tracked as an affine form and re-established across the loop, so each call has to continue exactly where the last one stopped.')
    rep.rule('transfer', 'each call transfers the whole unfinished part (position and length are affine in what was transferred), a normal return needs nothing unfinished, '
             'a call that makes no progress or fails ends in an exception')
    rep.assumptions = ['write() of a positive number of bytes to a file does not return 0']
    rep.rule('reported', 'a failing system call always ends in an exception: out_of_space_exception for ENOSPC and io_exception otherwise; only a file missing in try_open_rw is reported by the result')
    src = build.tu('accessor.cpp')
    mod = load([src], [r'^(\w+ )?w_raw_\w+\('], preserve=[r'tpie::get_file_manager', r'resource_manager::register_', r'tpie::increment_bytes', r'^tpie::file_manager::(?!incr|decr)'],
               nothrow=[r'tpie::increment_bytes', r'tpie::get_file_manager', r'register_decreased_usage'])
    total = 0
    for name, label, call in (('w_raw_read', 'read_i', 'read'), ('w_raw_write', 'write_i', 'write')):
        f = one(mod, r'\b%s\(' % name)
        rep.fn(f)
        Transfer(rep, f, call, 1, 2, label)
    for name, label, allowed in (('w_raw_read', 'read_i', {}), ('w_raw_write', 'write_i', {}), ('w_raw_seek', 'seek_i', {}), ('w_raw_size', 'file_size_i', {}),
                                 ('w_raw_truncate', 'truncate_i', {}), ('w_raw_open_ro', 'open_ro', {}), ('w_raw_open_wo', 'open_wo', {}),
                                 ('w_raw_open_rw', 'open_rw_new', {}), ('w_raw_try_rw', 'try_open_rw', {('open', ENOENT): 0, ('open64', ENOENT): 0}), ('w_raw_close', 'close_i', {})):
        f = one(mod, r'\b%s\(' % name)
        rep.fn(f)
        if syscalls(rep, f, label, allowed) == 0:
            rep.fail('reported', label + ':none', '%s performs no system call' % label)
    rep.need('transfer', 4)
    rep.need('reported', 10)


LEVEL = 'other'
