"""File descriptor lifecycle and open file accounting."""
import build, ir, flow
from ir import lin
from common import load, one

INC = 'tpie::resource_manager::register_increased_usage'
DEC = 'tpie::resource_manager::register_decreased_usage'
OPEN = ('open', 'open64', 'openat', 'openat64', 'creat', 'creat64')
FD = 'tpie::file_accessor::posix::m_fd'
# the descriptor held on entry, and one opened here (any number from 0 on)
NUMBERS = ((1000, 2000), (0, 1), (1, 0))


class Desc:
    """finite-state exploration: where each descriptor is and how often it is counted"""

    def __init__(self, rep, f, start, label, expect, F0, NEW):
        self.NEW = NEW
        self.rep, self.f, self.label, self.expect = rep, f, label, expect
        self.n = 0
        # field value, live descriptors, counted, env of SSA tokens, return token
        st = (F0 if start == 'open' else -1, frozenset([F0] if start == 'open' else []), 1 if start == 'open' else 0, frozenset())
        self.start = start
        self.H = {}
        self.E = flow.Explore(f, [st], self.step, on_exit=self.exit, exc=self.exc, throws=self.throws, decide=self.decide, holder=self.H)

    def throws(self, I):
        if I.short in (DEC, 'tpie::get_file_manager'):
            return False
        return flow.may_throw(I)

    def exc(self, st, I):
        return [st]

    def tok(self, st, o):
        if o.get('k') == 'int':
            return o['v']
        if o.get('k') == 'i':
            for k, v in st[3]:
                if k == o['i']:
                    return v
            return self.H['E'].val(st, o)
        return None

    def decide(self, st, o, I):
        if I is None:
            return None
        for k, v in st[3]:
            if k == I.id:
                return v
        return None

    def bind(self, st, I, v):
        fld, live, cnt, env = st
        return (fld, live, cnt, frozenset(x for x in env if x[0] != I.id) | {(I.id, v)})

    def bad(self, tag, I, text):
        self.rep.fail('descriptor', '%s:%s:%s' % (self.label, self.start, tag), '%s (file %s on entry): %s at %s' % (self.label, self.start, text, I.where()), self.H['E'].trace())

    def step(self, st, I):
        fld, live, cnt, env = st
        f = self.f
        if I.op == 'load' and f.load_field(I) == FD:
            return [self.bind(st, I, fld)]
        if I.op == 'phi':
            return [st]
        if I.op == 'store' and f.store_field(I) == FD:
            v = self.tok(st, I.a[0])
            if v is None:
                self.bad('store', I, 'stores an unknown value as file descriptor')
                v = -1
            if fld != -1 and fld in live and v != fld:
                # overwritten while open: only fine if it is closed through another copy later
                pass
            return [(v, live, cnt, env)]
        if I.iscall:
            s = I.short
            if s in OPEN:
                ok = self.bind(st, I, self.NEW)
                ok = (ok[0], ok[1] | {self.NEW}, ok[2], ok[3])
                return [self.bind(st, I, -1), ok]
            if s == 'close':
                v = self.tok(st, I.a[0])
                if v is None or v not in live:
                    self.bad('close', I, 'closes %s' % ('an unknown descriptor' if v is None else 'a descriptor that is not open'))
                    return [self.bind(st, I, 0)]
                st = (fld, live - {v}, cnt, env)
                return [self.bind(st, I, 0), self.bind(st, I, -1)]
            if s == INC or s == DEC:
                l = lin(f, I.a[1])
                d = l.get((), None) if set(l) <= {()} else None
                if d is None:
                    self.bad('amount', I, 'open file count changes by a variable amount')
                    d = 0
                return [(fld, live, cnt + (d if s == INC else -d), env)]
        return [st]

    def exit(self, st, I, kind):
        fld, live, cnt, env = st
        self.n += 1
        if live - {fld}:
            self.bad('leak:' + kind, I, 'an open descriptor is lost (%s exit)' % ('normal' if kind == 'ret' else 'exceptional'))
        if fld != -1 and fld not in live:
            self.bad('stale:' + kind, I, 'keeps a descriptor that is closed (%s exit)' % ('normal' if kind == 'ret' else 'exceptional'))
        if cnt != len(live):
            self.bad('count:' + kind, I, '%d open file(s) but the open file count says %d (%s exit)' % (len(live), cnt, 'normal' if kind == 'ret' else 'exceptional'))
        want = self.expect.get(kind)
        isopen = fld != -1
        if kind == 'ret' and want == 'result':
            v = self.E_value(st, I)
            if v is None or bool(v) != isopen:
                self.bad('result', I, 'returns %s although the file is %s' % (v, 'open' if isopen else 'not open'))
        elif want == 'open' and not isopen or want == 'closed' and isopen:
            self.bad('state:' + kind, I, 'file is %s after a%s exit' % ('open' if isopen else 'not open', ' normal' if kind == 'ret' else 'n exceptional'))

    def E_value(self, st, I):
        return self.H['E'].val(st, I.a[0])


def check(rep):
    rep.expl = ('Typestate analysis of the descriptor owner: every method is explored on all paths with the outcomes of open/close and of the open file '
                'accounting forked; at every exit the descriptor field, the set of open descriptors and the count have to agree.')
    rep.rule('descriptor', 'field == -1 and nothing open and not counted, or field is the one open descriptor and it is counted once; opening ends open on '
             'success and closed on failure, closing ends closed; no descriptor is closed twice or lost')
    rep.rule('stream-open', 'opening a stream first closes the one that is open; a failed open leaves no file open; a successful one leaves it marked open')
    rep.assumptions = ['removing one from the open file count does not throw']
    src = build.tu('accessor.cpp')
    mod = load([src], [r'^(\w+ )?w_(raw|st|by)_\w+\('], preserve=[r'tpie::get_file_manager', r'resource_manager::register_', r'tpie::increment_bytes', r'^tpie::file_manager::(?!incr|decr)'])
    T = [('w_raw_open_ro', 'open_ro', ['closed'], {'ret': 'open', 'throw': 'closed'}),
         ('w_raw_open_wo', 'open_wo', ['closed'], {'ret': 'open', 'throw': 'closed'}),
         ('w_raw_open_rw', 'open_rw_new', ['closed'], {'ret': 'open', 'throw': 'closed'}),
         ('w_raw_try_rw', 'try_open_rw', ['closed'], {'ret': 'result', 'throw': 'closed'}),
         ('w_raw_close', 'close_i', ['closed', 'open'], {'ret': 'closed', 'throw': 'closed'}),
         ('w_raw_destroy', 'destructor', ['closed', 'open'], {'ret': 'closed'}),
         ('w_raw_read', 'read_i', ['open'], {'ret': 'open', 'throw': 'open'}),
         ('w_raw_write', 'write_i', ['open'], {'ret': 'open', 'throw': 'open'}),
         ('w_raw_seek', 'seek_i', ['open'], {'ret': 'open', 'throw': 'open'}),
         ('w_raw_truncate', 'truncate_i', ['open'], {'ret': 'open', 'throw': 'open'}),
         ('w_raw_size', 'file_size_i', ['open'], {'ret': 'open', 'throw': 'open'})]
    for name, label, starts, exp in T:
        f = one(mod, r'\b%s\(' % name)
        rep.fn(f)
        for s in starts:
            for a, b in NUMBERS:
                d = Desc(rep, f, s, label, exp, a, b)
                rep.ok('descriptor', '%s from %s: %d exits' % (label, s, d.n), n=max(1, d.n))
                if not d.n:
                    raise build.Broken('no exit explored in ' + name)
    # construction leaves the field closed
    f = one(mod, r'\bw_raw_construct\(')
    st = [I for I in f.insts() if I.op == 'store' and f.store_field(I) == FD]
    if not (len(st) == 1 and st[0].a[0].get('v') == -1):
        rep.fail('descriptor', 'ctor', 'a new accessor does not start without a descriptor')
    rep.ok('descriptor', 'constructor')
    stream(rep, build.tu('accessor.cpp'))
    rep.need('descriptor', 25)


RAW = r'tpie::file_accessor::posix::(open_ro|open_wo|open_rw_new|try_open_rw|close_i|read_i|write_i|seek_i|truncate_i|file_size_i)'
OPENF = 'tpie::file_accessor::stream_accessor_base::m_open'


def stream(rep, src):
    """stream_accessor_base: the raw file is open exactly while the stream is marked open."""
    mod = load([src], [r'^(\w+ )?w_(st|by)_(open|close)\('], preserve=[RAW])
    P = 'tpie::file_accessor::posix::'
    for f in mod.functions:
        rep.fn(f)
        isopen_fn = '_open(' in f.name
        for start in (0, 1):
            holder = {}

            def bad(tag, I, text):
                rep.fail('stream-open', '%s:%d:%s' % (f.short, start, tag), '%s (stream %s on entry): %s at %s' % (
                    'open' if isopen_fn else 'close', 'open' if start else 'closed', text, I.where()), holder['E'].trace() if 'E' in holder else [])

            # state: m_open, raw file open, env
            def decide(st, o, I):
                if I is None:
                    return None
                for k, v in st[2]:
                    if k == I.id:
                        return v
                return None

            def bind(st, I, v):
                return (st[0], st[1], frozenset(x for x in st[2] if x[0] != I.id) | {(I.id, v)})

            def step(st, I):
                m, raw, env = st
                if I.op == 'load' and f.load_field(I) == OPENF:
                    return [bind(st, I, m)]
                if I.op == 'store' and f.store_field(I) == OPENF:
                    v = holder['E'].val(st, I.a[0])
                    if v is None:
                        bad('store', I, 'open mark set to an unknown value')
                        v = 0
                    return [(v & 1, raw, env)]
                if I.iscall and I.short and I.short.startswith(P):
                    s = I.short[len(P):]
                    if s in ('open_ro', 'open_wo', 'open_rw_new', 'try_open_rw'):
                        if raw:
                            bad('reopen', I, 'opens a file while another one is still open')
                        if s == 'try_open_rw':
                            a = bind(st, I, 0)
                            b = bind((m, 1, env), I, 1)
                            return [a, b]
                        return [(m, 1, env)]
                    if s == 'close_i':
                        return [(m, 0, env)]
                    if not raw and s in ('read_i', 'write_i', 'seek_i', 'truncate_i'):
                        bad('use', I, '%s without an open file' % s)
                return [st]

            def exc(st, I):
                if I.iscall and I.short == P + 'close_i':
                    # the descriptor is gone even when closing reports an error
                    return [(st[0], 0, st[2] | {('closefail', 1)})]
                return [st]

            def on_exit(st, I, kind):
                m, raw, env = st
                holder['n'] = holder.get('n', 0) + 1
                if kind == 'ret':
                    if m != raw:
                        bad('mark', I, 'returns with the file %s but the stream marked %s' % ('open' if raw else 'closed', 'open' if m else 'closed'))
                    if isopen_fn and not raw:
                        bad('notopen', I, 'opening succeeds without an open file')
                    if not isopen_fn and raw:
                        bad('open', I, 'the file is still open after closing')
                else:
                    # a failed open leaves nothing open unless closing the previous stream failed
                    if isopen_fn and raw and not m:
                        bad('leak', I, 'a failed open leaves the file open')
                    if m and not raw and isopen_fn and ('closefail', 1) not in env:
                        bad('ghost', I, 'a failed open leaves the stream marked open')
            flow.Explore(f, [(start, start, frozenset())], step, on_exit=on_exit, exc=exc, decide=decide, holder=holder)
            rep.ok('stream-open', '%s entered %s: %d exits' % (f.short, 'open' if start else 'closed', holder.get('n', 0)), n=max(1, holder.get('n', 0)))
    rep.need('stream-open', 8)
