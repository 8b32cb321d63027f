"""Life of a temporary file: reference count, removal, usage statistics."""
import re
import build, vf
from vf import L, C, ZERO, add, mul, const, show, leaf1
from common import load, one
from strs import StrRule
from linfacts import LinRule

INC = 'tpie::increment_temp_file_usage'
THIS = ('arg', 0)


class R(StrRule, LinRule):
    """q: (removed texts, usage change, destroyed, freed)"""

    facts = ()

    def __init__(self, sink, path=0, persist=None, empty=None, exists=None, pflag=None):
        self.sink, self.path, self.persist, self.empty, self.exists, self.pflag = sink, path, persist, empty, exists, pflag

    def fs(self, S, I, name, args):
        n = S.copy()
        if name in ('exists', 'is_regular_file'):
            t = self.sval(S, args[0])
            n.env[I.id] = C(self.exists) if self.exists is not None and t == ('old', (THIS, self.path)) else L(('ret', name, I.id))
            return [('ret', n)]
        if name in ('remove', 'remove_all'):
            n.q = (n.q[0] + (self.sval(S, args[0]),),) + n.q[1:]
            return [('ret', n)]
        return None

    def call(self, S, I, args):
        s = I.short or ''
        if s == INC:
            n = S.copy()
            n.q = (n.q[0], add(n.q[1], args[0])) + n.q[2:]
            return [('ret', n)]
        if s in ('remove', 'unlink') and len(args) == 1:
            lf = leaf1(args[0])[0]
            n = S.copy()
            n.q = (n.q[0] + (lf[1] if lf and lf[0] == 'cstr' else ('?',),),) + n.q[1:]
            n.env[I.id] = L(('ret', s, I.id))
            return [('ret', n)]
        if s == 'tpie::tempname::tpie_name':
            n, t = S.copy(), S.copy()
            self.sset(n, args[0], ('name', I.id))
            t.exc = '?'
            return [('ret', n), ('throw', t)]
        if s == 'tpie::bits::temp_file_inner::~temp_file_inner':
            n = S.copy()
            n.q = n.q[:2] + (n.q[2] + (args[0],),) + n.q[3:]
            return [('ret', n)]
        if s == 'operator delete':
            n = S.copy()
            n.q = n.q[:3] + (n.q[3] + (args[0],),)
            return [('ret', n)]
        if s == 'std::terminate':
            return []
        return self.scall(S, I, args)

    def throws(self, I):
        return False

    def cond(self, S, pred, a, b, I):
        for x, y in ((a, b), (b, a)):
            if const(y) == 0:
                if x == L(THIS) and pred in ('eq', 'ne'):
                    return pred == 'ne'
                if len(x) == 1 and x[0][0] == ('slen', ('old', (THIS, self.path))) and self.empty == 0:
                    return {'eq': False, 'ne': True, 'ugt': True, 'ule': False}.get(pred)
        return LinRule.cond(self, S, pred, a, b, I)

    def is_empty(self, S, t):
        return self.empty if t == ('old', (THIS, self.path)) else None

    def exit(self, S, I, kind, ret):
        self.sink.append((S, kind, ret, self.vf.trace()))


def explore(rep, mod, name, rule=None, facts=None, mem=None, **kw):
    f = one(mod, r'\b%s(\[abi:cxx11\])?\(' % name)
    rep.fn(f)
    sink = []
    r = rule or R(sink, **kw)
    r.sink = sink
    s = vf.S(((), ZERO, (), ()), facts=dict(facts or {}), mem=dict(mem or {}))
    vf.VF(f, r, [s])
    if not any(x[1] == 'ret' for x in sink):
        raise build.Broken(name + ' never returns')
    return sink


def check(rep):
    rep.expl = ('The members of a temporary file object are identified by what their accessors read and write; constructor, destructor, reference counting and size recording are then followed '
                'for every combination of path empty, persistent and file existing, with paths as symbolic texts.')
    rep.rule('remove', 'destroying a temporary file removes exactly its own path if it has one, is not persistent and exists, and removes nothing otherwise')
    rep.rule('count', 'a new file object has reference count 0; taking a reference adds 1, releasing takes 1 off and destroys and frees the object exactly when none is left')
    rep.rule('usage', 'recording a size changes the reported temporary file usage by the new minus the previously recorded size; a removed file gives back its recorded size')
    rep.rule('path', 'a file constructed with a path has that path and persistence, otherwise a path is generated once, when first asked for, and is the same from then on')
    rep.assumptions = ['a file that std::filesystem::remove is called for is gone afterwards']
    mod = load([build.tu('tempname.cpp'), build.lib('tempname.cpp')], [r'^(\w+ )*w_tf_\w+', r'\bw_tf_get_path'],
               preserve=[r'^' + INC, r'^tpie::tempname::', r'log_warning|TP_LOG'])
    # which member is which
    pers = set()
    for S, kind, ret, tr in explore(rep, mod, 'w_tf_is_persistent'):
        pers |= {l[1] for l in vf.leaves(ret) if l[0] == 'init'}
    if len(pers) != 1:
        raise build.Broken('is_persistent() does not read one member: %s' % pers)
    persist = list(pers)[0]
    gp = explore(rep, mod, 'w_tf_get_path')
    cells = {leaf1(x[2]) for x in gp if x[1] == 'ret'}
    if len(cells) != 1 or list(cells)[0][0] != THIS:
        rep.fail('path', 'path:ret', 'path() does not return the path member of the object')
        return
    path = list(cells)[0][1]
    P = ('old', (THIS, path))
    rec = set()
    for S, kind, ret, tr in explore(rep, mod, 'w_tf_update', path=path):
        rec |= {c for c, v in S.mem.items() if c[0] == THIS and v == L(('arg', 1))}
    if len(rec) != 1:
        rep.fail('usage', 'update:member', 'update_recorded_size does not record the new size')
        return
    rec = list(rec)[0]
    cnt = set()
    for S, kind, ret, tr in explore(rep, mod, 'w_tf_add', path=path):
        cnt |= {c for c, v in S.mem.items() if c[0] == THIS and c[0] != 'str'}
    if len(cnt) != 1:
        rep.fail('count', 'add_ref:member', 'taking a reference does not change exactly one member')
        return
    cnt = list(cnt)[0]
    old = lambda c: L(('init', c))
    # update
    for S, kind, ret, tr in explore(rep, mod, 'w_tf_update', path=path):
        rep.ok('usage', 'update_recorded_size changes usage by %s' % show(S.q[1]))
        if not R([]).eq(S, S.q[1], add(L(('arg', 1)), old(rec), -1)):
            rep.fail('usage', 'update:amount', 'update_recorded_size changes the usage by %s' % show(S.q[1]), tr)
        if S.q[0] or S.q[2] or S.q[3]:
            rep.fail('remove', 'update:removes', 'update_recorded_size removes the file', tr)
    # counting
    for S, kind, ret, tr in explore(rep, mod, 'w_tf_add', path=path):
        rep.ok('count', 'add_ref')
        if S.mem.get(cnt) != add(old(cnt), C(1)):
            rep.fail('count', 'add_ref:amount', 'taking a reference sets the count to %s' % show(S.mem.get(cnt)), tr)
        if S.q[0] or S.q[2] or S.q[3]:
            rep.fail('count', 'add_ref:destroys', 'taking a reference destroys or removes', tr)
    rel = load([build.tu('tempname.cpp'), build.lib('tempname.cpp')], [r'\bw_tf_release'], preserve=[r'temp_file_inner::~temp_file_inner'])
    for before in (1, 2, 3):
        for S, kind, ret, tr in explore(rep, rel, 'w_tf_release', path=path, mem={cnt: C(before)}):
            last = before == 1
            rep.ok('count', 'release with %d references: destroyed %d freed %d' % (before, len(S.q[2]), len(S.q[3])))
            this = (L(THIS),)
            if (S.q[2], S.q[3]) != ((this, this) if last else ((), ())):
                rep.fail('count', 'release:%s' % ('last' if last else 'more'), 'releasing one of %d references destroys the object %d times and frees it %d times' % (before, len(S.q[2]), len(S.q[3])), tr)
            if not last and const(S.mem.get(cnt)) != before - 1:
                rep.fail('count', 'release:amount', 'releasing one of %d references leaves the count at %s' % (before, show(S.mem.get(cnt))), tr)
    # destruction
    for empty in (0, 1):
        for p in (0, 1):
            for ex in (0, 1):
                for S, kind, ret, tr in explore(rep, mod, 'w_tf_destroy', path=path, empty=empty, exists=ex, mem={persist: C(p)}):
                    case = '%s, %s, %s' % ('no path' if empty else 'path', 'persistent' if p else 'temporary', 'exists' if ex else 'does not exist')
                    rep.ok('remove', 'destroy (%s): removes %d, usage %s' % (case, len(S.q[0]), show(S.q[1])))
                    want = not empty and not p
                    if any(t != P for t in S.q[0]):
                        rep.fail('remove', 'destroy:other', 'destroying a temporary file removes something else than its path', tr)
                    if want and ex and not S.q[0]:
                        rep.fail('remove', 'destroy:kept', 'destroying (%s) does not remove the file' % case, tr)
                    if not want and S.q[0]:
                        rep.fail('remove', 'destroy:lost:%d%d' % (empty, p), 'destroying (%s) removes a file' % case, tr)
                    if want and not R([]).eq(S, S.q[1], mul(old(rec), -1)):
                        rep.fail('usage', 'destroy:usage:%d' % ex, 'destroying (%s) changes the temporary file usage by %s instead of giving back the recorded size' % (case, show(S.q[1])), tr)
                    if not want and S.q[1] != ZERO and not R([]).eq(S, S.q[1], mul(old(rec), -1)):
                        rep.fail('usage', 'destroy:usage', 'destroying (%s) changes the usage by %s' % (case, show(S.q[1])), tr)
    # construction
    for name, wantp, label in (('w_tf_default', ('empty',), 'without a path'), ('w_tf_path', None, 'with a path')):
        for S, kind, ret, tr in explore(rep, mod, name, path=path):
            if kind != 'ret':
                continue
            rep.ok('path', 'constructed %s' % label)
            t = S.mem.get(('str', THIS, path))
            if wantp is None:
                src = ('old', (('arg', 1), 0))
                if t != src:
                    rep.fail('path', name + ':path', 'a temporary file constructed with a path has the path %s' % (t,), tr)
                v = S.mem.get(persist)
                if v != L(('arg', 2)):
                    rep.fail('path', name + ':persist', 'a temporary file constructed with a path and persistence has persistence %s' % show(v), tr)
            else:
                if t != wantp:
                    rep.fail('path', name + ':path', 'a temporary file constructed without a path has the path %s' % (t,), tr)
                if const(S.mem.get(persist, L('?'))) != 0:
                    rep.fail('path', name + ':persist', 'a temporary file constructed without a path is persistent', tr)
            for c, what in ((rec, 'recorded size'), (cnt, 'reference count')):
                if S.mem.get(c) is None or const(S.mem[c]) != 0:
                    rep.fail('count' if c == cnt else 'usage', name + ':' + what, 'a new temporary file starts with %s %s' % (what, show(S.mem.get(c))), tr)
    # path()
    for empty in (0, 1):
        for S, kind, ret, tr in explore(rep, mod, 'w_tf_get_path', path=path, empty=empty):
            if kind != 'ret':
                continue
            rep.ok('path', 'path() of a file %s' % ('without' if empty else 'with') + ' a path')
            t = S.mem.get(('str', THIS, path), P)
            if empty and t[0] != 'name':
                rep.fail('path', 'path:gen', 'path() of a file without a path gives %s instead of a generated name' % (t,), tr)
            if not empty and t != P:
                rep.fail('path', 'path:changed', 'path() changes the path of the file', tr)
    # set_persistent
    for S, kind, ret, tr in explore(rep, mod, 'w_tf_set_persistent', path=path):
        rep.ok('path', 'set_persistent')
        if S.mem.get(persist) != L(('arg', 1)):
            rep.fail('path', 'set_persistent', 'set_persistent does not set the persistence', tr)
    rep.need('remove', 8)
    rep.need('count', 4)


LEVEL = 'other'
