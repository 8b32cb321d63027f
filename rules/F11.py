"""Where temporary files and directories go, and that they are removed again."""
import re
import build, vf, ir
from vf import L, C, ZERO, add, mul, const, show, leaf1
from common import load, one
from strs import StrRule

FSE = 'std::filesystem::__cxx11::filesystem_error'
TFE = 'tpie::tempfile_error'


class R(StrRule):
    """q: (stack of texts, events)
    conf: env {name: 0/1}, empty {text: 0/1}, exists/isdir/create: outcomes to try for directory queries"""

    def __init__(self, sink, env=None, empty=None, lits=None):
        self.sink, self.env, self.empty = sink, env or {}, empty or {}
        self.lits = lits if lits is not None else {}

    def text(self, S, v, o=None):
        if o is not None and o.get('k') == 'global' and 'str' in o:
            return ('s', o['str'].strip('\0 '))
        return self.sval(S, v)

    def sset(self, S, v, val):
        lf, off = leaf1(v)
        if lf is not None and lf[0] == 'top' and off == 0 and lf[1] < len(S.q[0]):
            # an entry of the stack is replaced
            S.q = (S.q[0][:lf[1]] + (val,) + S.q[0][lf[1] + 1:],) + S.q[1:]
        StrRule.sset(self, S, v, val)

    def is_empty(self, S, t):
        if t[0] == 's':
            return int(not t[1].strip())
        if t[0] in ('name', '/', 'dir', 'env'):
            return 0
        return self.empty.get(t)

    def ev(self, n, e):
        n.q = (n.q[0], n.q[1] + (e,))

    def fs(self, S, I, name, args):
        if name in ('temp_directory_path',):
            n, t = S.copy(), S.copy()
            self.sset(n, args[0], ('system',))
            t.exc = FSE
            return [('ret', n), ('throw', t)]
        t = self.sval(S, args[0])
        ec = len(args) > 1 and name != 'create_directory' or len(args) > 2
        if name in ('exists', 'is_directory', 'create_directory', 'create_directories', 'remove', 'remove_all'):
            out = []
            for v in (0, 1):
                n = S.copy()
                n.env[I.id] = C(v)
                if name.startswith('remove'):
                    n.env[I.id] = L(('ret', name, I.id))
                self.ev(n, (name, t, v))
                if name.startswith('remove') and v:
                    continue
                out.append(('ret', n))
            if self.throws(I) and not ec:
                e = S.copy()
                e.exc = FSE
                self.ev(e, (name, t, 'throws'))
                out.append(('throw', e))
            return out
        return None

    def call(self, S, I, args):
        s = I.short or ''
        if s in ('getenv', 'secure_getenv'):
            nm = I.a[0].get('str')
            n = S.copy()
            if nm is None:
                nm = '?'
            nm = nm.replace('\0', '').strip()
            v = self.env.get(nm)
            n.env[I.id] = L(('env', nm)) if v else ZERO if v == 0 else L(('ret', 'getenv', I.id))
            return [('ret', n)]
        if s == 'tpie::tempname::get_actual_path':
            n = S.copy()
            self.sset(n, args[0], ('actual',))
            return [('ret', n)]
        if s == 'tpie::tempname::get_system_path':
            n = S.copy()
            self.sset(n, args[0], ('system',))
            return [('ret', n)]
        if re.match(r'^std::(stack|deque|vector)::', s) and args and self.isstack(args[0]):
            m = s.rsplit('::', 1)[1]
            n = S.copy()
            st = S.q[0]
            if m == 'empty':
                n.env[I.id] = C(0 if st else 1)
                return [('ret', n)]
            if m == 'size':
                n.env[I.id] = C(len(st))
                return [('ret', n)]
            if m in ('top', 'back'):
                if not st:
                    return []
                n.env[I.id] = L(('top', len(st) - 1))
                n.mem[('str', ('top', len(st) - 1), 0)] = st[-1]
                return [('ret', n)]
            if m in ('pop', 'pop_back'):
                if not st:
                    return []
                n.q = (st[:-1], n.q[1] + (('pop', st[-1]),))
                return [('ret', n)]
            if m in ('push', 'emplace', 'push_back', 'emplace_back'):
                n.q = (st + (self.text(S, args[1], I.a[1]),), n.q[1])
                n.env[I.id] = L(('top', len(st)))
                n.mem[('str', ('top', len(st)), 0)] = n.q[0][-1]
                return [('ret', n)]
            return None
        if re.match(r'^std::(__cxx11::)?basic_(o)?stringstream::str$', s):
            n = S.copy()
            self.sset(n, args[0], ('name', S.mem.get(('ss', leaf1(args[1])[0]), ())))
            return [('ret', n)]
        if s == 'std::operator<<' or s.endswith('ostream::operator<<'):
            n = S.copy()
            n.env[I.id] = args[0]
            lf = leaf1(args[0])[0]
            k = ('ss', lf)
            o = I.a[1]
            ty = re.findall(r'\(.*', I.callee)[-1]
            if 'basic_string' in ty.split(',', 1)[-1] or o.get('k') == 'global' and 'str' in o:
                it = ('t', self.text(S, args[1], o))
            else:
                it = ('v', args[1])
            n.mem[k] = S.mem.get(k, ()) + (it,)
            return [('ret', n)]
        if s == 'std::random_device::operator()':
            n = S.copy()
            n.env[I.id] = L(('random', I.id))
            return [('ret', n)]
        if s.startswith('tpie::file_accessor::'):
            n, t = S.copy(), S.copy()
            if s.rsplit('::', 1)[1].startswith(('open', 'try_open')):
                self.ev(n, ('open', self.sval(S, args[1]), 1))
            t.exc = 'tpie::io_exception'
            self.ev(t, ('failed', s, 1))
            return [('ret', n)] + ([('throw', t)] if self.throws(I) else [])
        if s == '__cxa_guard_acquire':
            n = S.copy()
            n.env[I.id] = ZERO
            return [('ret', n)]
        m = re.match(r'^std::__cxx11::basic_string::(basic_string|operator=|assign)$', s)
        if m and len(args) >= 2 and I.a[1].get('k') == 'global' and 'str' in I.a[1]:
            n = S.copy()
            self.sset(n, args[0], self.text(S, args[1], I.a[1]))
            n.env[I.id] = args[0]
            return [('ret', n)]
        if m and len(args) >= 2:
            lf, off = leaf1(args[1])
            if lf and lf[0] in ('env', 'ret') and off == 0:
                n = S.copy()
                self.sset(n, args[0], lf)
                n.env[I.id] = args[0]
                return [('ret', n)]
        if s == 'std::operator+' and len(args) == 3:
            n = S.copy()
            self.sset(n, args[0], ('+', self.text(S, args[1], I.a[1]), self.text(S, args[2], I.a[2])))
            return [('ret', n)]
        m = re.match(r'^std::operator(==|!=)$', s)
        if m and len(args) == 2:
            a, b = self.text(S, args[0], I.a[0]), self.text(S, args[1], I.a[1])
            for x, y in ((a, b), (b, a)):
                if y == ('s', '') or y == ('empty',):
                    e = self.is_empty(S, x) if x != ('empty',) else 1
                    if e is not None:
                        n = S.copy()
                        n.env[I.id] = C(int(bool(e) == (m.group(1) == '==')))
                        return [('ret', n)]
        return self.scall(S, I, args)

    def isstack(self, v):
        lf, off = leaf1(v)
        return lf is not None and lf[0] == 'g'

    def cond(self, S, pred, a, b, I):
        for x, y in ((a, b), (b, a)):
            if const(y) == 0 and pred in ('eq', 'ne') and len(x) == 1 and x[0][0] and x[0][0][0] == 'env':
                return pred == 'ne'
            if const(y) == 0 and pred in ('eq', 'ne') and len(x) == 1 and x[0][0] and x[0][0][0] == 'slen':
                e = self.is_empty(S, x[0][0][1])
                if e is not None:
                    return bool(e) == (pred == 'eq')
        return None

    def exit(self, S, I, kind, ret):
        self.sink.append((S, kind, ret, self.vf.trace()))


def explore(rep, f, stack=(), mem=None, **kw):
    sink = []
    s = vf.S((tuple(stack), ()), mem=dict(mem or {}))
    vf.VF(f, R(sink, **kw), [s], max_states=200000)
    return sink


def sret(S):
    return S.mem.get(('str', ('arg', 0), 0))


def parts(t):
    """(directory, name items) of a text dir/name"""
    if t and t[0] == '/' and t[2][0] == 'name':
        return t[1], t[2][1]
    return None, None


def check(rep):
    rep.expl = ('The functions choosing temporary directories and names are followed with strings and paths as symbolic texts, for every combination of configured path, environment variables, '
                'existing directories and results of the file system queries.')
    rep.rule('search', 'temporary files go to the default path if one is set, else to AMI_SINGLE_DEVICE, else to TMPDIR, else to the system directory')
    rep.rule('default', 'set_default_path(path, subdir) makes path/subdir the default path if it is or can be made a directory and path otherwise; the next temporary file goes to a new directory in it')
    rep.rule('name', 'a generated name lies in the directory given, or else in the current temporary directory, which is created first if there is none; it contains the base name, the given part, '
             'random characters and the right extension; an existing name in a given directory is refused')
    rep.rule('created', 'every temporary directory created is remembered, and finishing removes every remembered directory, once each, and nothing else')
    rep.assumptions = ['directories are not changed by others between query and creation']
    src = [build.tu('tempname.cpp'), build.lib('tempname.cpp')]
    mod = load(src, [r'\bw_tn_'], preserve=[r'tempname::get_(actual|system)_path', r'^tpie::file_accessor::'])
    mod2 = load(src, [r'\bw_tn_actual'], preserve=[r'tempname::get_system_path'])
    F = lambda m, n: one(m, r'\b%s(\[abi:cxx11\])?\(' % n)
    # the default path member
    g = explore(rep, F(mod, 'w_tn_get'))
    lf = {leaf1(x[2]) for x in g if x[1] == 'ret'}
    if len(lf) != 1 or list(lf)[0][0] is None or list(lf)[0][0][0] != 'g':
        raise build.Broken('get_default_path does not return a reference to one string')
    dcell = list(lf)[0]
    DP = ('old', dcell)
    # search order
    f = F(mod2, 'w_tn_actual')
    rep.fn(f)
    for dp in (0, 1):
        for a in (0, 1):
            for b in (0, 1):
                want = DP if dp else ('env', 'AMI_SINGLE_DEVICE') if a else ('env', 'TMPDIR') if b else ('system',)
                rets = [x for x in explore(rep, f, env={'AMI_SINGLE_DEVICE': a, 'TMPDIR': b}, empty={DP: int(not dp)}) if x[1] == 'ret']
                if not rets:
                    raise build.Broken('get_actual_path never returns')
                for S, kind, ret, tr in rets:
                    rep.ok('search', 'default path %d AMI_SINGLE_DEVICE %d TMPDIR %d: %s' % (dp, a, b, sret(S)))
                    if sret(S) != want:
                        rep.fail('search', 'search:%d%d%d' % (dp, a, b), 'with default path %s, AMI_SINGLE_DEVICE %s and TMPDIR %s set, files go to %s' % (
                            'set' if dp else 'not set', '' if a else 'not', '' if b else 'not', sret(S)), tr)
    # set_default_path
    f = F(mod, 'w_tn_set')
    rep.fn(f)
    PATH, SUB = ('old', (('arg', 0), 0)), ('old', (('arg', 1), 0))
    for sub in (0, 1):
        for stack in ((), (('dir', 1),)):
            outs = explore(rep, f, stack=stack, empty={SUB: int(not sub), PATH: 0})
            if not any(x[1] == 'ret' for x in outs):
                raise build.Broken('set_default_path never returns')
            seen = set()
            for S, kind, ret, tr in outs:
                ev = S.q[1]
                got = S.mem.get(('str',) + dcell, DP)
                joined = ('/', PATH, SUB)
                # consistency of outcomes: what was asked about the joined path
                isdir = [v for n, t, v in ev if n == 'is_directory' and t == joined]
                failed = [1 for n, t, v in ev if v == 'throws']
                bad = [t for n, t, v in ev if n in ('is_directory', 'exists', 'create_directory', 'create_directories') and t != joined]
                rep.ok('default', 'subdir %d: outcome %s -> %s' % (sub, [(n, v) for n, t, v in ev], 'path/subdir' if got == joined else got))
                if kind != 'ret' and S.exc == 'std::bad_alloc':
                    continue
                if kind != 'ret':
                    rep.fail('default', 'set:throws', 'set_default_path throws %s' % S.exc, tr)
                    continue
                if bad and sub:
                    rep.fail('default', 'set:query', 'set_default_path asks about %s instead of path/subdir' % (bad[0],), tr)
                exists1 = [1 for n, t, v in ev if n == 'exists' and v == 1]
                usable = (isdir and isdir[-1] == 1 or not isdir and [1 for n, t, v in ev if n.startswith('create_dir') and v == 1] != []) and not failed
                want = PATH if not sub or not usable else joined
                if got != want:
                    rep.fail('default', 'set:%s' % ('sub' if sub else 'nosub') + (':ok' if usable else ':fallback'),
                             'set_default_path makes %s the default path where path/subdir is %s' % ('path/subdir' if got == joined else got, 'a directory' if usable else 'not usable'), tr)
                if len(S.q[0]) < len(stack) or S.q[0][:len(stack)] != tuple(stack):
                    rep.fail('created', 'set:forgets', 'set_default_path forgets a temporary directory created earlier', tr)
                elif not S.q[0] and stack or S.q[0] and self_nonempty(S.q[0][-1]):
                    rep.fail('default', 'set:marker', 'after set_default_path temporary files still go to the directory used before', tr)
    # names
    for name, isdir in (('w_tn_name', 0), ('w_tn_dir', 1)):
        f = F(mod, name)
        rep.fn(f)
        BASE, DIR, EXT = ('old', (('arg', 1), 0)), ('old', (('arg', 2), 0)), ('old', (('arg', 3), 0))
        for given in (0, 1):
            for ext in ((0, 1) if not isdir else (0,)):
                for stack in (((),) if given else ((), (('s', ''),), (('dir', 1),), (('dir', 1), ('s', '')), (('dir', 1), ('dir', 2)))):
                    for de in ((0, 1) if not isdir and not ext else (0,)):
                        rx = {}
                        empt = {DIR: int(not given), BASE: 0, EXT: int(not ext)}
                        # the default extension is whatever other global string is asked about
                        outs = explore(rep, f, stack=stack, empty=Empt(empt, de))
                        rets = [x for x in outs if x[1] == 'ret']
                        if not rets:
                            raise build.Broken(name + ' never returns')
                        case = '%s%s, temporary directories %s' % ('directory given' if given else 'no directory given', ', extension given' if ext else '', len(stack))
                        for S, kind, ret, tr in outs:
                            ev = S.q[1]
                            if kind != 'ret':
                                if S.exc == TFE and not any(n in ('exists',) and v == 1 or n.startswith('create_dir') and v == 0 for n, t, v in [e for e in ev if len(e) == 3]):
                                    rep.fail('name', name + ':refused', '%s refuses a name that is free (%s)' % (name[2:], case), tr)
                                continue
                            t = sret(S)
                            d, items = parts(t)
                            rep.ok('name', '%s: %s' % (case, describe(t)))
                            if d is None:
                                rep.fail('name', name + ':form', 'the name generated (%s) is not directory/name: %s' % (case, describe(t)), tr)
                                continue
                            ex = [v for e in ev if len(e) == 3 for n, x, v in [e] if n == 'exists' and x == t]
                            created = [e[1] for e in ev if len(e) == 3 and e[0].startswith('create_dir') and e[2] == 1]
                            if given:
                                if d != DIR:
                                    rep.fail('name', name + ':dir', 'the name generated does not lie in the directory given', tr)
                                if ex[-1:] != [0]:
                                    rep.fail('name', name + ':exists', 'the name generated in a given directory is not known to be free', tr)
                                if created:
                                    rep.fail('name', name + ':creates', 'a directory is created although one was given', tr)
                            else:
                                top = S.q[0][-1] if S.q[0] else None
                                if d != top:
                                    rep.fail('name', name + ':top', 'the name generated does not lie in the current temporary directory', tr)
                                need = not stack or not self_nonempty(stack[-1])
                                if need and not created:
                                    rep.fail('name', name + ':nodir', 'no temporary directory is created although there is none (%s)' % case, tr)
                                if not need and created:
                                    rep.fail('name', name + ':again', 'another temporary directory is created although there is one', tr)
                                for c in created:
                                    cd, ci = parts(c)
                                    if cd != ('actual',):
                                        rep.fail('name', name + ':where', 'the temporary directory is created in %s' % (cd,), tr)
                                    else:
                                        check_name(rep, name + ':created', ci, None, None, tr)
                                kept = [x for x in S.q[0] if self_nonempty(x)]
                                for x in [y for y in stack if self_nonempty(y)] + created:
                                    rep.ok('created')
                                    if x not in kept:
                                        rep.fail('created', name + ':forgotten', 'a temporary directory that was created is not remembered for removal', tr)
                            check_name(rep, name, items, BASE, (('+', ('s', '.'), EXT) if ext else DEF if de else ('s', '.tpie')) if not isdir else ('s', ''), tr)
    # finish
    f = F(mod, 'w_tn_finish')
    rep.fn(f)
    D = [('dir', i) for i in range(3)]
    M = ('s', '')
    for stack in ((), (M,), (D[0],), (D[0], M), (M, D[0]), (D[0], D[1]), (D[0], M, D[1], D[2])):
        rets = [x for x in explore(rep, f, stack=stack) if x[1] == 'ret']
        if not rets:
            raise build.Broken('finish_tempfile never returns')
        for S, kind, ret, tr in rets:
            rep.ok('created', 'finish with %d entries' % len(stack))
            rem = sorted(e[1] for e in S.q[1] if e[0] in ('remove_all', 'remove'))
            if any(e[0] == 'remove' for e in S.q[1]):
                rep.fail('created', 'finish:remove', 'a temporary directory is removed only if it is empty', tr)
            if rem != sorted(x for x in stack if self_nonempty(x)):
                rep.fail('created', 'finish:set', 'finishing with temporary directories %s removes %s' % ([x for x in stack], rem), tr)
            if S.q[0]:
                rep.fail('created', 'finish:left', 'entries are left after finishing', tr)
    # try_directory leaves nothing behind
    f = F(mod, 'w_tn_try')
    rep.fn(f)
    for S, kind, ret, tr in explore(rep, f, empty={PATH: 0}):
        ev = S.q[1]
        opened = [e[1] for e in ev if e[0] == 'open']
        removed = [e[1] for e in ev if e[0] == 'remove']
        failed = any(e[0] == 'failed' or e[-1] == 'throws' for e in ev)
        rep.ok('created', 'try_directory: %s' % [e[0] for e in ev])
        if any(r not in opened for r in removed):
            rep.fail('created', 'try:other', 'try_directory removes something it did not create', tr)
        if kind == 'ret' and not failed and opened and removed != opened:
            rep.fail('created', 'try:left', 'try_directory leaves its test file behind', tr)
        if kind == 'ret' and (const(ret) or 0) & 1 and (failed or not opened):
            rep.fail('created', 'try:true', 'try_directory reports a directory as usable without having written to it', tr)
        for o in opened:
            if not any(e[0] == 'exists' and e[1] == o and e[2] == 0 for e in ev):
                rep.fail('created', 'try:overwrite', 'try_directory may overwrite an existing file', tr)
    rep.need('search', 8)
    rep.need('default', 4)
    rep.need('name', 10)


DEF = 'DEF'


class Empt(dict):
    """emptiness of texts; any global string other than the listed ones is the default extension"""

    def __init__(self, d, de):
        dict.__init__(self, d)
        self.de = de

    def get(self, t, dflt=None):
        if t in self:
            return self[t]
        if t[0] == 'old' and t[1][0][0] == 'g':
            return int(not self.de)
        return dflt


def self_nonempty(t):
    return not (t == ('s', '') or t == ('empty',) or t == ('text?',))


def describe(t):
    if t is None:
        return 'unknown'
    if t[0] == 'name':
        return 'name(%d items)' % len(t[1])
    if t[0] in ('/', '+'):
        return '%s%s%s' % (describe(t[1]), t[0], describe(t[2]))
    return str(t)


def check_name(rep, key, items, base, suffix, tr):
    texts = [x[1] for x in items if x[0] == 't']
    rnd = set()
    for x in items:
        if x[0] == 'v' and any(l[0] == 'random' for l in vf.leaves(x[1])):
            rnd.add(x[1])
    rep.ok('name')
    if len(rnd) < 8:
        rep.fail('name', key + ':random', 'the generated name has only %d distinct random characters' % len(rnd), tr)
    g = [t for t in texts if t[0] == 'old' and t[1][0][0] == 'g']
    if not items or items[0][0] != 't' or not (items[0][1][0] == 'old' and items[0][1][1][0][0] == 'g'):
        rep.fail('name', key + ':base', 'the generated name does not start with the default base name', tr)
    if base is not None and base not in texts:
        rep.fail('name', key + ':post', 'the generated name does not contain the part given', tr)
    if suffix is not None:
        last = items[-1][1] if items and items[-1][0] == 't' else None
        ok = last == suffix
        if suffix == DEF:
            ok = last is not None and last[0] == '+' and last[1] == ('s', '.') and last[2][0] == 'old' and last[2][1][0][0] == 'g'
        if suffix == ('s', '') and last is not None and not self_nonempty(last):
            ok = True
        if not ok:
            rep.fail('name', key + ':ext', 'the generated name ends with %s instead of %s' % (last, 'the default extension' if suffix == DEF else suffix), tr)


LEVEL = 'other'
