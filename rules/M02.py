"""Limit enforcement: decision table of resource_manager."""
import itertools
import build, ir, flow
from ir import lin, linkey, linstr, _ladd
from common import load, one

USED = 'tpie::resource_manager::m_used'
LIMIT = 'tpie::resource_manager::m_limit'
ENF = 'tpie::resource_manager::m_enforce'


def is_field(f, o, field):
    if o.get('k') == 'i':
        I = f.inst[o['i']]
        return I.op == 'load' and f.load_field(I) == field
    return False


def is_usage(f, o):
    """the value of the counter after this request was added"""
    l = lin(f, o)
    rmw = [I for I in f.insts() if I.op == 'atomicrmw' and f.field(I.a[0], I) == USED and I.d['rmw'] == 'add']
    for I in rmw:
        e = f.expr({'k': 'i', 'i': I.id})
        want = _ladd({e: 1}, lin(f, I.a[1]), 1)
        if l == want:
            return True
    # ... or what a compare-and-exchange tries to change it to
    for I in f.insts():
        if I.op == 'cmpxchg' and f.field(I.a[0], I) == USED and l == _ladd(lin(f, I.a[1]), {('arg', 1): 1}, 1):
            return True
    return False


def exchange(f, st, I):
    """outcomes of a compare-and-exchange of the counter: failed, changed"""
    d, out = st
    out = frozenset(x for x in out if x[0] != I.id)
    n = linkey(_ladd(_ladd(dict(d), lin(f, I.a[2]), 1), lin(f, I.a[1]), -1))
    return [(d, out | {(I.id, 0)}), (n, out | {(I.id, 1)})]


def exchanged(f, st, I):
    """did the compare-and-exchange whose flag this is succeed?"""
    if I.op == 'extractvalue' and I.a[0].get('k') == 'i' and tuple(I.d.get('idx') or ()) == (1,):
        for k, v in st[1]:
            if k == I.a[0]['i']:
                return v
    return None


def increased(rep, f):
    rep.fn(f)
    amount = ('arg', 1)
    for pol, (over, nolimit) in itertools.product((0, 1, 2, 3), itertools.product((False, True), repeat=2)):
        def decide(st, o, I):
            if I is None:
                return None
            if I.op == 'load' and f.load_field(I) == ENF:
                return pol
            if I.op == 'extractvalue':
                return exchanged(f, st, I)
            if I.op == 'icmp':
                a, b, p = I.a[0], I.a[1], I.d['pred']
                # usage vs limit
                if is_field(f, b, LIMIT) and is_usage(f, a):
                    if p in ('ugt', 'ule'):
                        return over == (p == 'ugt')
                    return None
                if is_field(f, a, LIMIT) and is_usage(f, b):
                    if p in ('ult', 'uge'):
                        return over == (p == 'ult')
                    return None
                zt = flow.zerotest(I, True)
                if zt and is_field(f, zt[0], LIMIT):
                    return nolimit == zt[1]
            return None
        res = {'ret': 0, 'throw': 0}

        def step(st, I):
            if I.op == 'atomicrmw' and f.field(I.a[0], I) == USED:
                s = {'add': 1, 'sub': -1}.get(I.d['rmw'])
                if s is None:
                    rep.fail('atomic', f.short + ':rmw', 'usage counter changed by %s at %s' % (I.d['rmw'], I.where()))
                    s = 1
                st = (linkey(_ladd(dict(st[0]), lin(f, I.a[1]), s)), st[1])
            elif I.op == 'cmpxchg' and f.field(I.a[0], I) == USED:
                return exchange(f, st, I)
            elif I.op == 'store' and f.store_field(I) == USED:
                rep.fail('atomic', f.short + ':store', 'usage counter is overwritten instead of changed atomically at %s' % I.where())
            return [st]
        names = ['IGNORE', 'DEBUG', 'WARN', 'THROW']

        def throws(I):
            if I.short and 'print_resource_complaint' in I.short:
                return False
            return flow.may_throw(I)

        def on_exit(st, I, kind):
            d = dict(st[0])
            res[kind] += 1
            case = 'policy %s, usage %s limit, limit %s' % (names[pol], '>' if over else '<=', 'unset' if nolimit else 'set')
            if kind == 'ret':
                if d != {amount: 1}:
                    rep.fail('restore', 'ret:%d' % pol, '%s: returns having changed the usage by %s, not by the requested amount (exit at %s)' % (case, linstr(d), I.where()))
                if pol == 3 and over and not nolimit:
                    rep.fail('decision', 'noThrow', '%s: the request is granted although it exceeds the limit' % case)
            else:
                if d:
                    rep.fail('restore', 'throw:%d' % pol, '%s: refuses the request but leaves the usage changed by %s (exit at %s)' % (case, linstr(d), I.where()))
                if not (pol == 3 and over and not nolimit):
                    rep.fail('decision', 'throw:%d:%d:%d' % (pol, over, nolimit), '%s: the request is refused at %s' % (case, I.where()))
        E = flow.Explore(f, [((), frozenset())], step, on_exit=on_exit, throws=throws, decide=decide)
        rep.ok('decision', 'policy %s over=%s nolimit=%s: %d returns, %d throws' % (names[pol], over, nolimit, res['ret'], res['throw']))
        if not res['ret'] and not res['throw']:
            raise build.Broken('no exit of register_increased_usage for policy %d' % pol)


def decreased(rep, f):
    rep.fn(f)

    def step(st, I):
        if I.op == 'atomicrmw' and f.field(I.a[0], I) == USED:
            s = {'add': 1, 'sub': -1}.get(I.d['rmw'])
            if s is None:
                rep.fail('atomic', f.short + ':rmw', 'usage counter changed by %s at %s' % (I.d['rmw'], I.where()))
                s = 1
            st = (linkey(_ladd(dict(st[0]), lin(f, I.a[1]), s)), st[1])
        elif I.op == 'cmpxchg' and f.field(I.a[0], I) == USED:
            return exchange(f, st, I)
        elif I.op == 'store' and f.store_field(I) == USED:
            rep.fail('atomic', f.short + ':store', 'usage counter is overwritten instead of changed atomically at %s' % I.where())
        return [st]

    def on_exit(st, I, kind):
        rep.ok('restore', 'register_decreased_usage %s' % kind)
        if dict(st[0]) != {('arg', 1): -1}:
            rep.fail('restore', 'dec:' + kind, 'register_decreased_usage changes the usage by %s, not by minus the given amount (exit at %s)' % (linstr(dict(st[0])), I.where()))
    flow.Explore(f, [((), frozenset())], step, on_exit=on_exit, decide=lambda st, o, I: exchanged(f, st, I) if I is not None else None)


def available(rep, f):
    """returns max(limit - used, 0): either a saturating subtraction, or a difference
    returned only where used < limit and zero otherwise."""
    rep.fn(f)
    rep.ok('available', 'available()')

    def lim(o):
        return is_field(f, o, LIMIT)

    def use(o):
        return is_field(f, o, USED)

    for less, equal in ((True, False), (False, True), (False, False)):
        def decide(st, o, I):
            if I is not None and I.op == 'icmp':
                a, b, p = I.a[0], I.a[1], I.d['pred']
                if use(a) and lim(b):
                    return {'ult': less, 'uge': not less, 'ule': less or equal, 'ugt': not (less or equal), 'eq': equal, 'ne': not equal}.get(p)
                if lim(a) and use(b):
                    return {'ugt': less, 'ule': not less, 'uge': less or equal, 'ult': not (less or equal), 'eq': equal, 'ne': not equal}.get(p)
            return None
        bad = []
        holder = {}

        def edge(st, B, succ):
            # remember which value a phi receives
            for I in f.blocks[succ].insts:
                if I.op != 'phi':
                    break
                for o, b in zip(I.a, I.d['in']):
                    if b == B.id:
                        st = tuple(x for x in st if x[0] != I.id) + ((I.id, (o.get('k'), o.get('i'), o.get('v'))),)
            return st

        def val(st, o, d=0):
            """'diff', 'zero', 'bad'"""
            if o.get('k') == 'int':
                return 'zero' if o['v'] == 0 else 'bad'
            if o.get('k') != 'i' or d > 8:
                return 'bad'
            I = f.inst[o['i']]
            if I.op == 'phi':
                for k, v in st:
                    if k == I.id:
                        return val(st, {'k': v[0], 'i': v[1], 'v': v[2]}, d + 1)
                return 'bad'
            if I.iscall and I.short and I.short.startswith('llvm.usub.sat'):
                if lim(I.a[0]) and use(I.a[1]):
                    return 'diff' if less else 'zero'
                return 'bad'
            if I.op == 'select':
                c = E_holder[0].value(st, I.a[0], frozenset())
                if c is None:
                    return 'bad'
                return val(st, I.a[1] if c & 1 else I.a[2], d + 1)
            if I.op == 'sub' and lim(I.a[0]) and use(I.a[1]):
                return 'diff' if less else ('zero' if equal else 'bad')
            return 'bad'
        E_holder = [None]
        exits = []

        def on_exit(st, I, kind):
            exits.append((st, I, kind))
        E = flow.Explore(f, [()], lambda st, I: [st], on_exit=on_exit, edge=edge, decide=decide)
        E_holder[0] = E
        for st, I, kind in exits:
            if kind == 'ret' and val(st, I.a[0]) != ('diff' if less else 'zero'):
                rep.fail('available', 'case:%s%s' % (less, equal), 'available(): with usage %s limit the result is not %s (%s)' % ('<' if less else '==' if equal else '>', 'limit - usage' if less else '0', I.where()))
        rep.ok('available', 'usage %s limit' % ('<' if less else '==' if equal else '>'))


def writers(rep, mod):
    """m_used is only changed by atomic read-modify-write in the two registration functions."""
    n = 0
    for f in mod.functions:
        for I in f.insts():
            if I.op == 'atomicrmw' and f.field(I.a[0], I) == USED:
                n += 1
                rep.ok('atomic')
            elif I.op == 'store' and f.store_field(I) == USED:
                src = I.d.get('fn') or ''
                ctor = f.short.endswith('resource_manager::resource_manager')
                if not ctor and f.short != 'std::__atomic_base::__atomic_base' and f.short != 'std::atomic::atomic':
                    rep.fail('atomic', 'store:' + f.short, 'usage counter is overwritten in %s at %s' % (f.short, I.where()))
            elif I.op == 'cmpxchg' and f.field(I.a[0], I) == USED:
                n += 1
    return n


def check(rep):
    rep.expl = ('Decision-table check: register_increased_usage is explored once per (policy, usage>limit, limit set) combination with exactly those '
                'conditions fixed; on every exit the net change of the counter and the kind of exit are compared with the table.')
    rep.rule('decision', 'a request is refused by an exception iff policy is THROW, the usage including the request exceeds the limit, and a limit is set')
    rep.rule('restore', 'granted: usage grows by exactly the amount; refused: unchanged; give-back: shrinks by exactly the amount')
    rep.rule('atomic', 'the usage counter is only changed by atomic read-modify-write operations')
    rep.rule('available', 'available() is limit-used where used<limit and 0 elsewhere')
    rep.assumptions = ['formatting the complaint does not throw']
    mod = load([build.lib('resource_manager.cpp'), build.lib('memory.cpp')], [r'^tpie::resource_manager::\w+\(', r'^tpie::memory_manager::'],
               preserve=[r'throw_out_of_resource_error', r'print_resource_complaint', r'tpie::memory_manager::register_(typed_)?(de)?alloc'])
    increased(rep, one(mod, r'resource_manager::register_increased_usage\('))
    decreased(rep, one(mod, r'resource_manager::register_decreased_usage\('))
    available(rep, one(mod, r'resource_manager::available\('))
    writers(rep, mod)
    rep.need('decision', 16)
    rep.need('atomic', 3)
