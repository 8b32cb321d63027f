"""Memory accounting balances on every path of every allocation entry point."""
import re
import build, ir, flow
from ir import lin, linkey, linstr, _ladd
from common import load, one

INC = 'tpie::resource_manager::register_increased_usage'
DEC = 'tpie::resource_manager::register_decreased_usage'
GETMM = 'tpie::get_memory_manager'
NEW = ('operator new', 'operator new[]')
DEL = ('operator delete', 'operator delete[]')
BUCKET = 'tpie::memory_bucket_ref::bucket'
COUNT = 'tpie::memory_bucket::count'

# Wrapper -> (kind, class whose size is charged, argument holding the count, argument holding the pointer)
TABLE = {
    'w_new_plain': ('new', 'w_plain', None, None),
    'w_new_member': ('new', 'w_member', None, None),
    'w_new_poly': ('new', 'w_poly', None, None),
    'w_new_derived': ('new', 'w_poly_derived', None, None),
    'w_newarr_plain': ('new', 'w_plain', 0, None),
    'w_newarr_def': ('new', 'w_def', 0, None),
    'w_alloc_plain': ('new', 'w_plain', 1, None),
    'w_delete_plain': ('del', 'w_plain', None, 0),
    'w_delete_member': ('del', 'w_member', None, 0),
    'w_delete_poly': ('delpoly', 'w_poly', None, 0),
    'w_delarr_plain': ('del', 'w_plain', 1, 0),
    'w_delarr_def': ('del', 'w_def', 1, 0),
    'w_dealloc_plain': ('del', 'w_plain', 2, 1),
}


def addrof(fn, o):
    r, off = fn.addr(o)
    if r[0] in ('i', 'load'):
        # variable address: compare structurally
        return ('x', fn.expr(o))
    return r


def rawexpr(fn, o, d=0):
    """structural address expression, loads by address (not by identity)"""
    if o.get('k') != 'i' or d > 10:
        return fn.expr(o)
    I = fn.inst[o['i']]
    if I.op == 'load':
        return ('load', rawexpr(fn, I.a[0], d + 1))
    if I.op == 'getelementptr':
        return ('gep', I.d.get('off')) + tuple(rawexpr(fn, x, d + 1) for x in I.a)
    return fn.expr(o)


class Walk:
    def __init__(self, rep, f, kind, size, narg, parg):
        self.rep, self.f, self.kind, self.size, self.narg, self.parg = rep, f, kind, size, narg, parg
        self.bad = []
        self.nret = 0
        self.hdr = {}
        E = flow.Explore(f, [((), frozenset(), (), None, None, frozenset())], self.step, on_exit=self.exit, edge=self.edge,
                         throws=self.throws)
        self.E = E

    def throws(self, I):
        if I.short in (GETMM, DEC):
            return False
        return flow.may_throw(I)

    def amount(self, o, zeros):
        l = lin(self.f, o)
        for z in zeros:
            l = {k: v for k, v in l.items() if k != z and not (isinstance(k, tuple) and k and k[0] == '*' and z in k)}
        return l

    # state: (registered, live allocations, bucket delta, bucket null?, freed argument?, zero-valued leaves)
    def step(self, st, I):
        reg, live, bk, bnull, freed, zeros = st
        f = self.f
        if I.iscall:
            if I.short == INC:
                reg = linkey(_ladd(dict(reg), self.amount(I.a[1], zeros), 1))
            elif I.short == DEC:
                reg = linkey(_ladd(dict(reg), self.amount(I.a[1], zeros), -1))
                self.decarg = I.a[1]
            elif I.short in NEW:
                live = live | {I.id}
            elif I.short in DEL:
                r, off = f.addr(I.a[0])
                if r[0] == 'call' and r[1] in live:
                    live = live - {r[1]}
                elif self.owns(I.a[0]):
                    if freed:
                        self.viol('double', I, 'storage is released twice')
                    freed = True
                    self.freearg = I.a[0]
                elif r == ('null',):
                    pass
                else:
                    self.viol('foreign', I, 'releases storage that is not the argument or an allocation of this function')
        elif I.op == 'atomicrmw' and f.field(I.a[0], I) == COUNT:
            s = {'add': 1, 'sub': -1}.get(I.d['rmw'])
            if s is None:
                self.viol('bucket-op', I, 'bucket counter changed by %s' % I.d['rmw'])
            else:
                bk = linkey(_ladd(dict(bk), self.amount(I.a[1], zeros), s))
        elif I.op == 'store' and f.store_field(I) == COUNT:
            self.viol('bucket-store', I, 'bucket counter overwritten')
        elif I.op == 'ret':
            self.retop = I
        return [(reg, live, bk, bnull, freed, zeros)]

    def owns(self, o):
        """does the freed address derive from the pointer argument?"""
        if self.parg is None:
            return False
        ins, leaves = self.f.slice(o)
        return any(l.get('k') == 'arg' and l['i'] == self.parg for l in leaves)

    def edge(self, st, B, succ):
        f = self.f
        for C, truth in flow.branch_implied(f, B, succ):
            zt = flow.zerotest(C, truth)
            if zt is None:
                continue
            x, iszero = zt
            reg, live, bk, bnull, freed, zeros = st
            if x.get('k') == 'i' and f.inst[x['i']].op == 'load' and f.load_field(f.inst[x['i']]) == BUCKET:
                if bnull is not None and bnull != iszero:
                    return None
                st = (reg, live, bk, iszero, freed, zeros)
                continue
            leaf = f.expr(x)
            if iszero:
                def z(l):
                    return linkey({k: v for k, v in dict(l).items() if k != leaf and not (isinstance(k, tuple) and k and k[0] == '*' and leaf in k)})
                st = (z(reg), live, z(bk), bnull, freed, zeros | {leaf})
            elif leaf in zeros:
                return None
        return st

    def viol(self, tag, I, text):
        self.rep.fail('balance', '%s:%s' % (self.f.short, tag), '%s: %s at %s' % (self.label(), text, I.where()), self.E_trace())

    def E_trace(self):
        return []

    def label(self):
        return NAMES.get(self.f.short, self.f.short)

    def want(self, zeros):
        if self.narg is None:
            return {(): self.size}
        leaf = ('arg', self.narg)
        if leaf in zeros:
            return {}
        return {leaf: self.size}

    def exit(self, st, I, kind):
        reg, live, bk, bnull, freed, zeros = st
        want = self.want(zeros)
        lab = self.label()
        r = dict(reg)

        def bad(tag, text):
            self.rep.fail('balance', '%s:%s' % (self.f.short, tag), '%s: %s (exit at %s)' % (lab, text, I.where()))
        if self.kind == 'new':
            if kind == 'throw':
                if r:
                    bad('throw-reg', 'an exception leaves %s bytes registered' % linstr(r))
                if live:
                    bad('throw-leak', 'an exception leaks the allocated storage')
                if bk:
                    bad('throw-bucket', 'an exception leaves the bucket counter changed by %s' % linstr(bk))
            else:
                self.nret += 1
                if r != want:
                    bad('ret-reg', 'registers %s bytes, the object takes %s' % (linstr(r), linstr(want)))
                root = self.f.addr(I.a[0])[0] if I.a else None
                if live != {root[1]} if root and root[0] == 'call' else True:
                    if not self.ret_ok(I, live):
                        bad('ret-ptr', 'does not return exactly the storage it allocated')
                self.bucket(bk, bnull, r, bad)
        else:
            if kind == 'throw':
                bad('throw', 'deallocation can be left by an exception')
                return
            isnull = ('arg', self.parg) in zeros
            if isnull:
                if r or bk:
                    bad('null', 'a null pointer changes the accounting')
                return
            self.nret += 1
            if not freed:
                bad('nofree', 'storage is not released')
            if self.kind == 'delpoly':
                return
            if r != {k: -v for k, v in want.items()}:
                bad('ret-reg', 'unregisters %s bytes, the object takes %s' % (linstr({k: -v for k, v in r.items()}), linstr(want)))
            self.bucket(bk, bnull, r, bad)

    def ret_ok(self, I, live):
        if not I.a:
            return False
        ins, leaves = self.f.slice(I.a[0])
        ids = {x.id for x in ins if x.iscall and x.short in NEW}
        return ids == set(live)

    def bucket(self, bk, bnull, r, bad):
        if bnull is False and dict(bk) != r:
            bad('bucket', 'bucket counter changes by %s, registered usage by %s' % (linstr(bk), linstr(r)))
        if bnull is not False and bk:
            bad('bucket-null', 'bucket counter changed without a bucket')


NAMES = {
    'w_new_plain': 'tpie_new<plain>', 'w_new_member': 'tpie_new<class>', 'w_new_poly': 'tpie_new<polymorphic>',
    'w_new_derived': 'tpie_new<derived>', 'w_newarr_plain': 'tpie_new_array<plain>', 'w_newarr_def': 'tpie_new_array<class>',
    'w_alloc_plain': 'allocator::allocate', 'w_delete_plain': 'tpie_delete<plain>', 'w_delete_member': 'tpie_delete<class>',
    'w_delete_poly': 'tpie_delete<polymorphic>', 'w_delarr_plain': 'tpie_delete_array<plain>',
    'w_delarr_def': 'tpie_delete_array<class>', 'w_dealloc_plain': 'allocator::deallocate',
}


def poly_header(rep, mod):
    """tpie_new of a polymorphic class stores the registered byte count in front of the
    object; tpie_delete unregisters the value read from the address it releases."""
    for name, cls in (('w_new_poly', 'w_poly'), ('w_new_derived', 'w_poly_derived')):
        f = one(mod, r'^%s\(' % name)
        new = [I for I in f.insts() if I.iscall and I.short in NEW]
        reg = [I for I in f.insts() if I.iscall and I.short == INC]
        okst = False
        size = mod.structs[mod.byname[cls]]['size']
        for I in f.insts():
            if I.op == 'store' and new and f.addr(I.a[1]) == (('call', new[0].id), 0):
                if lin(f, I.a[0]) == lin(f, reg[0].a[1]) == {(): size}:
                    okst = True
                    hdr = I
        if okst and new:
            # the allocation holds header and object
            l = lin(f, new[0].a[0])
            if set(l) <= {()} and l.get((), 0) >= size + 8:
                rep.ok('poly-header', '%s stores %d in the header of a %d byte block' % (name, size, l[()]))
            else:
                rep.fail('poly-header', name + ':size', 'tpie_new<%s>: allocates %s bytes for header and object of %d' % (cls, linstr(l), size))
        else:
            rep.fail('poly-header', name + ':store', 'tpie_new<%s>: registered size is not stored in front of the object' % cls)
    f = one(mod, r'^w_delete_poly\(')
    decs = [I for I in f.insts() if I.iscall and I.short == DEC]
    dels = [I for I in f.insts() if I.iscall and I.short in DEL]
    ok = False
    for d in decs:
        o = d.a[1]
        if o.get('k') == 'i' and f.inst[o['i']].op == 'load':
            src = f.inst[o['i']].a[0]
            for x in dels:
                if rawexpr(f, src) == rawexpr(f, x.a[0]):
                    ok = True
    if ok:
        rep.ok('poly-header', 'w_delete_poly unregisters the header value of the block it releases')
    else:
        rep.fail('poly-header', 'w_delete_poly', 'tpie_delete<polymorphic>: unregistered amount is not the value stored in front of the released block')
    # after the destructor has run, the dynamic type of the object is gone: the block must have been located before
    dtors = [I for I in f.insts() if I.iscall and not I.short]
    for x in dels:
        ins, leaves = f.slice(x.a[0])
        for L in ins:
            if L.op == 'load' and any(flow.reaches(f, t, L) for t in dtors):
                rep.fail('poly-header', 'w_delete_poly:dtor', 'tpie_delete<polymorphic>: the block to release is computed from the object after its destructor has run')
    rep.ok('poly-header', 'block located before the destructor', n=len(dels))
    # read before the destructor runs and before the block is released
    for d in decs:
        L = f.inst.get(d.a[1].get('i'))
        for x in dels:
            if L is not None and flow.reaches(f, x, L):
                rep.fail('poly-header', 'w_delete_poly:order', 'tpie_delete<polymorphic>: size is read after the block was released')


def check(rep):
    rep.expl = ('Typestate/balance analysis over the normalised control flow graphs of every allocation entry point, instantiated for '
                'trivial, class, array, polymorphic and derived element types: the registered bytes, bucket bytes and live storage are '
                'tracked on all paths including every exceptional exit.')
    rep.rule('balance', 'normal exit of an allocation: registered == sizeof(T)*n, result is the one live block, bucket matches; '
             'exceptional exit: nothing registered, nothing live. Deallocation: unregisters sizeof(T)*n of the same block exactly once.')
    rep.rule('poly-header', 'size stored in front of a polymorphic object equals the registered size and is what is unregistered')
    rep.assumptions = ['logging, stream formatting and mutex operations do not throw', 'get_memory_manager does not throw after tpie_init']
    src = build.tu('memory.cpp')
    mod = load([src], [r'^w_'], preserve=[r'tpie::get_memory_manager', r'resource_manager::register_', r'^w_\w+::'])
    for name, (kind, cls, narg, parg) in TABLE.items():
        f = one(mod, r'^%s\(' % name)
        rep.fn(f)
        size = mod.structs[mod.byname[cls]]['size']
        w = Walk(rep, f, kind, size, narg, parg)
        rep.ok('balance', '%s: %d exits on %d explored positions' % (NAMES[name], w.E.exits, w.E.visited), n=max(1, w.E.exits))
        if w.nret == 0:
            raise build.Broken('no normal exit in ' + name)
    poly_header(rep, mod)
    rep.need('balance', 20)


LEVEL = 'other'
