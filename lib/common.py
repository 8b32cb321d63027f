"""Shared preserve lists and helpers for the rules."""
import re
import build, ir, flow

# std machinery whose internals are never of interest
STD = [
    r'^std::__cxx11::', r'\bstd::basic_string', r'basic_(o|i|io)?stringstream', r'basic_[io]?stream', r'\bstd::ostream', r'\bstd::istream',
    r'^std::operator(<<|\+|==|!=|<)', r'std::operator(<<|\+)', r'std::endl', r'std::flush', r'std::ios_base', r'std::locale', r'std::to_string',
    r'std::_Sp_counted', r'std::__shared_(count|ptr)', r'std::shared_ptr', r'std::__weak', r'std::weak_ptr',
    r'std::mutex::', r'std::__condvar', r'std::condition_variable::(?!wait<)', r'std::thread', r'std::recursive_mutex',
    r'std::vector<.*>::_M_', r'std::vector<.*>::(push_back|emplace_back|resize|reserve|insert|erase)', r'std::(_Rb_tree|map|set|multimap|multiset|unordered|_Hashtable|__detail)', r'std::deque', r'std::_Deque',
    r'std::__uninitialized', r'std::_Vector_base', r'std::function<.*>::(?!operator\(\))', r'std::_Function', r'std::sort', r'std::__sort', r'std::(__)?(push|pop|make|adjust|introsort)',
    r'std::exception_ptr', r'std::rethrow', r'std::__throw', r'std::runtime_error', r'std::logic_error', r'std::(bad_alloc|exception|invalid_argument|out_of_range|length_error|system_error|range_error|domain_error)::',
    r'std::uncaught', r'^operator (new|delete)', r'^std::_List', r'std::(__)?list', r'std::__detail::_List_node_base',
    r'^std::random', r'std::mersenne', r'std::chrono', r'std::filesystem', r'std::basic_[io]?fstream', r'std::basic_filebuf', r'std::__basic_file', r'^boost::',
]
TPIE = [
    r'tpie::log_', r'tpie::get_log', r'tpie::logstream', r'tpie::log_bits', r'tpie::log_group',
    r'tpie::(\w+_)?(exception|error)::', r'tpie::backtrace', r'tpie::pretty_print',
]
NOTHROW = [
    r'^std::__cxx11::', r'\bstd::basic_string', r'basic_(o|i|io)?stringstream', r'basic_[io]?stream', r'std::operator(<<|\+)', r'std::endl', r'std::flush', r'std::ios_base', r'std::locale',
    r'std::to_string', r'std::mutex::', r'std::condition_variable::', r'std::__condvar', r'std::recursive_mutex', r'^pthread_', r'std::__throw_system_error',
    r'tpie::log_', r'tpie::get_log', r'tpie::logstream', r'tpie::log_bits', r'std::exception_ptr', r'std::current_exception',
    r'^operator delete', r'^std::ostream', r'std::(runtime_error|logic_error|exception|invalid_argument)::', r'tpie::(\w+_)?(exception|error)::', r'tpie::pretty_print',
    r'^(strlen|memcpy|memcmp|memset|strerror|__errno_location|open|open64|close|read|write|pread64|pwrite64|fsync|fdatasync|usleep|nanosleep)$',
]


def load(srcs, entries, preserve=(), nothrow=(), inline=(), opt=True, do_inline=True, std=True, tpie=True):
    cfg = {'entries': list(entries), 'preserve': list(preserve) + (STD if std else []) + (TPIE if tpie else []),
           'nothrow': list(nothrow) + NOTHROW, 'inline': list(inline), 'opt': opt, 'do_inline': do_inline}
    return ir.Module(build.export(srcs, cfg))


def throw_type(I):
    """demangled name of the exception type a __cxa_throw call throws"""
    if I.iscall and I.short == '__cxa_throw' and len(I.a) > 1 and I.a[1].get('k') == 'global':
        return re.sub(r'^typeinfo for ', '', I.a[1]['n'])
    return None


def one(mod, pat, what=None):
    fs = mod.fn(pat)
    if len(fs) != 1:
        raise build.Broken('expected exactly one function matching %s (%s), found %d: %s' % (pat, what or '', len(fs), [f.name for f in fs][:5]))
    return fs[0]


def some(mod, pat, n=1, what=None):
    fs = mod.fn(pat)
    if len(fs) < n:
        raise build.Broken('expected at least %d functions matching %s (%s), found %d' % (n, pat, what or '', len(fs)))
    return fs


def dump(f, out=None):
    """human readable listing (debugging aid)"""
    import sys
    o = out or sys.stdout
    o.write('== %s\n' % f.name)

    def opnd(x):
        k = x.get('k')
        if k == 'i':
            return '%%%d' % x['i']
        if k == 'int':
            return str(x['v'])
        if k == 'arg':
            return '$' + (f.args[x['i']]['n'] or str(x['i']))
        if k == 'global':
            return '@' + ir.strip_targs(x['n'])[:60]
        if k == 'cexpr':
            return 'ce(%s+%s)' % (','.join(opnd(y) for y in x['a']), x.get('off'))
        return k or '?'
    for B in f.order:
        o.write('%d: <- %s\n' % (B.id, B.pred))
        for I in B.insts:
            s = '   %%%d = %s' % (I.id, I.op)
            if I.op == 'load':
                s += ' [%s]' % f.load_field(I)
            if I.op == 'store':
                s += ' [%s]' % f.store_field(I)
            if I.op in ('atomicrmw', 'cmpxchg'):
                s += ' %s [%s]' % (I.d.get('rmw'), f.field(I.a[0], I))
            if I.d.get('atomic'):
                s += ' ' + I.d['atomic']
            if I.iscall:
                s += ' ' + (I.short or '*indirect*') + ('' if I.nothrow else ' MAYTHROW')
            if I.op == 'icmp':
                s += ' ' + I.d['pred']
            if I.op == 'getelementptr':
                s += ' +%s %s' % (I.d.get('off'), I.d.get('st'))
            if I.op == 'alloca':
                s += ' %s %s' % (I.d.get('at'), I.d.get('var'))
            if I.op == 'landingpad':
                s += ' ' + ','.join(('catch ' if c['catch'] else 'filter ') + opnd(c['v']) for c in I.a) + (' cleanup' if I.d.get('cleanup') else '')
            elif I.op == 'phi':
                s += ' ' + ', '.join('%s<-%d' % (opnd(x), b) for x, b in zip(I.a, I.d['in']))
            else:
                s += ' (' + ', '.join(opnd(x) for x in I.a) + ')'
            if I.op == 'switch':
                s += ' cases %s default %s' % (I.d['cases'], I.d['default'])
            o.write(s + '   ; ' + I.loc() + '\n')
        o.write('   -> %s\n' % B.succ)
