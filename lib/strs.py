"""Abstract std::string / std::filesystem::path objects for value-flow rules.

Every string or path object (a memory cell) holds a symbolic text: the text it had on entry, a literal, a result of a call, or a combination of these.
"""
import re
import vf
from vf import L, ZERO, const

STR = re.compile(r'^std::__cxx11::basic_string::|^std::basic_string::')
PATH = re.compile(r'^std::filesystem::(__cxx11::)?path::')


class StrRule(vf.Rule):
    def sval(self, S, v):
        """text of the string object whose address is v"""
        lf, off = vf.leaf1(v)
        if lf is None:
            return ('text?', v)
        x = S.mem.get(('str', lf, off))
        if x is not None:
            return x
        if lf[0] == 'g' and off == 0 and ('.str' in lf[1] or lf[1].startswith('@')):
            return ('lit', lf[1])
        return ('old', (lf, off))

    def sset(self, S, v, val):
        lf, off = vf.leaf1(v)
        if lf is not None:
            S.mem[('str', lf, off)] = val

    def is_empty(self, S, t):
        """hook: whether text t is empty (0, 1 or None)"""
        return None

    def emptyval(self, S, t):
        e = 1 if t == ('empty',) else 0 if t[0] in ('/', 'name') else self.is_empty(S, t)
        return vf.C(e) if e is not None else L(('sempty', t))

    def fs(self, S, I, name, args):
        """hook: std::filesystem function `name`; return as call() or None for the default"""
        return None

    def scall(self, S, I, args):
        s = I.short or ''
        m = STR.match(s)
        n = None
        if m:
            meth = s.rsplit('::', 1)[1]
            n = S.copy()
            if meth == 'basic_string':
                if len(args) == 1:
                    self.sset(n, args[0], ('empty',))
                elif len(args) in (2, 3):
                    if len(args) == 2 and I.a[1].get('k') == 'alloca':
                        self.sset(n, args[0], ('empty',))
                    else:
                        self.sset(n, args[0], self.sval(S, args[1]))
                else:
                    self.sset(n, args[0], ('text', I.id))
                return [('ret', n)]
            if meth in ('operator=', 'assign'):
                self.sset(n, args[0], self.sval(S, args[1]) if len(args) == 2 else ('text', I.id))
                n.env[I.id] = args[0]
                return [('ret', n)]
            if meth in ('operator+=', 'append', 'push_back', 'insert', 'replace', 'erase', 'resize'):
                self.sset(n, args[0], ('+', self.sval(S, args[0]), self.sval(S, args[1]) if len(args) == 2 else ('text', I.id)))
                n.env[I.id] = args[0]
                return [('ret', n)]
            if meth == 'clear':
                self.sset(n, args[0], ('empty',))
                return [('ret', n)]
            if meth == 'empty':
                n.env[I.id] = self.emptyval(S, self.sval(S, args[0]))
                return [('ret', n)]
            if meth in ('size', 'length'):
                t = self.sval(S, args[0])
                e = self.emptyval(S, t)
                n.env[I.id] = ZERO if e == vf.C(1) else L(('slen', t))
                return [('ret', n)]
            if meth in ('c_str', 'data'):
                n.env[I.id] = L(('cstr', self.sval(S, args[0])))
                return [('ret', n)]
            return [('ret', n)]
        m = PATH.match(s)
        if m:
            meth = s.rsplit('::', 1)[1]
            n = S.copy()
            t = S.copy()
            t.exc = 'std::bad_alloc'
            thr = [('throw', t)] if self.throws(I) else []
            if meth == 'path':
                if len(args) == 1:
                    self.sset(n, args[0], ('empty',))
                else:
                    self.sset(n, args[0], self.sval(S, args[1]))
            elif meth in ('operator=', 'assign'):
                self.sset(n, args[0], self.sval(S, args[1]))
                n.env[I.id] = args[0]
            elif meth in ('operator/=', 'append'):
                self.sset(n, args[0], ('/', self.sval(S, args[0]), self.sval(S, args[1])))
                n.env[I.id] = args[0]
            elif meth in ('string', 'generic_string', 'u8string'):
                self.sset(n, args[0], self.sval(S, args[1]))
            elif meth == 'native':
                n.env[I.id] = args[0]
            elif meth == 'c_str':
                n.env[I.id] = L(('cstr', self.sval(S, args[0])))
            elif meth == 'empty':
                n.env[I.id] = self.emptyval(S, self.sval(S, args[0]))
            elif meth == '~path':
                return [('ret', n)]
            return [('ret', n)] + thr
        if re.match(r'^std::filesystem::(__cxx11::)?operator/$', s) and len(args) == 3:
            n = S.copy()
            self.sset(n, args[0], ('/', self.sval(S, args[1]), self.sval(S, args[2])))
            t = S.copy()
            t.exc = 'std::bad_alloc'
            return [('ret', n), ('throw', t)]
        if s in ('std::operator+',) and len(args) == 3:
            n = S.copy()
            self.sset(n, args[0], ('+', self.sval(S, args[1]), self.sval(S, args[2])))
            return [('ret', n)]
        if s in ('std::operator==', 'std::operator!='):
            n = S.copy()
            a, b = self.sval(S, args[0]), self.sval(S, args[1])
            lf = L(('op', 'icmp', 'eq' if s.endswith('==') else 'ne', L(('seq',) + tuple(sorted((a, b), key=repr))), vf.C(1)))
            n.env[I.id] = lf
            return [('ret', n)]
        if s.startswith('std::filesystem::'):
            name = s.rsplit('::', 1)[1]
            r = self.fs(S, I, name, args)
            if r is not None:
                return r
        return None
