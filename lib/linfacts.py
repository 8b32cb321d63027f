"""Linear integer facts for the value flow rules: a comparison is decided when it
is a sum of at most three known facts (plus non-negative terms)."""
from math import gcd
import vf
from vf import L, C, const, add, mul


def subst_leaf(v, m):
    """replace leaves by forms, also inside product and operation leaves"""
    out = ()
    ch = False
    for k, c in v:
        r = _sub(k, m)
        if r != L(k):
            ch = True
        out = add(out, mul(r, c))
    return out if ch else v


def _sub(k, m):
    if k in m:
        return m[k]
    if k and k[0] == '*':
        r = C(1)
        for f in k[1:]:
            r = _mulform(r, _sub(f, m))
        return r
    if k and k[0] == 'op' and k[1] not in ('gep',):
        new = tuple(subst_leaf(x, m) if isform(x) else x for x in k[2:])
        if new != k[2:]:
            if k[1] == 'sdiv' and isform(new[0]) and isform(new[1]) and const(new[1]):
                cb = const(new[1])
                if cb > 0 and all(c % cb == 0 for _, c in new[0]):
                    return tuple((x, c // cb) for x, c in new[0])
            return L(k[:2] + new)
    return L(k)


def _mulform(a, b):
    from ir import _lprod, linkey
    d = {}
    for x, y in _lprod(dict(a), dict(b)).items():
        d[x] = y
    # flatten nested products
    out = {}
    for k, c in d.items():
        if k and k[0] == '*':
            fl = []
            for f in k[1:]:
                fl += list(f[1:]) if f and f[0] == '*' else [f]
            k = ('*',) + tuple(sorted(fl, key=repr))
        out[k] = out.get(k, 0) + c
    return linkey({k: c for k, c in out.items() if c})


prod = _mulform


def isform(x):
    return isinstance(x, tuple) and all(isinstance(p, tuple) and len(p) == 2 and isinstance(p[0], tuple) and isinstance(p[1], int) for p in x)


def reduce(f):
    """the same fact (f >= 0) divided by the common factor of its coefficients"""
    g = 0
    for k, c in f:
        if k != ():
            g = gcd(g, c)
    return tuple((k, c // g) for k, c in f if c // g) if g > 1 else f


def masklow(k):
    """(x, m) if the leaf is x & -m for a power of two m"""
    if k and k[:2] == ('op', 'and'):
        for x, y in ((k[2], k[3]), (k[3], k[2])):
            c = const(y)
            if c is not None:
                m = -c if c < 0 else 2 ** 64 - c
                if 0 < m < 2 ** 40 and not m & (m - 1):
                    return x, m
    return None


class LinRule(vf.Rule):
    """facts: list of forms known to be >= 0.  Every leaf is a non-negative integer unless in self.signed."""
    signed = ()
    fold = ()          # quantities replaced by a constant they were compared equal to

    def base(self, S):
        return self.facts

    def lin_facts(self, S):
        key = (frozenset(S.facts.items()), S.q if isinstance(S.q, tuple) else None)
        c = getattr(self, '_fc', None)
        if c is None:
            c = self._fc = {}
        if key in c:
            return c[key]
        out = list(self.base(S))
        for k, v in S.facts.items():
            if k[0] == 'rel':
                x, y = k[2], k[3]
                if not isform(x) or not isform(y) or k[1] != 's' and (const(x) == -1 or const(y) == -1):
                    continue
                d = add(x, y, -1)
                if '<' not in v:
                    out.append(d if '=' in v else add(d, C(-1)))
                if '>' not in v:
                    e = mul(d, -1)
                    out.append(e if '=' in v else add(e, C(-1)))
        for k, v in S.facts.items():
            # different, and known to be ordered one way
            if k[0] == 'rel' and v == frozenset('<>') and isform(k[2]) and isform(k[3]) and const(k[2]) != -1 and const(k[3]) != -1:
                d = reduce(add(k[2], k[3], -1))
                if len(d) == 0:
                    continue
                for e in (d, mul(d, -1)):
                    if self._ge(e, out, 2):
                        out.append(add(e, C(-1)))
                        break
        leaves = set()
        for f in out:
            for k, c2 in f:
                leaves.add(k)
        for k in list(leaves):
            out += self.leaf_facts(k)
        # a quotient known by an equation: its bounds hold for the other side too
        for k, v in S.facts.items():
            if k[0] == 'rel' and v == frozenset('=') and isform(k[2]) and isform(k[3]):
                for x, y in ((k[2], k[3]), (k[3], k[2])):
                    if len(x) == 1 and x[0][1] == 1 and x[0][0][:2] == ('op', 'udiv'):
                        o, m = x[0][0][2], x[0][0][3]
                        d = add(o, prod(m, y), -1)
                        out += [d, add(add(m, d, -1), C(-1))]
        m = self.quots(S)
        if m:
            out += [subst_leaf(f, m) for f in out]
        ded = []
        for f in out:
            f = reduce(f)
            if f not in ded:
                ded.append(f)
        c[key] = ded
        return ded

    def leaf_facts(self, k):
        """facts of quotients: o - m*(o/m) in [0, m)"""
        if k and k[0] == '*':
            for f in k[1:]:
                if f[:2] == ('op', 'udiv'):
                    rest = list(k[1:])
                    rest.remove(f)
                    m = C(1)
                    for r in rest:
                        m = prod(m, L(r))
                    if m == f[3]:
                        d = add(f[2], L(k), -1)
                        return [d, add(add(m, d, -1), C(-1))]
        if k and k[:2] == ('op', 'udiv') and const(k[3]):
            m = const(k[3])
            d = add(k[2], mul(L(k), m), -1)
            return [d, add(C(m - 1), d, -1)]
        g = masklow(k)
        if g:
            # rounded down to a multiple of a power of two
            d = add(g[0], L(k), -1)
            return [d, add(C(g[1] - 1), d, -1)]
        return []

    def ge(self, S, form, c=0):
        """is form >= c known?"""
        T = reduce(add(form, C(-c)))
        facts = self.lin_facts(S)
        extra = []
        for k, _ in T:
            extra += self.leaf_facts(k) + self.prod_facts(k, facts)
        facts = facts + [e for e in extra if e not in facts]
        return self._ge(T, facts, 3)

    def _pos(self, T):
        return all(c >= 0 and (k == () or k not in self.signed and not (k[0] in ('op',) and k[1] in ('sub',))) for k, c in T)

    def _ge(self, T, facts, depth):
        if self._pos(T):
            return True
        if depth == 0:
            return False
        neg = [k for k, c in T if c < 0 and k != ()]
        for G in facts:
            gd = dict(G)
            if neg and not any(gd.get(k, 0) < 0 for k in neg):
                continue
            if not neg and not (gd.get((), 0) < 0 or any(gd.get(k, 0) > 0 for k, c in T)):
                continue
            if self._ge(add(T, G, -1), facts, depth - 1):
                return True
        return False

    def quots(self, S):
        """quotients that were compared equal to something"""
        m = {}
        for k, r in S.facts.items():
            if k[0] == 'rel' and r == frozenset('='):
                for x, y in ((k[2], k[3]), (k[3], k[2])):
                    if isform(x) and isform(y) and len(x) == 1 and x[0][1] == 1 and (x[0][0][:2] == ('op', 'udiv') or x[0][0] != () and const(y) not in (None, -1) and x[0][0][0] in self.fold):
                        m[x[0][0]] = y
        return m

    def norm(self, S, v):
        m = self.quots(S) if v is not None else None
        return subst_leaf(v, m) if m else v

    def dead(self, S):
        """do the facts contradict each other?"""
        return self._ge(C(-1), self.lin_facts(S), 3)

    def eq(self, S, a, b):
        d = add(a, b, -1)
        return d == () or self.ge(S, d) and self.ge(S, mul(d, -1))

    def cond(self, S, p, a, b, I=None):
        ca, cb = const(a), const(b)
        if ca is not None and cb is not None:
            return None
        if ca == -1 or cb == -1:
            if p[0] == 's':
                pass
            else:
                if ca == -1:
                    p = vf.SWAP[p]
                    a, b = b, a
                # a is an ordinary quantity, b the maximum
                if self.maxable(S, a):
                    return None
                return {'eq': False, 'ne': True, 'ult': True, 'ule': True, 'ugt': False, 'uge': False}[p]
        d = add(a, b, -1)
        if not all(isinstance(k, tuple) for k, _ in d):
            return None
        if any(k and k[0] in ('g', 'alloca', 'agg', 'lp') for k, _ in d):
            return None
        sel = self._sel(d)
        if sel is not None and self.selcond(sel)[0] is not None:
            c, x, y = self.selcond(sel)
            res = set()
            for t, r in ((True, x), (False, y)):
                S2 = self.vf.assume(S, c, t)
                if S2 is None:
                    continue
                a2, b2 = subst_leaf(a, {sel: r}), subst_leaf(b, {sel: r})
                res.add(self.vf.compare(S2, p, a2, b2))
            return res.pop() if len(res) == 1 else None
        q = p if p in ('eq', 'ne') else p[1:]
        if q in ('eq', 'ne'):
            if self.ge(S, d, 1) or self.ge(S, mul(d, -1), 1):
                return q == 'ne'
            if self.eq(S, a, b):
                return q == 'eq'
            return None
        if q == 'lt':
            return True if self.ge(S, mul(d, -1), 1) else False if self.ge(S, d) else None
        if q == 'le':
            return True if self.ge(S, mul(d, -1)) else False if self.ge(S, d, 1) else None
        if q == 'gt':
            return True if self.ge(S, d, 1) else False if self.ge(S, mul(d, -1)) else None
        if q == 'ge':
            return True if self.ge(S, d) else False if self.ge(S, mul(d, -1), 1) else None
        return None

    def maxable(self, S, v):
        return False

    # -- case splitting of unevaluated selections
    def pick(self, S, vals):
        for v in list(vals) + list(S.mem.values()):
            k = self._sel(v)
            if k is not None:
                return k
        for f, t in S.facts.items():
            if f[0] == 'rel':
                k = self._sel(f[2]) or self._sel(f[3])
                if k is not None:
                    return k
            if f[0] == 'b' and t is True:
                v = f[1]
                if len(v) == 1 and v[0][0][:2] == ('op', 'or'):
                    return ('or', v)
            if f[0] == 'rel' and f[1] == 'e' and const(f[3]) == 0 and len(f[2]) == 1 and f[2][0][0][:2] == ('op', 'or'):
                return ('ors', f, t)
            if f[0] == 'b' and len(f[1]) == 1 and f[1][0][0][:2] == ('op', 'select'):
                return ('pick', f[1], t)
            if f[0] == 'b' and t is False:
                v = f[1]
                if len(v) == 1 and v[0][0][:2] == ('op', 'and'):
                    return ('and', v)
        return None

    def selcond(self, k):
        """condition and alternatives of a selection leaf"""
        if k[1] == 'select':
            return k[2], k[3], k[4]
        if k[1] == 'usubsat':
            return L(('op', 'icmp', 'uge', k[2], k[3])), add(k[2], k[3], -1), ()
        p = {'umax': 'uge', 'umin': 'ule', 'smax': 'sge', 'smin': 'sle'}[k[1]]
        return L(('op', 'icmp', p, k[2], k[3])), k[2], k[3]

    def prod_facts(self, k, facts):
        """a product is at least one factor when the other is positive"""
        if k and k[0] == '*' and len(k) == 3:
            return [add(L(k), L(x), -1) for x, y in ((k[1], k[2]), (k[2], k[1])) if self._ge(add(L(y), C(-1)), facts, 2)]
        return []

    def relation(self, S, key):
        """what is known of a comparison, as a set of < = >"""
        d = add(key[2], key[3], -1)
        c = const(d)
        if c is not None:
            return frozenset('<' if c < 0 else '>' if c > 0 else '=')
        r = set('<=>')
        if self.ge(S, d):
            r.discard('<')
        if self.ge(S, d, 1):
            r.discard('=')
        m = mul(d, -1)
        if self.ge(S, m):
            r.discard('>')
        if self.ge(S, m, 1):
            r.discard('=')
        return frozenset(r)

    def _sel(self, v):
        if isinstance(v, tuple):
            if v[:1] == ('op',) and len(v) > 3 and v[1] in ('select', 'umax', 'umin', 'smax', 'smin', 'usubsat'):
                return v
            if v and isinstance(v[0], str) and v[0] not in ('op', '*'):
                return None
            for x in v:
                r = self._sel(x)
                if r is not None:
                    return r
        return None

    def splits(self, S, vals=()):
        """list of (state, values) with selections decided"""
        work = [(S, tuple(vals))]
        out = []
        n = 0
        while work:
            n += 1
            if n > 256:
                raise RuntimeError('too many case splits in ' + self.vf.fn.name)
            s, vs = work.pop()
            k = self.pick(s, vs)
            if k is None:
                if not self.dead(s):
                    out.append((s, vs))
                continue
            if k[0] == 'ors':
                v = k[1][2][0][0]
                s = s.copy()
                del s.facts[k[1]]
                z = [L(('op', 'icmp', 'ne', x, ())) for x in v[2:4]]
                ways = [(False, False)] if k[2] == frozenset('=') else [(True, None), (False, True)]
                for way in ways:
                    y = s
                    for e, t in zip(z, way):
                        if t is not None and y is not None:
                            y = self.vf.assume(y, e, t)
                    if y is not None:
                        work.append((y, vs))
                continue
            if k[0] == 'pick':
                v = k[1][0][0]
                s = s.copy()
                del s.facts[('b', k[1])]
                for t, r in ((True, v[3]), (False, v[4])):
                    z = self.vf.assume(s, v[2], t)
                    z = self.vf.assume(z, r, k[2]) if z is not None else None
                    if z is not None:
                        work.append((z, vs))
                continue
            if k[0] in ('or', 'and'):
                v = k[1]
                a, b = v[0][0][2], v[0][0][3]
                want = k[0] == 'or'
                s = s.copy()
                del s.facts[('b', v)]
                s1 = self.vf.assume(s, a, want)
                if s1 is not None:
                    work.append((s1, vs))
                s2 = self.vf.assume(s, a, not want)
                s2 = self.vf.assume(s2, b, want) if s2 is not None else None
                if s2 is not None:
                    work.append((s2, vs))
                continue
            c, x, y = self.selcond(k)
            for t, r in ((True, x), (False, y)):
                z = self.vf.assume(s, c, t)
                if z is None:
                    continue
                z = z.copy()
                m = {k: r}
                for e in (z.env, z.mem):
                    for q, v in e.items():
                        if isform(v):
                            e[q] = subst_leaf(v, m)
                nf = {}
                dead = False
                for q, v in z.facts.items():
                    if q[0] == 'rel':
                        q2 = (q[0], q[1], subst_leaf(q[2], m) if isform(q[2]) else q[2], subst_leaf(q[3], m) if isform(q[3]) else q[3])
                        if q2 != q:
                            cx, cy = const(q2[2]), const(q2[3])
                            r0 = self.relation(z, q2)
                            if r0 is not None and not r0 & v:
                                dead = True
                            if q2[2] == q2[3] or (cx is not None and cy is not None):
                                continue
                            nf[q2] = nf.get(q2, frozenset('<=>')) & v
                            continue
                    nf[q] = v
                if dead:
                    continue
                z.facts = nf
                work.append((z, tuple(subst_leaf(v, m) if v is not None and isform(v) else v for v in vs)))
        return out
