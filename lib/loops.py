"""Loops by induction, for any rule: every state that reaches a loop head is generalised (loop variables and
memory become base + slope * progress, or unknown) and the loop is followed from the generalised state until
all states that reach the head again are covered.

The rule splits its q into what identifies the situation (compared for equality) and a progress form:
lp_split(q) -> (ghost, progress), lp_join(ghost, progress) -> q."""
from math import gcd
import build, vf
from vf import L, add, mul
from linfacts import isform
from induct import Collect


class Head:
    """a situation at a loop head: the state S as it was reached first, and what it was generalised to"""
    def __init__(self, b, S, ghost, prog, T):
        self.b, self.S, self.ghost, self.prog, self.T = b, S, ghost, prog, T
        self.gen = False       # is the progress arbitrary (T), or still the one of S?
        self.tm, self.bad, self.col, self.used, self.ext = {}, set(), None, {}, {}

    def at(self):
        return self.T if self.gen else self.prog


class Full(build.Broken):
    pass


class LoopRule:
    lp_max = 400
    fix_branch = True
    lp_outer = True        # (set before lp_split) is the loop head the entry of an outermost loop?

    def lp_split(self, q):
        return q, ()

    def lp_join(self, ghost, prog):
        return ghost

    def lp_keep(self, x):
        """loop variable or cell that is left as it is (never changed)"""
        return False

    def head(self, V, b, S):
        if self._lp_start:
            self._lp_start = False
            return True
        self._lp_arrived.append((b, S.copy()))
        return False


def _mentions(v, b, T):
    return any(l == T[0][0] or (l[0] == 'w' and l[1] == b) for l in vf.leaves(v))


def _vals(S):
    d = {}
    for x, v in S.env.items():
        if isinstance(x, tuple) and x[:1] == ('arg',) or v is None or not isform(v):
            continue
        d[('e', x)] = v
    for c, v in S.mem.items():
        if v is not None and isform(v):
            d[('m', c)] = v
    return d


def _lazy(r, x):
    I = r.vf.fn.inst.get(x)
    return I is not None and I.op == 'icmp'


def _value(r, S, x):
    if x[0] == 'e':
        if x[1] not in S.env and _lazy(r, x[1]):
            v = r.vf.ev(S, {'k': 'i', 'i': x[1]})
            return v if isform(v) else None
        return S.env.get(x[1])
    v = S.mem.get(x[1])
    if v is None and x[1] not in S.mem:
        v = r.vf.load(S.copy(), x[1])
    return v if v is not None and isform(v) else None


def _ratio(a, b):
    """the integer k with a = k * b"""
    if not b:
        return None
    if not a:
        return 0
    d = dict(a)
    l, c = b[0]
    if d.get(l, 0) % c:
        return None
    k = d.get(l, 0) // c
    return k if k and add(a, mul(b, -k)) == () else None


def _template(H, r, x, k):
    v = _value(r, H.S, x)
    if v is None or k is None or (x, k) in H.bad:
        return None
    base = r.norm(H.S, add(v, mul(H.prog, -k)))
    return None if _mentions(base, H.b, H.T) else (base, k)


def _strided(H, r, x, v):
    """a pointer that moves by whole elements: base + stride * unknown"""
    v0 = _value(r, H.S, x)
    if v is None or v0 is None or (x, 'g') in H.bad:
        return None
    base = r.norm(H.S, v0)
    if not any(k for k, _ in base) or _mentions(base, H.b, H.T):
        return None
    g = 0
    for _, c in r.norm(H.S, add(v, base, -1)):
        g = gcd(g, abs(c))
    return (base, 'g', g) if g > 1 else None


def _tval(H, x, t):
    if t is None:
        return L(('w', H.b, x))
    if t[1] == 'g':
        return add(t[0], L(('w', H.b, x)), t[2])
    return add(t[0], mul(H.at(), t[1]))


def _fits(r, S, v, t, prog):
    if v is None:
        return False
    if t[1] == 'g':
        return all(c % t[2] == 0 for _, c in r.norm(S, add(v, t[0], -1)))
    return r.eq(S, r.norm(S, v), r.norm(S, add(t[0], mul(prog, t[1]))))


def _covers(H, S):
    for k, v in H.S.facts.items():
        w = S.facts.get(k)
        if w == v or k[0] == 'hv' and v == ('w', H.b):
            continue
        if isinstance(v, frozenset) and isinstance(w, frozenset) and w <= v:
            continue
        return False
    return True


def entries(f):
    """blocks by which a cycle is entered from outside of it"""
    def reach(b):
        seen, st = set(), [b]
        while st:
            for y in f.blocks[st.pop()].succ:
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen
    R = {b: reach(b) for b in f.blocks}
    out = set()
    for b, B in f.blocks.items():
        if b in R[b] and (not B.pred or any(p not in R[b] for p in B.pred)):
            out.add(b)
    return out


def follow(rep, f, mk, inits, what=None):
    """mk(rep) -> rule. Returns (runs, loop heads)"""
    what = what or f.name
    heads, todo, runs = {}, [], 0
    outermost = entries(f)
    count = {}

    edges = {}
    everything = []

    def arrive(r, src):
        edges[src] = []
        for H in everything:
            H.ext.pop(src, None)
        for b, S in r._lp_arrived:
            r.lp_outer = b in outermost
            ghost, prog = r.lp_split(S.q)
            l = heads.setdefault((b, ghost, S.exc), [])
            done = False
            for H in l:
                if not _covers(H, S):
                    continue
                redo = False
                edges[src].append(H)
                if src is not H:
                    H.ext.setdefault(src, []).append((S, prog, r))
                for k, v in S.facts.items():
                    if k[0] == 'hv' and H.S.facts.get(k) != v and H.S.facts.get(k) != ('w', b):
                        H.S.facts[k] = ('w', b)
                        redo = True
                for c in S.mem:
                    if ('m', c) not in H.tm and S.mem[c] is not None and isform(S.mem[c]):
                        H.tm[('m', c)] = _template(H, r, ('m', c), 0)
                        redo = True
                if not r.eq(S, r.norm(S, prog), r.norm(S, H.prog)) and not H.gen:
                    # more progress than at first: from now on for any progress
                    H.gen = redo = True
                    for x in H.tm:
                        v, v0 = _value(r, S, x), _value(r, H.S, x)
                        k = None
                        if v is not None and v0 is not None:
                            d = r.norm(S, add(v, v0, -1))
                            k = 0 if d == () else _ratio(d, r.norm(S, add(prog, H.prog, -1)))
                        H.tm[x] = _template(H, r, x, k) or _strided(H, r, x, v)
                    if H not in todo:
                        todo.append(H)
                    done = True
                    break
                for x, t in list(H.tm.items()):
                    if t is None or x[0] == 'e' and x[1] not in S.env and not _lazy(r, x[1]):
                        continue
                    if src is H and (H.usedgen != H.gen or H.used.get(x) != t):
                        continue            # replaced meanwhile: this state was made with another assumption
                    v = _value(r, S, x)
                    if _fits(r, S, v, t, prog):
                        continue
                    H.bad.add((x, t[1]))
                    redo = True
                    k = None
                    if t[1] != 'g' and v is not None and src is H and H.gen:
                        k = _ratio(r.norm(S, add(v, add(t[0], mul(H.T, t[1])), -1)), r.norm(S, add(prog, H.T, -1)))
                        k = None if k is None else k + t[1]
                    H.tm[x] = _template(H, r, x, k) or (_strided(H, r, x, v) if t[1] != 'g' else None)
                if redo and H not in todo:
                    todo.append(H)
                done = True
                break
            if done:
                continue
            i = count[b] = count.get(b, -1) + 1
            if sum(count.values()) > r.lp_max:
                raise Full('too many situations at the loops of %s' % what)
            T = L(('T', b, i))
            S = S.copy()
            for k in list(S.facts):
                if any(isform(x) and _mentions(x, b, T) for x in k) or any(isinstance(x, tuple) and x[:1] == ('w',) and x[1:2] == (b,) for x in k):
                    del S.facts[k]
            H = Head(b, S, ghost, prog, T)
            for x in _vals(S):
                H.tm[x] = _template(H, r, x, 0)
            l.append(H)
            todo.append(H)
            everything.append(H)
            edges[src].append(H)

    def recheck():
        """states that came from elsewhere, against what the variables are taken to be now"""
        for H in everything:
            for l in list(H.ext.values()):
                for S, prog, r in l:
                    for x, t in H.tm.items():
                        if t is None or x[0] == 'e' and x[1] not in S.env and not _lazy(r, x[1]):
                            continue
                        v = _value(r, S, x)
                        if not _fits(r, S, v, t, prog):
                            H.tm[x] = None
                            if H not in todo:
                                todo.append(H)

    try:
        r = mk(rep)
        r._lp_start, r._lp_arrived = False, []
        V = vf.VF(f, r, inits)
        arrive(r, None)
        runs += 1
        while todo or recheck() or todo:
            H = todo.pop(0)
            runs += 1
            if runs > 40 * r.lp_max:
                raise build.Broken('the loops of %s are not understood' % what)
            H.col = Collect()
            r = mk(H.col)
            S = H.S.copy()
            for x, t in H.tm.items():
                v = _tval(H, x, t)
                if x[0] == 'e':
                    S.env[x[1]] = v
                else:
                    S.mem[x[1]] = v
            H.used, H.usedgen = dict(H.tm), H.gen
            S.q = r.lp_join(H.ghost, H.at())
            r._lp_start, r._lp_arrived = True, []
            vf.VF(f, r, [S], start=H.b)
            arrive(r, H)
    except Full:
        # what has gone wrong already is what makes it so much
        bad = [H for H in everything if H.col and H.col.fails]
        if not bad:
            raise
        for H in bad:
            H.col.flush(rep)
        return runs, len(everything)
    seen, st = set(), list(edges[None])
    while st:
        H = st.pop()
        if H not in seen:
            seen.add(H)
            st += edges[H]
    for H in everything:
        if H in seen:
            H.col.flush(rep)
    return runs, len(seen)
