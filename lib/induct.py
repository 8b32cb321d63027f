"""Loops followed by induction: cut at their heads, loop variables as base + slope * progress."""
import build, vf
from vf import L, C, add, mul
from linfacts import isform


class Collect:
    """holds back what a round reports until the loop variables are understood"""
    def __init__(self):
        self.fails, self.oks = [], {}

    def fail(self, *a):
        self.fails.append(a)

    def ok(self, rid, what=None, n=1):
        self.oks[rid] = self.oks.get(rid, 0) + n

    def flush(self, rep):
        for a in self.fails:
            rep.fail(*a)
        for k, n in self.oks.items():
            rep.ok(k, None, n=n)


class LoopMixin:
    """for rules: self.heads collects the states that reach a loop head; self.tmpl is None in the first round.
    The rule defines progress(S) and at_head(S, b) (its checks at the head)."""
    tmpl = None
    started = False
    signedp = False
    locals = False     # local variables in memory are loop variables too

    def loop_init(self, tmpl):
        self.heads, self.tmpl, self.started = {}, tmpl, False

    def head(self, V, b, S):
        if not self.started and self.tmpl is not None:
            self.started = True
            return True
        vals = [(x, S.env[x]) for x in sorted((x for x in S.env), key=repr) if S.env[x] is not None]
        if self.locals:
            vals += [(('mem', c), S.mem[c]) for c in sorted(S.mem, key=repr) if c[0][0] == 'alloca' and isform(S.mem[c])]
        for S2, vs in self.splits(S, self.at_vals(S) + tuple(v for _, v in vals)):
            k = len(self.at_vals(S))
            g = self.at_head(S2, b, vs[:k])
            self.heads.setdefault(b, []).append((S2, g, dict(zip((x for x, _ in vals), vs[k:])), self))
        return False

    def at_vals(self, S):
        return ()


def follow(rep, f, entries, generics, mk, slopes, foreign, what):
    """entries / generics: descriptions; mk(rep, description, tmpl) -> (rule, state). foreign(form): does it
    mention quantities of one particular description (so cannot be part of a loop variable)? Returns runs."""
    n = 0
    entry = {}
    for c in entries:
        r, s = mk(rep, c, None)
        r.loop_init(None)
        vf.VF(f, r, [s])
        n += 1
        for b, l in r.heads.items():
            entry.setdefault(b, []).extend(l)
    if not entry:
        return n
    bad = set()

    def holds(S, g, v, t, r):
        if t[0] == 'cell':
            return r.eq(S, r.norm(S, v), r.norm(S, r.vf.load(S, t[1])))
        return r.eq(S, r.norm(S, v), r.norm(S, add(t[0], mul(g, t[1]))))

    def guess(b, l):
        """what the variables at a loop head are: base + slope * progress, or what is stored in some member"""
        tm = {}
        for x in {x for _, _, env, _ in l for x in env}:
            if isinstance(x, tuple) and x[:1] == ('arg',):
                continue
            tm[x] = None
            if any(x not in env for _, _, env, _ in l):
                continue
            S, g, env, r = l[0]
            cand = []
            for k in slopes:
                base = r.norm(S, add(env[x], mul(g, -k)))
                if not foreign(base):
                    cand.append((base, k))
            cand += [('cell', c) for c in r.lay.c.values()]
            for t in cand:
                if (b, x, t[1]) not in bad and all(holds(S2, g2, env2[x], t, r2) for S2, g2, env2, r2 in l):
                    tm[x] = t
                    break
        return tm
    tms = {b: guess(b, l) for b, l in entry.items()}
    for rnd in range(40):
        col = Collect()
        again = {}
        for b, tm in tms.items():
            for c in generics:
                r, s = mk(col, c, tm)
                r.loop_init(tm)
                for x, t in tm.items():
                    if isinstance(x, tuple) and x[:1] == ('mem',):
                        if t is not None and t[0] != 'cell':
                            s.mem[x[1]] = add(t[0], mul(c.prog, t[1]))
                        continue
                    s.env[x] = L(('w', b, x)) if t is None else s.mem.get(t[1], L(('init', t[1]))) if t[0] == 'cell' else add(t[0], mul(c.prog, t[1]))
                vf.VF(f, r, [s], start=b)
                n += 1
                for b2, l in r.heads.items():
                    again.setdefault(b2, []).extend(l)
        fresh = False
        for b, l in again.items():
            if b not in tms:
                tms[b] = guess(b, l)
                fresh = True
                continue
            tm = tms[b]
            redo = set()
            for S, g, env, r in l:
                for x, t in tm.items():
                    if isinstance(x, tuple) and x[:1] == ('mem',) and t is not None and x not in env:
                        tm[x] = None      # no longer known
                        fresh = True
                for x, v in env.items():
                    if isinstance(x, tuple) and x[:1] == ('arg',) or x in redo:
                        continue
                    t = tm.get(x)
                    if x not in tm:
                        tm[x] = None
                        fresh = True
                    elif t is not None and not holds(S, g, v, t, r):
                        bad.add((b, x, t[1]))
                        redo.add(x)
                        tm[x] = guess(b, entry.get(b, l)).get(x)
                        fresh = True
        if not fresh:
            col.flush(rep)
            return n
    raise build.Broken('the loop of %s is not understood' % what)
