import json, os, sys, time, traceback
from build import VERIF, Broken, tree


class Report:
    """Collects obligations and violations of one property."""

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.obl = {}          # rule -> number of obligations discharged/inspected
        self.viol = []         # (key, text)
        self.details = []      # free-form list of what was analysed
        self.funcs = set()
        self.assumptions = []
        self.rules = {}
        self.expl = ''

    def rule(self, rid, text):
        self.rules[rid] = text

    def ok(self, rid, what=None, n=1):
        self.obl[rid] = self.obl.get(rid, 0) + n
        if what is not None and len(self.details) < 400:
            self.details.append('%s: %s' % (rid, what))

    def fn(self, f):
        self.funcs.add(f.name if hasattr(f, 'name') else f)

    def fail(self, rid, key, text, trace=None):
        """key identifies the construct (no line numbers) for the known-findings file."""
        self.obl[rid] = self.obl.get(rid, 0) + 1
        full = '%s|%s|%s' % (self.prop, rid, key)
        if any(v['key'] == full for v in self.viol):
            return
        self.viol.append({'key': full, 'rule': rid, 'text': text, 'trace': trace or []})

    def need(self, rid, n, what=''):
        """the rule must have matched at least n instances."""
        if self.obl.get(rid, 0) < n:
            raise Broken('rule %s matched %d instances, expected at least %d %s' % (rid, self.obl.get(rid, 0), n, what))


def known():
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    r = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('known: '):
                key, _, txt = l[len('known: '):].partition(' ## ')
                r[key.strip()] = txt.strip()
    return r


def finish(rep, level='other'):
    k = known()
    news, olds = [], []
    for v in rep.viol:
        (olds if v['key'] in k else news).append(v)
    ev = {
        'property': rep.prop, 'tier': rep.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': level,
        'coverage': {
            'explanation': rep.expl or 'static rules over the normalised IR of /repo',
            'rules': rep.rules,
            'obligations': sum(rep.obl.values()),
            'discharged': sum(rep.obl.values()) - len(rep.viol),
            'obligations_per_rule': rep.obl,
            'functions_analysed': len(rep.funcs),
            'functions': sorted(rep.funcs)[:300],
            'sites': rep.details[:400],
            'repo_tree': tree(),
        },
        'assumptions': rep.assumptions,
        'wall_s': round(time.time() - rep.t0, 2),
    }
    if rep.viol:
        ev['violations'] = len(news)
        ev['coverage']['violations_found'] = [v['text'] for v in news]
        ev['coverage']['known_findings'] = [v['text'] for v in olds]
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, rep.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for v in olds:
        print('KNOWN-FINDING: property=%s %s' % (rep.prop, v['text']))
    if news:
        rp = os.path.join(d, rep.prop + '.violation.txt')
        with open(rp, 'w') as f:
            for v in news:
                f.write('%s\n  rule: %s\n  key: %s\n  path: %s\n' % (v['text'], rep.rules.get(v['rule'], v['rule']), v['key'], ' -> '.join(v['trace'])))
        for v in news[:12]:
            print('  %s [%s]' % (v['text'][:600], v['rule']))
            if v['trace']:
                print('    path: ' + ' -> '.join(v['trace']))
        if len(news) > 12:
            print('  ... and %d more' % (len(news) - 12))
        print('VIOLATION property=%s replay=%s' % (rep.prop, rp))
        return 1
    print('OK property=%s obligations=%d functions=%d wall=%.1fs' % (rep.prop, sum(rep.obl.values()), len(rep.funcs), time.time() - rep.t0))
    return 0
