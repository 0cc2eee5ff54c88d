"""Defines classes step by step (as a user would) and records what inference objects
made from every inference class defined so far report."""
import importlib, itertools, os, random, sys, types
import numpy as np
from drvlib import main, call, M

sys.path.insert(0, os.getcwd())
H = types.ModuleType('discovery_hooks')
H.seen = []
sys.modules['discovery_hooks'] = H
SHARED = {}


def par(name, v, doc):
    from inference.pie import RealParam
    if (name, v, doc) not in SHARED:
        SHARED[name, v, doc] = RealParam(v) if doc == 'Undocumented real parameter.' else RealParam(v, doc)
    return SHARED[name, v, doc]


H.par = par
COUNT = itertools.count()
HEAD = 'from inference.pie import *\nfrom numpy import array\nimport discovery_hooks as H\n'


def source(prog, k, c, imports):
    """Source of class k; formatting varies with the program's style seed."""
    rng = random.Random(prog['style'] * 131 + k)
    sty = prog['style'] % 5
    base = {'sig': 'SignalModel', 'pred': 'PredictorSet'}
    L = [HEAD] + imports
    if c['kind'] == 'inf':
        m = prog['method']
        mix = ['C%d' % c['sig'], 'C%d' % c['pred']]
        if prog['style'] % 2:
            mix.reverse()
        L += ['class C%d(%s):' % (k, ', '.join([m] + mix))]
        if m == 'BayesianInference':
            L += ['    def log_prior(self):', '        return 0.']
        else:
            L += ['    pass']
        return '\n'.join(L) + '\n'
    if c['kind'] == 'isub':
        L += ['class C%d(C%d):' % (k, c['base']), '    """p = q"""', '    extra = 3', '']
        return '\n'.join(L) + '\n'
    par = ['C%d' % c['base'] if c['base'] else base[c['kind']]]
    if c.get('mix'):      # a class outside the framework among the bases
        L += ['class Mixin%d:' % k, '    def unrelated(self):', '        return 1', '']
        par.insert(c['mix'] - 1, 'Mixin%d' % k)
    L += ['class C%d(%s):' % (k, ', '.join(par))]
    names = [d['n'] for d in c['own']]
    if sty in (1, 3):
        L += ['    """A model.', '', '    ' + ' '.join('%s = RealParam(7.)' % n for n in reversed(names)), '    """']
    if sty in (2, 3) and names:
        L += ['', '    def helper(self):'] + ['        %s = 1' % n for n in reversed(names)] + ['        return %s' % names[0], '']
    L += ['    x_%d = 0' % k]
    j = 0
    own = c['own']
    ids = prog['ids'].setdefault(k, {})
    while j < len(own):
        d = own[j]
        def rhs(d):
            if d['kd'] == 'par':
                v = repr(d['v'] / 4.)
                if prog['style'] % 3 == 0 and rng.random() < .5:     # one declaration object in several classes
                    return 'H.par(%r, %s, %r)' % (d['n'], v, d['doc'])
                return 'RealParam(%s)' % v if d['doc'] == 'Undocumented real parameter.' else \
                    ('RealParam(%s, %r)' % (v, d['doc']) if sty % 2 else 'RealParam(value=%s, doc=%r)' % (v, d['doc']))
            if d['kd'] == 'prd':
                ids[d['n']] = len(prog['ids']) * 50 + len(ids) + 1.
                return 'SampledGaussian(array([%r]), array([0.]), array([1.]))' % ids[d['n']]
            return rng.choice(['0', '"text"', '[1, 2]', 'staticmethod(len)', 'None'])
        form = rng.randrange(5) if sty else 0
        if form == 1:
            L += ['    %s    =    %s' % (d['n'], rhs(d))]
        elif form == 2:
            L += ['    %s: object = %s' % (d['n'], rhs(d))]
        elif form == 3 and j + 1 < len(own):
            e = own[j + 1]
            L += ['    %s, %s = %s, %s' % (d['n'], e['n'], rhs(d), rhs(e))]
            j += 1
        elif form == 4:
            L += ['    %s=\\' % d['n'], '      %s' % rhs(d), '    # %s = 3' % names[-1]]
        else:
            L += ['    %s = %s' % (d['n'], rhs(d))]
        if sty == 4 and rng.random() < .5:
            L += ['    y_%d_%d = 1' % (k, j)]
        j += 1
    if c['kind'] == 'sig':
        L += ['', '    def signal(self, x):', '        H.seen.append(float(x))', '        return 0.']
    return '\n'.join(L) + '\n'


def report(obj, ids):
    try:
        params, preds = list(obj.params), list(obj.predictors)
        defs, docs = [], []
        for n in params:
            p = getattr(obj, n)
            defs.append(M(float(p), .25))
            docs.append(p.doc)
        fx = [p.name for p in obj.fixed_params]
        H.seen = []
        r, v = call(obj.score)
        if r != 'ok':
            return {'ok': True, 'params': params, 'preds': preds, 'defs': defs, 'docs': docs, 'fx': fx, 'scored': ['?' + str(v)[:80]]}
        order = []
        for x in H.seen:
            n = ids.get(x, '?')
            if n not in order:
                order.append(n)
        return {'ok': True, 'params': params, 'preds': preds, 'defs': defs, 'docs': docs, 'fx': fx, 'scored': order}
    except Exception as ex:
        return {'ok': True, 'params': ['?' + str(ex)[:80]], 'preds': [], 'defs': [], 'docs': [], 'fx': [], 'scored': []}


def run(prog, events):
    ns = {'__name__': 'nosource'}
    prog['ids'] = {}
    SHARED.clear()
    cls = []
    old = []
    num = next(COUNT)
    for k, c in enumerate(prog['classes'], 1):
        imports = []
        if prog['file']:
            need = [i for i in (c['base'], c['sig'], c['pred']) if i]
            imports = ['from dm%d_%d import C%d' % (num, i, i) for i in need]
        src = source(prog, k, c, imports)
        if prog['file']:
            name = 'dm%d_%d' % (num, k)
            with open(name + '.py', 'w') as f:
                f.write(src)
            importlib.invalidate_caches()
            r, m = call(importlib.import_module, name)
            if r == 'ok':
                ns['C%d' % k] = getattr(m, 'C%d' % k)
        else:
            r, m = call(exec, src, ns)
        if r != 'ok':
            events.append({'cls': c, 'rep': [], 'old': [], 'err': str(m)[:300]})
            return {'style': prog['style']}
        ids = {x: n for d in prog['ids'].values() for n, x in d.items()}
        was = [{'ok': False} if o is None else report(o, ids) for o in old]
        if c['kind'] in ('inf', 'isub'):
            cls.append(k)
        rep = []
        new = []
        for q in cls:
            r, o = call(ns['C%d' % q])
            new.append(o if r == 'ok' else None)
            rep.append(report(o, ids) if r == 'ok' else {'ok': False})
            if r == 'ok':      # what somebody does to the lists of an object concerns that object only
                r, o = call(ns['C%d' % q])
                if r == 'ok':
                    call(lambda: o.params.append('zz'))
                    call(lambda: o.predictors.insert(0, 'zz'))
        if len(new) > len(old):
            old.append(new[-1])
        events.append({'cls': c, 'rep': rep, 'old': was})
    return {'style': prog['style']}


main(run, 'C07')
