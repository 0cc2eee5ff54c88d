"""Executes programs of public PIE calls and records outcome + projected state."""
import importlib, os, sys
import numpy as np
from drvlib import main, call, F, NOF, limit

MODS = {}
HOOKS = []          # hook events of the call in progress


def doc(cfg, n):
    return '' if cfg.get('nodoc', 0) >> cfg['names'].index(n) & 1 else 'doc of ' + n


def module_for(cfg):
    """Write (once) and import a module defining a polynomial model with the given
    parameters; returns the inference class."""
    key = (tuple(cfg['names']), tuple(cfg['defaults']), cfg.get('method', 'chisqr'), cfg.get('hooks', 0),
           cfg.get('vec', 0), cfg.get('npred', 1), cfg.get('ndata', 5), cfg.get('nodoc', 0))
    if key in MODS:
        return MODS[key]
    base = {'chisqr': 'ChisqrInference', 'maxlike': 'MaxLikeInference', 'bayes': 'BayesianInference'}[cfg.get('method', 'chisqr')]
    name = 'piemod%d' % len(MODS)
    L = ['from inference.pie import *', 'from numpy import array, arange', 'import pie_driver_hooks as H', '',
         'class Sig(SignalModel):', '']
    for n, d in zip(cfg['names'], cfg['defaults']):
        L.append('    %s = RealParam(%r, %r)' % (n, d, doc(cfg, n)))
    poly = ' + '.join('self.%s*%s' % (n, '*'.join(['x'] * i) or '1.') for i, n in enumerate(cfg['names']))
    L += ['', '    def signal(self, x):', '        H.ev("sig", self, None)', '        return %s' % poly, '']
    if cfg.get('vec'):
        L += ['    def signals(self, xs):', '        H.ev("sig", self, None)', '        x = xs', '        return %s + 0.*x' % poly, '']
    if cfg.get('hooks'):
        L += ['    def on_param_change(self, param):', '        H.ev("chg", self, param.name)', '',
              '    def on_use(self):', '        H.ev("use", self, None)', '']
    if cfg.get('method') == 'bayes':
        L += ['    def log_prior(self):', '        return -0.125*self.%s' % cfg['names'][0], '']
    L += ['class Pred(PredictorSet):']
    nd = cfg.get('ndata', 5)
    for j in range(cfg.get('npred', 1)):
        L.append('    d%d = SampledGaussian(arange(%d)*.5, (arange(%d)*%d %% 4)*.75, 1.+.5*(arange(%d)%%2))'
                 % (j, nd + j, nd + j, 3 + 2 * j, nd + j))
    L += ['', 'class Inf(%s, Sig, Pred):' % base, '    pass', '']
    with open(name + '.py', 'w') as f:
        f.write('\n'.join(L))
    importlib.invalidate_caches()
    m = importlib.import_module(name)
    MODS[key] = m.Inf
    return m.Inf


sys.path.insert(0, os.getcwd())
import types
H = types.ModuleType('pie_driver_hooks')
sys.modules['pie_driver_hooks'] = H
STATUS = None


def proj(obj, names, sc):
    """Public projection of an inference object; does not touch unused parameters."""
    from inference.pie.param import Status, StepType
    stn = {Status.undef: 'undef', Status.fixed: 'fixed', Status.stepping: 'stepping', Status.varying: 'varying'}
    fx = [p.name for p in obj.fixed_params]
    sp = [p.name for p in obj.stepping_params]
    vy = [p.name for p in obj.varying_params]
    out = {}
    for n in names:
        if n in fx or n in sp or n in vy:
            p = getattr(obj, n)
            st = stn.get(p.status, '?')
            bd = bool(p.bounded)
            r = {'st': st, 'v': F(float(p), sc), 'gv': F(float(p.get_value()), sc), 'bd': bd,
                 'lo': F(p.lo, sc) if bd else NOF, 'hi': F(p.hi, sc) if bd else NOF,
                 'dl': F(p.delta, sc) if p.delta is not None else NOF}
            if st == 'stepping':
                r.update(slo=F(p.slo, sc), shi=F(p.shi, sc), n=int(p.steps), ix=int(p.step_index()),
                         ty='lin' if p.stype == StepType.lin_steps else 'log')
            else:
                r.update(slo=NOF, shi=NOF, n=0, ix=0, ty='none')
            out[n] = r
    return {'fx': fx, 'sp': sp, 'vy': vy, 'p': out, 'seen': sorted(out)}


def run(prog, events):
    from inference.pie.signalmodel import StopStepping
    cfg = prog['cfg']
    names = cfg['names']
    sc = cfg.get('scale', 1.0)
    cls = module_for(cfg)
    objs = [cls() for i in range(cfg.get('nobj', 1))]
    ids = {id(o): i + 1 for i, o in enumerate(objs)}
    snaps = []
    listeners = {}
    hk = []

    def hook(kind, obj, pname):
        o = ids.get(id(obj), 0)
        if kind == 'chg':
            hk.append({'h': 'chg', 'o': o, 'p': pname, 'v': F(float(getattr(obj, pname)), sc)})
        else:
            vals = {n: F(float(getattr(obj, n)), sc) for n in names}
            hk.append({'h': kind, 'o': o, 'p': '', 'vals': vals})
    H.ev = hook if cfg.get('hooks') else (lambda *a: None)

    class Lis(object):
        def __init__(self, k):
            self.k = k
        def _on_param_value_change(self, param):
            hk.append({'h': 'lis', 'o': self.k, 'p': param.name, 'v': NOF})
        on_param_change = on_param_use = _on_param_value_change
        def _on_param_status_change(self, param, old, new):
            pass

    # Numbers are passed as floats, integers (if integral) and numpy scalars in turn.
    turn = [0]

    def S(x):
        if x is None:
            return None
        y = x * sc
        if turn[0] % 5 == 1 and y == int(y if abs(y) < 1e15 else 0):
            return int(y)
        if turn[0] % 5 == 2:
            return np.float64(y)
        return y
    for op in prog['ops']:
        turn[0] += 1
        o = op.get('o', 1)
        obj = objs[o - 1]
        k = op['op']
        e = {'op': k, 'o': o, 'p': op.get('p', ''), 'ret': 0}
        del hk[:]
        p = op.get('p')
        if op.get('ulp'):        # the smallest possible change of the current value
            v0 = float(getattr(obj, p))
            op = dict(op, v=float(np.nextafter(v0, np.inf * op['ulp'])) / sc)
        if k in ('get',):
            r = call(lambda: float(getattr(obj, p)))
        elif k == 'assign':
            e['v'] = F(S(op['v']), sc)
            r = call(setattr, obj, p, S(op['v']))
        elif k == 'fix':
            e['v'] = F(S(op['v']), sc)
            r = call(lambda: getattr(obj, p).fix(S(op['v'])))
        elif k == 'freeze':
            r = call(lambda: getattr(obj, p).fix())
        elif k == 'range':
            a, b = S(op['a']), S(op['b'])
            e['a'], e['b'] = F(a, sc), F(b, sc)
            form = op.get('form', 'pair')
            if form == 'pair':
                r = call(lambda: getattr(obj, p).range(a, b))
            elif form == 'tuple':
                r = call(lambda: getattr(obj, p).range((a, b)))
            else:
                r = call(lambda: getattr(obj, p).range([a, b]))
        elif k == 'badrange':
            if op.get('form') == 'three':
                r = call(lambda: getattr(obj, p).range(1., 2., 3.))
            elif op.get('form') == 'none':
                r = call(lambda: getattr(obj, p).range())
            else:
                r = call(lambda: getattr(obj, p).range(3.))
        elif k == 'vary':
            v, d, a, b = S(op.get('v')), S(op.get('d')), S(op.get('a')), S(op.get('b'))
            e['v'], e['d'], e['a'], e['b'] = F(v, sc), F(d, sc), F(a, sc), F(b, sc)
            kw = {}
            if v is not None: kw['start'] = v
            if d is not None: kw['delta'] = d
            if a is not None: kw['range'] = (a, b) if op.get('form') != 'list' else [a, b]
            r = call(lambda: getattr(obj, p).vary(**kw))
        elif k == 'setval':
            e['v'] = F(S(op['v']), sc)
            r = call(lambda: getattr(obj, p).set_value(S(op['v'])))
        elif k in ('linstep', 'logstep'):
            a, b = S(op.get('a')), S(op.get('b'))
            e['a'], e['b'], e['n'] = F(a, sc), F(b, sc), op['n']
            kw = {} if op['n'] == 10 else {'n': op['n']}
            if a is not None: kw['lo'] = a
            if b is not None: kw['hi'] = b
            if op.get('form') == 'step' and k == 'linstep':
                r = call(lambda: getattr(obj, p).step(**kw))
            elif op.get('form') == 'pos' and a is not None and b is not None:
                r = call(lambda: getattr(getattr(obj, p), k)(a, b, op['n']))
            else:
                r = call(lambda: getattr(getattr(obj, p), k)(**kw))
        elif k == 'pnext':
            r = call(lambda: getattr(obj, p).next_step())
        elif k == 'pprev':
            r = call(lambda: getattr(obj, p).prev_step())
        elif k == 'pfirst':
            r = call(lambda: getattr(obj, p).first_step())
        elif k == 'plast':
            r = call(lambda: getattr(obj, p).last_step())
        elif k == 'next':
            r = call(obj.next_step)
            if r[0] == 'err' and isinstance(r[1], StopStepping):
                r = ('stop', r[1])
        elif k == 'reset':
            r = call(obj.reset_steps)
        elif k == 'nums':
            r = call(lambda: (obj.step_nums(), obj.step_shape()))
            if r[0] == 'ok':
                e['ret'] = {'nums': [int(x) for x in r[1][0]], 'shape': [int(x) for x in r[1][1]]}
        elif k == 'snap':
            r = call(obj.get_params)
            if r[0] == 'ok':
                pv = r[1]
                snaps.append(pv)
                e['ret'] = {'names': list(pv.names), 'docs': [pv.docs[n] for n in pv.names]}
        elif k == 'restore':
            e['sn'] = op['sn']
            r = call(lambda: obj.set_params(snaps[op['sn'] - 1]))
        elif k == 'score':
            r = call(obj.score)
            if r[0] == 'ok':
                e['ret'] = F(r[1])
        elif k == 'fit':
            r = call(obj.fit)
            e['ret'] = 0
        elif k == 'sim':
            r = call(lambda: getattr(obj, 'd0').sim())
        elif k == 'addlis':
            L = listeners.setdefault(op['k'], Lis(op['k']))
            e['k'] = op['k']
            r = call(lambda: getattr(obj, p).add_listener(L))
        elif k == 'dellis':
            L = listeners.setdefault(op['k'], Lis(op['k']))
            e['k'] = op['k']
            r = call(lambda: getattr(obj, p).del_listener(L))
        else:
            raise RuntimeError('bad op ' + k)
        e['r'] = r[0]
        if r[0] == 'err':
            e['exc'] = type(r[1]).__name__
        e['hk'] = list(hk)
        e['obs'] = [proj(x, names, sc) for x in objs]
        e['sobs'] = [{n: F(getattr(s, n), sc) for n in names if hasattr(s, n)} for s in snaps]
        if k == 'snap' and not prog['cfg'].get('nosnapstr'):
            pass
        events.append(e)
    c = dict(cfg)
    c['df'] = {n: F(S0 * 1.0, sc) for n, S0 in zip(names, cfg['defaults'])}
    c['docs'] = [doc(cfg, n) for n in names]
    c['nobj'] = cfg.get('nobj', 1)
    for z in ('defaults', 'scale'):
        c.pop(z, None)
    return c


if __name__ == '__main__':
    main(run, 'C01+C02+C03+C05+C08')
