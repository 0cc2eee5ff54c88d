"""Scores inferences of every method and records the statistics they report."""
import numpy as np
from drvlib import main, call

NAMES = ['a', 'b', 'c']


class Boom(Exception):
    pass


EXC = dict(Boom=Boom, ValueError=ValueError, TypeError=TypeError, IndexError=IndexError, KeyError=KeyError, AttributeError=AttributeError,
           ZeroDivisionError=ZeroDivisionError, FloatingPointError=FloatingPointError, RuntimeError=RuntimeError, AssertionError=AssertionError)


def make(cfg, ctl):
    from inference.pie import (RealParam, SignalModel, PredictorSet, SampledGaussian,
                               ChisqrInference, MaxLikeInference, BayesianInference)
    dim, np_ = cfg['dim'], len(cfg['q'])
    ns = {n: RealParam(cfg['q'][k] / 4., n) for k, n in enumerate(NAMES[:np_])}

    def signal(self, *x):
        if ctl['bad'] in ('signal', 'both'):
            raise ctl['exc']('model failure')
        f = [1., x[0], x[0] * x[0] if len(x) == 1 else x[1]]
        return sum(float(getattr(self, NAMES[k])) * f[k] for k in range(np_))

    def signals(self, xs):
        if ctl['bad'] in ('signals', 'both'):
            raise ctl['exc']('model failure')
        if dim == 1:
            f = [np.ones(len(xs)), xs, xs * xs]
        else:
            f = [np.ones(len(xs)), xs[:, 0], xs[:, 1]]
        v = sum(float(getattr(self, NAMES[k])) * f[k] for k in range(np_))
        return v

    def prior(self):
        return cfg['k0'] / 32. - .75 * float(self.a)
    if cfg['sig'] in ('signal', 'both'):
        ns['signal'] = signal
    if cfg['sig'] in ('signals', 'both'):
        ns['signals'] = signals
    ns['log_prior'] = prior
    if cfg['derived']:                  # derived state built when the model is used
        def on_use(self):
            self.table = [float(getattr(self, n)) for n in NAMES[:np_]]

        def dsignal(self, *x):
            if ctl['bad'] in ('signal', 'both'):
                raise ctl['exc']('model failure')
            f = [1., x[0], x[0] * x[0] if len(x) == 1 else x[1]]
            return sum(t * y for t, y in zip(self.table, f))
        ns['on_use'] = on_use
        if 'signal' in ns:
            ns['signal'] = dsignal
    Sig = type(SignalModel)('Sig', (SignalModel,), ns)
    prd = []
    for ds in cfg['data']:
        x = [d['x'] if dim > 1 else d['x'][0] for d in ds]
        y, s = [d['v'] / 4. for d in ds], [1. / d['z'] for d in ds]
        if cfg['form'] == 'arrays':
            prd.append(SampledGaussian(np.array(x, float), np.array(y), np.array(s)))
        else:
            prd.append(SampledGaussian(list(zip(x, y, s))))
    k = cfg['inh']
    Pred = type(PredictorSet)('Pred', (PredictorSet,), {'d%d' % j: p for j, p in enumerate(prd[:k])})
    if k < len(prd):
        Pred = type(PredictorSet)('Pred2', (Pred,), {'d%d' % (k + j): p for j, p in enumerate(prd[k:])})
    bases = {'chisqr': ChisqrInference, 'maxlike': MaxLikeInference, 'bayes': BayesianInference}
    out = {}
    for m in cfg['meth']:
        if m not in out:
            b = bases[m]
            out[m] = type(b)('Inf_' + m, (b, Sig, Pred), {})
    return [out[m]() for m in cfg['meth']]


def units(v, u):
    """Exact multiple of 1/u, or a value no specification produces."""
    n = round(v * u) if np.isfinite(v) and abs(v * u) < 2e9 else 2000000001
    return n, abs(v * u - n) <= 1e-9 * max(1., abs(v * u))


def run(prog, events):
    cfg = prog['cfg']
    ctl = {'bad': '', 'exc': Boom}
    objs = make(cfg, ctl)
    names = NAMES[:len(cfg['q'])]
    npred = len(cfg['data'])

    def par(o):
        r = [units(float(getattr(o, n)), 4) for n in names]
        return [n if x else -999999 for n, x in r]

    def data(o):
        out = []
        for j in range(npred):
            d = getattr(o, 'd%d' % j)
            out.append([{'x': [int(t) for t in np.atleast_1d(d.locns[k])], 'v': units(float(d.vals[k]), 4)[0],
                         'z': units(1. / float(d.sigmas[k]), 1)[0]} for k in range(len(d.vals))])
        return out
    for op in prog['ops']:
        o = objs[op['o'] - 1]
        k = op['op']
        e = {'op': k, 'o': op['o'], 'p': op.get('p', 1), 'r': 'ok'}
        if k == 'set':
            n, v = names[op['p'] - 1], op['v'] / 4.
            f = op['form']
            if f in ('assign', 'value') and n in [p.name for p in o.stepping_params]:
                f = 'fix'
            if f == 'value' and n not in [p.name for p in o.varying_params]:
                f = 'vary'
            if f == 'assign':
                r = call(setattr, o, n, v)
            elif f == 'fix':
                r = call(lambda: getattr(o, n).fix(v))
            elif f == 'vary':
                r = call(lambda: getattr(o, n).vary(v, .25, (-50., 50.)))
            elif f == 'value':
                r = call(lambda: getattr(o, n).set_value(v))
            else:                                   # reached by stepping
                r = call(lambda: getattr(o, n).linstep(v - 2., v, 3))
                if r[0] == 'ok' and f == 'step':
                    r = call(lambda: (getattr(o, n).next_step(), getattr(o, n).next_step()))
                elif r[0] == 'ok':
                    r = call(lambda: getattr(o, n).last_step())
            e['v'] = op['v']
        elif k == 'data':
            d = getattr(o, 'd%d' % (op['p'] - 1))
            new = op['d']
            x = [t['x'] if cfg['dim'] > 1 else t['x'][0] for t in new]
            y, s = np.array([t['v'] / 4. for t in new]), np.array([1. / t['z'] for t in new])

            def change():
                if op['form'] == 'sim' or len(new) != len(d.vals):
                    d.sim(locns=np.array(x, float), sigmas=s)
                    d.changing_data()
                    d.vals[:] = y
                else:
                    d.changing_data()
                    for m in range(len(new)):
                        d.locns[m], d.vals[m], d.sigmas[m] = x[m], y[m], s[m]
            r = call(change)
            e['d'] = new
        elif k == 'ask':
            w = op['w']
            if w == 'logp' and cfg['meth'][op['o'] - 1] != 'bayes':
                w = 'score'
            e['w'], e['bad'] = w, False
            if op.get('bad'):
                # how the model fails: in a way that must be seen by the caller
                ctl['bad'] = {'signal': 'signal', 'signals': 'signals', 'both': op['bad']}[cfg['sig']]
                e['bad'] = ctl['bad'] in ('signals', 'both') or cfg['sig'] == 'signal'
                ctl['exc'] = EXC[op['exc']]
                e['want'] = op['exc']
            d = getattr(o, 'd%d' % (op['p'] - 1))
            r = call({'score': o.score, 'logp': getattr(o, 'logp', None), 'chisqr': d.chisqr, 'loglike': d.log_like}[w])
            ctl['bad'] = ''
            e['n'], e['x'], e['exc'], e['res'] = 0, False, '', []
            if r[0] == 'ok':
                e['n'], e['x'] = units(float(r[1]), 32)
                for j in range(npred):
                    q = getattr(getattr(o, 'd%d' % j), 'resids', None)
                    e['res'].append([] if q is None else [units(float(t), 4)[0] for t in q])
            elif r[0] == 'err':
                e['exc'] = type(r[1]).__name__
        e['r'] = r[0]
        if r[0] == 'err':
            e['err'] = repr(r[1])[:200]
        e['q'] = [par(x) for x in objs]
        e['dd'] = [data(x) for x in objs]
        events.append(e)
    return {'meth': cfg['meth'], 'q': cfg['q'], 'd': cfg['data'], 'k0': cfg['k0']}


main(run, 'C32')
