"""Simulates data in inference objects and records the data of every object."""
import numpy as np
from drvlib import main, call, F, M, key

NOTE = [0]


def make(cfg, kept):
    from inference.pie import (RealParam, SignalModel, PredictorSet, SampledGaussian,
                               ChisqrInference, MaxLikeInference)
    dim = cfg['dim']
    ns = {'a': RealParam(1., 'a'), 'b': RealParam(2., 'b'), 'c': RealParam(-1., 'c')}
    if dim == 1:
        ns['signal'] = lambda self, x: float(self.a) + float(self.b) * x
        if cfg['vec']:
            ns['signals'] = lambda self, xs: float(self.a) + float(self.b) * xs
    else:
        ns['signal'] = lambda self, x, y: float(self.a) + float(self.b) * x + float(self.c) * y
        if cfg['vec']:
            ns['signals'] = lambda self, xs: float(self.a) + float(self.b) * xs[:, 0] + float(self.c) * xs[:, 1]
    Sig = type(SignalModel)('Sig', (SignalModel,), ns)
    prd = {}
    for j, ds in enumerate(cfg['data']):
        x = np.array([[t / 4. for t in d['x']] if dim > 1 else d['x'][0] / 4. for d in ds])
        y = np.array([d['y'] / 4. for d in ds])
        s = np.array([2. ** -d['s'] for d in ds])
        if cfg['form'] == 'three':
            args = (x, y, s)
        elif cfg['form'] == 'table' and dim == 1:
            args = (np.array([x, y, s]).T.copy(),)
        else:
            args = ([(x[i] if dim > 1 else float(x[i]), float(y[i]), float(s[i])) for i in range(len(y))],)
        for a in args:
            if isinstance(a, np.ndarray):
                kept.append((a, a.copy()))
        prd['d%d' % j] = SampledGaussian(*args)
    Pred = type(PredictorSet)('Pred', (PredictorSet,), prd)
    base = ChisqrInference if cfg['method'] == 'chisqr' else MaxLikeInference
    return type(base)('Inf', (base, Sig, Pred), {})


def run(prog, events):
    cfg = prog['cfg']
    dim = cfg['dim']
    kept = []
    cls = make(cfg, kept)
    objs = [cls() for _ in range(cfg['nobj'])]
    np.random.seed(prog['seed'])

    def data(o, j):
        d = getattr(o, 'd%d' % j)
        x, s, v = d.locns, d.sigmas, d.vals
        ln = [len(x), len(s), len(v), int(d.ndata)]
        out = []
        if len(set(ln)) == 1:
            for i in range(ln[0]):
                xi = [float(t) for t in np.atleast_1d(x[i])]
                p = float(o.a) + float(o.b) * xi[0] + (float(o.c) * xi[1] if dim > 1 else 0.)
                out.append({'x': [int(t * 4) if t * 4 == int(t * 4) else -9999 for t in xi], 's': key(float(s[i])),
                            'v': key(float(v[i])), 'z': M((float(v[i]) - p) / float(s[i]), 1e-3), 'nz': float(v[i]) != p,
                            'y': M((float(v[i]) - p) / float(s[i]), 1e-8)})
        return {'len': ln, 'd': out}

    def score(o):
        chi = 0.
        for j in range(len(cfg['data'])):
            d = getattr(o, 'd%d' % j)
            for i in range(len(d.vals)):
                xi = [float(t) for t in np.atleast_1d(d.locns[i])]
                p = float(o.a) + float(o.b) * xi[0] + (float(o.c) * xi[1] if dim > 1 else 0.)
                chi += ((float(d.vals[i]) - p) / float(d.sigmas[i])) ** 2
        ind = chi if cfg['method'] == 'chisqr' else -.5 * chi
        r, v = call(o.score)
        if r != 'ok':
            return {'ok': False, 'sc': F(0.), 'ind': F(0.)}
        sc = max(1., abs(ind)) * 1e-3
        return {'ok': True, 'sc': F(float(v), sc), 'ind': F(ind, sc)}

    def arg(vals, form, scalar=False):
        if form == 'array':
            a = np.array(vals, float)
            kept.append((a, a.copy()))
            return a
        if form == 'int' and all(float(v) == int(v) for v in np.ravel(vals)):
            a = np.array(vals, int)
            kept.append((a, a.copy()))
            return a
        if form == 'list':
            a = list(vals)
            kept.append((a, list(vals)))
            return a
        return tuple(vals)

    def same(a, b):
        return np.array_equal(np.asarray(a), np.asarray(b))
    for op in prog['ops']:
        o = objs[op['o'] - 1]
        k = op['op']
        e = {'op': k, 'o': op['o'], 'p': op.get('p', 1), 'k': op.get('k', 0), 'r': 'ok',
             'xs': op.get('xs', []), 'ss': [key(2. ** -t) for t in op.get('ss', [])]}
        if k == 'param':
            r = call(setattr, o, op['n'], float(op['v']))
        elif k == 'poke':       # the caller changes the arrays it passed in earlier
            for i, (a, b) in enumerate(kept):
                if isinstance(a, np.ndarray):
                    a += 3
                else:
                    a[:] = [[t + 3. for t in q] if isinstance(q, list) else q + 3. for q in a]
                kept[i] = (a, a.copy())
            r = ('ok', None)
        elif k == 'decl':
            from inference.pie import SampledGaussian
            L = op['lens']
            a = [np.ones([L[0], 2, 2][:op['rank']]), np.ones(L[1]), np.ones(L[2])]
            r = call(SampledGaussian, *([t.tolist() for t in a] if op['form'] == 'list' else a))
            e['lens'], e['rank'] = L, op['rank']
        else:
            d = getattr(o, 'd%d' % (op['p'] - 1))
            xs = [[t / 4. for t in x] if dim > 1 else x[0] / 4. for x in op.get('xs', [])]
            ss = [2. ** -t for t in op.get('ss', [])]
            f = op.get('form', 'array')
            kw = {}
            if k == 'sim':
                if xs: kw['locns'] = arg(xs, f)
                if ss: kw['sigmas'] = arg(ss, f)
                r = call(d.sim, **kw)
            elif k == 'sim1':
                if xs: kw['locn'] = arg(xs[0], f) if dim > 1 else xs[0]
                if ss: kw['sigma'] = ss[0]
                r = call(d.sim1, op['k'] - 1, **kw)
            elif k == 'add':
                if not xs or not ss:
                    for n_, v_ in (('locn', xs), ('sigma', ss)):
                        if v_:
                            kw.update({n_: v_[0]} if op.get('one') else {n_ + 's': arg(v_, f)})
                elif len(xs) == 1 and len(ss) == 1 and op.get('one'):
                    kw = {'locn': arg(xs[0], f) if dim > 1 else xs[0], 'sigma': ss[0]}
                else:
                    kw = {'locns': arg(xs, f), 'sigmas': arg(ss, f)}
                r = call(d.add_sim, **kw)
            else:
                raise RuntimeError(k)
        e['r'] = r[0]
        if r[0] == 'err':
            e['exc'] = repr(r[1])[:200]
        e['obs'] = [[data(x, j) for j in range(len(cfg['data']))] for x in objs]
        e['sc'] = [score(x) for x in objs]
        e['obs2'] = [[data(x, j) for j in range(len(cfg['data']))] for x in objs]
        fresh = cls()
        e['fresh'] = [data(fresh, j) for j in range(len(cfg['data']))]
        e['chg'] = sum(0 if same(a, b) else 1 for a, b in kept)
        events.append(e)
    c = {'nobj': cfg['nobj'], 'orig': [[{'x': d['x'], 's': key(2. ** -d['s']), 'v': key(d['y'] / 4.)} for d in ds] for ds in cfg['data']]}
    return c


main(run, 'C06')
