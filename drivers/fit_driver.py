"""Sets up polynomial inferences through the public interface, evaluates them (fit /
do_grid / optimize / score) and records what was returned and the state around it."""
import itertools, sys
import numpy as np
from drvlib import main, call, F, NOF, M

U = 32.0


def make(cfg):
    from inference.pie import (RealParam, SignalModel, PredictorSet, SampledGaussian,
                               ChisqrInference, MaxLikeInference, BayesianInference)
    names = cfg['names']
    seen = {}

    def note(self):
        for n in names:
            x = float(getattr(self, n))
            lo, hi = seen.get(n, (x, x))
            seen[n] = (min(lo, x), max(hi, x))

    def poly(self, x):
        note(self)
        t = 0.
        for k, n in enumerate(names):
            t = t + float(getattr(self, n)) * x ** k
        return t
    sig = {n: RealParam(0., 'doc ' + n) for n in names}
    if cfg['vec']:
        sig['signals'] = lambda self, xs: poly(self, xs) + 0. * xs
    sig['signal'] = poly
    if cfg['method'] == 'bayes':
        sig['log_prior'] = lambda self: cfg['k0'] - 0.125 * float(getattr(self, names[0]))
    Sig = type(SignalModel)('Sig', (SignalModel,), sig)
    prd = {}
    for j, ds in enumerate(cfg['data']):
        prd['d%d' % j] = SampledGaussian(np.array([float(d['x']) for d in ds]), np.array([d['y'] / U for d in ds]),
                                         np.array([2. / d['z'] for d in ds]))
    Pred = type(PredictorSet)('Pred', (PredictorSet,), prd)
    base = {'chisqr': ChisqrInference, 'maxlike': MaxLikeInference, 'bayes': BayesianInference}[cfg['method']]
    return type(base)('Inf', (base, Sig, Pred), {}), seen


def indep(cfg, vals):
    """The score, computed without the code under test."""
    chi = 0.
    for ds in cfg['data']:
        for d in ds:
            m = sum(v * float(d['x']) ** k for k, v in enumerate(vals))
            chi += ((d['y'] / U - m) * d['z'] / 2.) ** 2
    if cfg['method'] == 'chisqr':
        return chi
    return -.5 * chi + (cfg['k0'] - .125 * vals[0] if cfg['method'] == 'bayes' else 0.)


def candidate(cfg, vals, V, box):
    """A good point (units of 1/32, inside the box) for the varying coordinates V; only
    used as a candidate the fit has to compete with."""
    A, r = [], []
    for ds in cfg['data']:
        for d in ds:
            w = d['z'] / 2.
            A.append([w * float(d['x']) ** k for k in V])
            r.append(w * (d['y'] / U - sum(v * float(d['x']) ** k for k, v in enumerate(vals) if k not in V)))
    A, r = np.array(A), np.array(r)
    N, b = A.T @ A, A.T @ r
    if cfg['method'] == 'bayes' and 0 in V:
        b[V.index(0)] -= .125
    lo = np.array([bx[0] / U for bx in box])
    hi = np.array([bx[1] / U for bx in box])
    x = np.clip(np.linalg.lstsq(N, b, rcond=None)[0], lo, hi)
    for it in range(300):
        y = x.copy()
        for i in range(len(V)):
            if N[i, i] > 0:
                y[i] = np.clip((b[i] - N[i] @ y + N[i, i] * y[i]) / N[i, i], lo[i], hi[i])
        if np.max(np.abs(y - x)) < 1e-9:
            x = y
            break
        x = y
    q = [int(round(t * U)) for t in x]
    return [min(max(t, bx[0]), bx[1]) for t, bx in zip(q, box)]


def FS(x, ref=None):
    return F(x, max(1., abs(ref if ref is not None else x)) * 1e-3)


def snap(o, names, sc=1.):
    from inference.pie.param import Status
    stn = {Status.undef: 'undef', Status.fixed: 'fixed', Status.stepping: 'stepping', Status.varying: 'varying'}
    out = []
    for n in names:
        p = getattr(o, n)
        b = bool(p.bounded)
        out.append({'s': stn[p.status], 'v': F(float(p)), 'lo': F(p.lo) if b else NOF, 'hi': F(p.hi) if b else NOF,
                    'dl': F(p.delta) if p.status == Status.varying else NOF,
                    'ix': int(p.step_index()) if p.status == Status.stepping else 0})
    return {'p': out, 'fx': [p.name for p in o.fixed_params], 'sp': [p.name for p in o.stepping_params],
            'vy': [p.name for p in o.varying_params]}


def run(prog, events):
    cfg = prog['cfg']
    names = cfg['names']
    cls, seen = make(cfg)
    obj, twin = cls(), cls()
    for op in prog['ops']:
        k = op['op']
        if k != 'fit':
            for o in (obj, twin):
                p = op.get('p')
                if k == 'fix':
                    r = call(lambda: getattr(o, p).fix(op['v'] / U))
                elif k == 'freeze':
                    r = call(lambda: getattr(o, p).fix())
                elif k == 'range':
                    r = call(lambda: getattr(o, p).range(op['a'] / U, op['b'] / U))
                elif k == 'vary':
                    r = call(lambda: getattr(o, p).vary(op['v'] / U, op['d'] / U, (op['a'] / U, op['b'] / U)))
                elif k in ('linstep', 'logstep'):
                    r = call(lambda: getattr(getattr(o, p), k)(op['a'] / U, op['b'] / U, op['n']))
                elif k == 'next':
                    r = call(o.next_step)
                elif k in ('pnext', 'pprev', 'pfirst', 'plast'):
                    r = call(lambda: getattr(getattr(o, p), {'pnext': 'next_step', 'pprev': 'prev_step', 'pfirst': 'first_step', 'plast': 'last_step'}[k])())
                elif k == 'map':
                    r = call(o.map_bounds if op['on'] else o.unmap_bounds)
                else:
                    raise RuntimeError(k)
            continue
        # ---- evaluation
        if op.get('bad') and obj.varying_params and not obj.stepping_params:
            e = {'op': 'refuse', 'b': snap(obj, names)}
            r, x = call(obj.optimize if op['direct'] else obj.fit, method=op['bad'])
            e['r'], e['exc'] = r, type(x).__name__ if r == 'err' else ''
            e['a'] = snap(obj, names)
            events.append(e)
            if r != 'err':
                break
        e = {'op': 'fit', 'map': op['map'], 'vg': bool(op.get('vg')), 'wide': op['wide']}
        e['b'] = snap(obj, names)
        stepping, varying = [p for p in e['b']['sp']], [p for p in e['b']['vy']]
        e['kind'] = 'grid' if stepping else 'opt' if varying else 'score'
        s0 = float(obj.score())
        cur = [float(getattr(obj, n)) for n in names]
        sr = max(abs(s0), cfg['k0'])
        e['s0'] = FS(s0, sr)
        e['i0'] = FS(indep(cfg, cur), sr)
        # exact parameter values of the non-varying, non-stepping parameters
        e['q'] = [int(round(v * U)) for v in cur]
        e['qx'] = [abs(v * U - round(v * U)) < 1e-9 for v in cur]
        kw = {}
        if op.get('vg') and e['kind'] == 'grid':
            kw['vargrid'] = True
        if op.get('nlog'):
            kw['nlog'] = op['nlog']
        if op.get('meth'):
            kw['method'] = op['meth']
        if op.get('tol'):
            kw['tol'] = op['tol']
        axes = []
        for n in stepping:
            p = getattr(obj, n)
            axes.append((n, op['grid'][n]))
        e['grid'] = {n: {'v': g[1], 'ty': g[0], 'lo': F(g[1][0] / U), 'hi': F(g[1][-1] / U)} for n, g in axes}
        e['grid']['-'] = {'v': [], 'ty': '', 'lo': NOF, 'hi': NOF}
        seen.clear()
        f = obj.fit
        if op.get('direct'):
            f = obj.do_grid if e['kind'] == 'grid' else obj.optimize if e['kind'] == 'opt' else obj.score
            if e['kind'] != 'grid':
                kw.pop('nlog', None)
            if e['kind'] == 'score':
                kw = {}
        r, res = call(f, **kw)
        e['seen'] = [dict(zip(('mn', 'mx'), map(F, seen[n]))) if n in seen else {'mn': NOF, 'mx': NOF} for n in names]
        e['r'] = r
        e['exc'] = type(res).__name__ if r == 'err' else ''
        e['a'] = snap(obj, names)
        box = [op['box'][n] for n in varying]
        V = [names.index(n) for n in varying]
        if r == 'ok' and e['kind'] == 'score':
            e['res'] = FS(float(res), sr)
            e['h'], e['hr'] = hh(float(res))
        elif r == 'ok' and e['kind'] == 'opt':
            ps, sc = [float(x) for x in res[0]], float(res[1])
            vals = list(cur)
            for i, x in zip(V, ps):
                vals[i] = x
            ind = indep(cfg, vals)
            e['ps'] = [F(x) for x in ps]
            e['sc'], e['ind'] = FS(sc, sr), FS(ind, sr)
            e['s1'] = FS(float(obj.score()), sr)
            e['h'] = hh(sc)[0]
            e['cand'] = candidate(cfg, vals, V, box)
        elif r == 'ok' and e['kind'] == 'grid':
            g, vgr = res if isinstance(res, tuple) else (res, None)
            e['isvg'] = vgr is not None
            e['shape'] = [int(x) for x in g.values.shape]
            e['shape2'] = [int(x) for x in g.shape]
            from inference.pie.param import StepType
            e['axes'] = [{'n': a[0], 'lo': F(a[1]), 'hi': F(a[2]), 'k': int(a[3]),
                          'ty': 'lin' if a[4] == StepType.lin_steps else 'log'} for a in g.axes]
            # the same evaluation, without / with the companion grid, on the twin
            kw2 = dict(kw)
            if varying:
                kw2['vargrid'] = True
                rt, rest = call(twin.do_grid, **kw2)
                gt, vt = rest if rt == 'ok' else (None, None)
            else:
                gt = vt = None
            ent = []
            for ix in itertools.product(*[range(n) for n in e['shape']]):
                v = float(g.values[ix])
                q = [op['grid'][n][1][i] for n, i in zip(stepping, ix)]
                vals = list(cur)
                for n, t in zip(stepping, q):
                    vals[names.index(n)] = t / U
                x = {'ix': [int(i) for i in ix], 'q': q}
                if varying:
                    src = vgr if vgr is not None else vt
                    if src is None:
                        raise RuntimeError('twin evaluation failed: %r' % (rest,))
                    th = [float(t) for t in np.atleast_1d(src.values[ix])]
                    for i, t in zip(V, th):
                        vals[i] = t
                    ref = indep(cfg, vals)
                    x['th'] = [F(t) for t in th]
                    x['cand'] = candidate(cfg, vals, V, box)
                    x['tw'] = FS(float(gt.values[ix]), ref)
                else:
                    ref = indep(cfg, vals)
                    x['th'], x['cand'], x['tw'] = [], [], FS(v, ref)
                x['h'], x['hr'] = hh(v)
                x['v'] = FS(v, ref)
                x['ind'] = FS(ref, ref)
                ent.append(x)
            e['ent'] = ent
            if varying:
                e['ov'] = FS(float(g.opt_val), 1.)
                e['oi'] = [int(i) for i in g.opt_ind]
                e['oiv'] = FS(float(g.values[tuple(g.opt_ind)]), 1.)
                e['vshape'] = [int(i) for i in vgr.values.shape] if vgr is not None else []
                e['voi'] = [int(i) for i in vgr.opt_ind] if vgr is not None else e['oi']
            s1 = float(obj.score())
            e['s1'] = FS(s1)
            e['i1'] = FS(indep(cfg, [float(getattr(obj, n)) for n in names]), s1)
        events.append(e)
        if r != 'ok':
            break
        # keep the twin in step
        if e['kind'] == 'opt':
            call(twin.fit)
        for n in varying:
            x = float(getattr(obj, n))
            call(lambda: getattr(twin, n).set_value(x))
    return {'names': names, 'data': cfg['data'], 'method': cfg['method'], 'k0': cfg['k0']}


def hh(x):
    """x in units of 1/8192 and the relative distance (1e-9) from that integer."""
    if x != x or abs(x) > 2e5:
        return 2000000000, 1000000000
    h = int(round(x * 8192.))
    return h, M((x * 8192. - h) / max(1., abs(x * 8192.)), 1e-9)


if __name__ == '__main__':
    main(run, 'C04+C24')
