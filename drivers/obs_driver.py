"""Observed information of Bayesian inferences, after arbitrary histories."""
import sys
import numpy as np
from drvlib import main, call, F, NOF, M
from fit_driver import make, indep, snap, FS, U


def mode(cfg, obj, names):
    """Values of the varying parameters that maximise the posterior (least squares)."""
    vals = [float(getattr(obj, n)) for n in names]
    V = [names.index(p.name) for p in obj.varying_params]
    if not V:
        return None
    A, r = [], []
    for ds in cfg['data']:
        for d in ds:
            w = d['z'] / 2.
            A.append([w * float(d['x']) ** k for k in V])
            r.append(w * (d['y'] / U - sum(v * float(d['x']) ** k for k, v in enumerate(vals) if k not in V)))
    A, r = np.array(A), np.array(r)
    N, b = A.T @ A, A.T @ r
    if 0 in V:
        b[V.index(0)] -= .125
    if np.linalg.cond(N) > 1e8:
        return None
    return [float(t) for t in np.linalg.solve(N, b)]


def put(obj, vals):
    ok = True
    for p, v in zip(list(obj.varying_params), vals):
        r, _ = call(lambda: p.set_value(v))
        ok = ok and r == 'ok'
    return ok


def run(prog, events):
    cfg = prog['cfg']
    names = cfg['names']
    cls, seen = make(cfg)
    obj, other = cls(), cls()
    sn = None
    for op in prog['ops']:
        k = op['op']
        p = op.get('p')
        if k == 'fix':
            call(lambda: getattr(obj, p).fix(op['v'] / U))
        elif k == 'vary':
            call(lambda: getattr(obj, p).vary(op['v'] / U, op['d'] / U, (op['a'] / U, op['b'] / U)))
        elif k == 'step':
            call(lambda: getattr(obj, p).linstep(op['a'] / U, op['b'] / U, op['n']))
        elif k == 'score':
            call(obj.score)
        elif k == 'oscore':
            call(lambda: (getattr(other, names[0]).fix(op['v'] / U), other.score()))
        elif k == 'next':
            call(obj.next_step)
        elif k == 'fit':
            if not obj.stepping_params:
                call(obj.fit)
        elif k == 'away':
            put(obj, [v / U for v in op['v']])
        elif k == 'snap':
            sn = obj.get_params()
        elif k == 'back':
            if sn is not None:
                call(lambda: obj.set_params(sn))
        elif k == 'mode':
            m = mode(cfg, obj, names)
            if m is not None:
                put(obj, m)
        elif k == 'obs':
            obs(cfg, names, obj, seen, op, events)
        else:
            raise RuntimeError(k)
    return {'names': names, 'data': cfg['data'], 'method': cfg['method']}


def obs(cfg, names, obj, seen, op, events):
    e = {'op': 'obs', 'b': snap(obj, names)}
    m = mode(cfg, obj, names) if obj.varying_params else None
    cur = [p.get_value() for p in obj.varying_params]
    # scale of the parameter errors; the point counts as the mode if it is within 1e-9 of it
    e['atmode'] = m is not None and all(abs(x - y) <= 1e-9 * max(1., abs(y)) for x, y in zip(cur, m))
    if len(cur) == 0:
        return
    e['wide'] = all(p.hi - p.lo > 10000. for p in obj.varying_params)
    n = len(cur)
    kw = {}
    if op['steps']:
        st = [s / U for s in op['steps'][:n]]
        kw['steps'] = np.array(st) if op['arr'] else list(st)
        keep = list(kw['steps'])
    if op['dl'] is not None:
        kw['dlogp'] = op['dl']
    if op['n'] is not None:
        kw['n'] = op['n']
    if op['err']:
        kw['err'] = True
    seen.clear()
    r, res = call(obj.obs_info, **kw)
    e['seen'] = [dict(zip(('mn', 'mx'), map(F, seen[q]))) if q in seen else {'mn': NOF, 'mx': NOF} for q in names]
    e['r'], e['exc'] = r, type(res).__name__ if r == 'err' else ''
    e['kept'] = not op['steps'] or keep == list(kw['steps'])
    e['a'] = snap(obj, names)
    e['tuple'] = isinstance(res, tuple)
    e['err'] = bool(op['err'])
    e['n'] = n
    if r == 'ok':
        info, ierr = res if isinstance(res, tuple) else (res, None)
        info = np.atleast_2d(np.asarray(info, float))
        e['shape'] = [int(x) for x in info.shape]
        I4, dev, er = [], [], []
        if e['shape'] == [n, n]:
            sc = np.sqrt(np.abs(np.outer(np.diag(info), np.diag(info)))) + 1e-300
            for i in range(n):
                I4.append([M(info[i, j], .25) for j in range(n)])
                dev.append([M((4 * info[i, j] - round(4 * info[i, j]) if abs(info[i, j]) < 1e8 else 1e9) / (4 * sc[i, j]), 1e-9) for j in range(n)])
                if ierr is not None:
                    ie = np.atleast_2d(np.asarray(ierr, float))
                    er.append([M(ie[i, j] / sc[i, j], 1e-9) for j in range(n)])
        e['I4'], e['dev'], e['er'] = I4, dev, er
    s1 = call(obj.score)
    vals = [float(getattr(obj, q)) for q in names]
    e['s1'], e['i1'] = (FS(float(s1[1]), 1.) if s1[0] == 'ok' else NOF), FS(indep(cfg, vals), 1.)
    events.append(e)


if __name__ == '__main__':
    main(run, 'C25')
