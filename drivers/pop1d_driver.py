"""Populations of values: order, cumulative weights, the step curve, its plot and samples."""
import os, sys
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt                         # noqa: E402
import numpy as np                                      # noqa: E402
from drvlib import main, call                           # noqa: E402
sys.path.insert(0, os.environ['VP_EXT'])
import _ppssampler                                      # noqa: E402,F401
from inference.mc.population import Population1D        # noqa: E402

BAD = -987654


def u(z, unit):
    """z in whole units."""
    q = float(z) / unit
    return int(round(q)) if np.isfinite(q) and abs(q - round(q)) < 1e-6 and abs(q) < 1e8 else BAD


def form(xs, how, k):
    if how == 'array':
        return np.array(xs, float)
    if how == 'ints':
        return np.array(xs) if k == 1. else np.array(xs, float)
    if how == 'view':
        return np.array([z for x in xs for z in (x, -99.)], float)[::2]
    return tuple(xs) if how == 'tuple' else list(xs)


def drawn(e, vu, wu):
    ax = plt.gca()
    e['lines'] = [[[u(z, vu) for z in l.get_xdata()], [u(z, wu) for z in l.get_ydata()]] for l in ax.lines]
    e['bars'] = []
    for c in ax.collections:
        for s in c.get_segments():
            if len(s) == 2 and s[0][0] == s[1][0]:
                e['bars'].append([u(2 * s[0][0], vu)] + sorted(u(p[1], wu) for p in s))


def run(prog, events):
    c = prog['cfg']
    vu, wu = prog['vu'], prog['wu']
    v = form([m[0] * vu for m in c['mem']], prog['how'][0], vu)
    w = form([m[1] * wu for m in c['mem']], prog['how'][1], wu)
    er = form([m[2] * wu for m in c['mem']], prog['how'][2], wu) if c['haserr'] else None
    copies = [list(map(float, z)) for z in (v, w) + ((er,) if er is not None else ())]

    def kept():
        return [list(map(float, z)) for z in (v, w) + ((er,) if er is not None else ())] == copies

    def state(p):
        return [list(map(float, z)) for z in (p.vals, p.weights, p.cdf, p.hazard) + ((p.err,) if c['haserr'] else ())]
    args = [v, w] if er is None else [v, w, er]
    r, p = call(Population1D, *args)
    e = {'op': 'new', 'r': r}
    events.append(e)
    if r != 'ok':
        return
    es = [u(z, wu) for z in p.err] if c['haserr'] else [0] * len(p.vals)
    e['mem'] = [[u(a, vu), u(b, wu), x] for a, b, x in zip(p.vals, p.weights, es)]
    if len(set(map(len, (p.vals, p.weights, es)))) > 1:
        e['mem'] = []
    e['cdf'] = [u(z, wu) for z in p.cdf]
    e['haz'] = [u(z, wu) for z in p.hazard]
    e['kept'] = kept()
    if prog['mess']:                        # the caller goes on with its own arrays
        for z in (v, w, er):
            if isinstance(z, (np.ndarray, list)):
                z[0] = 77
        copies = [list(map(float, z)) for z in (v, w) + ((er,) if er is not None else ())]
    before = state(p)
    for o in prog['ops']:
        e = dict(o)
        events.append(e)
        if o['op'] in ('pts', 'plot'):
            kw = {}
            if not o['nostart']:
                kw['start'] = o['start'] * vu
            if not o['noend']:
                kw['end'] = o['end'] * vu
            plt.close('all')
            r, x = call(p.haz_pts if o['op'] == 'pts' else p.plot, **kw)
            e['r'] = r if r == 'ok' else type(x).__name__
            if r == 'ok' and o['op'] == 'pts':
                e['x'] = [u(z, vu) for z in x[0]]
                e['y'] = [u(z, wu) for z in x[1]]
                e['haserr'] = len(x) > 2
                if len(x) > 2:
                    e['ex2'] = [u(2 * z, vu) for z in x[2]]
                    e['ey'] = [u(z, wu) for z in x[3]]
                    e['ee'] = [u(z, wu) for z in x[4]]
                for z in x:
                    z[...] = 55.                # the points are the caller's
            elif r == 'ok':
                drawn(e, vu, wu)
            plt.close('all')
        else:
            np.random.seed(o['seed'])
            r, x = call({'sample': p.sample, 'pps': p.subset_pps, 'pps5': p.subset_pps5}[o['how']], o['n'])
            e['r'] = r
            e['items'] = [u(z, vu) for z in x] if r == 'ok' else []
        events.append({'op': 'kept', 'ok': kept() and state(p) == before})


main(run, 'C30')
