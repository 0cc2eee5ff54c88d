"""Highest-density regions of tabulated and functional densities."""
import math
import numpy as np
from drvlib import main, call, key
from fenc import clampint, CAP

NINF = float('-inf')


def ln(v):
    return math.log(v) if v > 0 else NINF


def dev(got, ref, tol):
    try:
        got = float(got)
    except (TypeError, ValueError):
        return CAP
    if not math.isfinite(got):
        return CAP
    return clampint(1e3 * abs(got - ref) / tol)


def cell(a, b, c):
    hi, lo = max(a, b), min(a, b)
    if lo > c:
        return .5 * (a + b)
    if hi > c:
        return .5 * (hi + c) * (hi - c) / (hi - lo)
    return 0.


def above(D, c):
    """Content of a row (1-D) or of a table of rows above level c, in cell units."""
    if isinstance(D[0], list):
        q = [above(r, c) for r in D]
        return math.fsum(q) - .5 * (q[0] + q[-1])
    return math.fsum(cell(a, b, c) for a, b in zip(D[:-1], D[1:]))


def err(events, what, want, f, *a, **k):
    r, x = call(f, *a, **k)
    events.append({'op': 'err', 'what': what, 'want': want, 'r': type(x).__name__ if r == 'err' else r})


def tables(prog, events):
    from inference.grid import _gridquad as gq
    for o in prog['calls']:
        z, c = o['z'], o['c']
        if o['k'] == 'quad':
            two = isinstance(z[0], list)
            r, x = call(gq.qgt2d if two else gq.qgt1d, np.array(z, float), float(c))
            events.append({'op': 'quad', 'r': r, 'two': two, 'z': z, 'c': c,
                           'got': clampint((4 if two else 2) * 2520 * float(x)) if r == 'ok' else 0})
        else:
            xs = [o['x0'] + o['dx'] * j for j in range(len(z))]
            y = np.array([o['off'] + o['sc'] * v if v >= 0 else NINF for v in z])
            r, x = call(gq.xvalues, xs, y, o['off'] + o['sc'] * c, o['max'])
            e = {'op': 'cross', 'r': r, 'z': z, 'c': c, 'max': o['max'], 'ok': False, 'x': []}
            if r == 'ok':
                b, nb, ok = x
                e['ok'] = bool(ok)
                if ok:
                    e['x'] = [clampint(1e4 * (v - o['x0']) / o['dx']) for v in b[:nb]]
            events.append(e)
    return {'two': False}


def helpers(prog, events):
    from inference.grid import hpd, hpdgrid
    from scipy import stats
    for m in (hpd, hpdgrid):
        for nd in (1, 2, 3):
            for s in prog['sig']:
                p = float(stats.chi2.cdf(s * s, nd))
                for what, f, a, ref in (('sig2prob', m.sig2prob, s, p), ('prob2sig', m.prob2sig, p, s),
                                        ('sig2ratio', m.sig2ratio, s, math.exp(-.5 * s * s)),
                                        ('prob2ratio', m.prob2ratio, p, math.exp(-.5 * s * s)),
                                        ('prob2dens', m.prob2dens, p, math.exp(-.5 * s * s) / (2 * math.pi) ** (.5 * nd))):
                    r, x = call(f, nd, a)
                    events.append({'op': 'help', 'what': what, 'd': dev(x, ref, 1e-6 * ref) if r == 'ok' else CAP})
    # the probabilities the classes offer for one, two and three sigmas
    for C, nd in ((hpd.HPD1D, 1), (hpd.HPD2D, 2), (hpdgrid.HPDGrid1D, 1), (hpdgrid.HPDGrid2D, 2)):
        for s in (1, 2, 3):
            ref = float(stats.chi2.cdf(s * s, nd))
            r, x = call(getattr, C, 'p%isig' % s)
            events.append({'op': 'help', 'what': 'p%isig of %s' % (s, C.__name__),
                           'd': dev(x, ref, 1e-6 * ref) if r == 'ok' else CAP})
    one, two = np.zeros(5), np.zeros((4, 5))
    bad = 'cubic'
    err(events, 'step', 'ValueError', hpd.HPD1D, one, 1., 2., bad)
    err(events, 'xstep', 'ValueError', hpd.HPD2D, two, 1., 2., 1., 2., bad, 'lin')
    err(events, 'ystep', 'ValueError', hpd.HPD2D, two, 1., 2., 1., 2., 'log', bad)
    return {'two': False}


def scale(lo, hi, n, log):
    if log:
        L = math.log(hi / lo)
        xs = [lo * math.exp(L * j / (n - 1)) for j in range(n)]
    else:
        L = hi - lo
        xs = [lo + L * j / (n - 1) for j in range(n)]
    xs[-1] = hi
    return xs, L / (n - 1)


def run(prog, events):
    if prog['kind'] == 'table':
        return tables(prog, events)
    if prog['kind'] == 'help':
        return helpers(prog, events)
    from inference.grid.hpd import HPD1D, HPD2D
    from inference.grid.hpdgrid import HPDGrid1D, HPDGrid2D
    two = prog['kind'] == 'two'
    ax = prog['ax']
    sc = [scale(a['lo'], a['hi'], a['n'], a['log']) for a in ax]
    xs = [s[0] for s in sc]
    vol = math.prod(s[1] for s in sc)
    off = prog['off']
    # log density p(x) at the grid points
    if two:
        lp = [[prog['tab'][i][j] for j in range(ax[1]['n'])] for i in range(ax[0]['n'])]
    else:
        lp = list(prog['tab'])
    if prog['zero']:      # densities given as values, zeros allowed
        lp = [[ln(v) for v in r] for r in lp] if two else [ln(v) for v in lp]
    arr = np.array(lp) + off
    jac = np.zeros_like(arr)
    for d in range(len(ax)):
        if ax[d]['log']:
            j = np.log(np.array(xs[d]))
            jac = jac + (j if not two else (j[:, None] if d == 0 else j[None, :]))
    y = arr + jac
    mx = float(y.max())
    D = np.exp(y - mx)
    Dl = D.tolist()
    tot = above(Dl, -1.)
    lognorm = math.log(tot * vol) + mx
    steps = [('logarithmic' if a['alias'] else 'log') if a['log'] else ('lin' if a['alias'] else 'linear') for a in ax]

    def lookup(*p):
        """The density as a function: the nearest grid point's value."""
        ix = []
        for d, q in enumerate(p):
            j = min(range(ax[d]['n']), key=lambda m: abs(xs[d][m] - q))
            if abs(xs[d][j] - q) > 1e-9 * abs(ax[d]['hi'] - ax[d]['lo']):
                raise AssertionError('density asked off the grid')
            ix.append(j)
        return float(arr[tuple(ix)])

    def make(kind, shift=0.):
        if two:
            a, b = ax
            if kind == 'arr':
                return HPD2D(arr + shift, a['lo'], a['hi'], b['lo'], b['hi'], *steps)
            return HPDGrid2D(lookup, a['lo'], a['hi'], a['n'], b['lo'], b['hi'], b['n'], *steps)
        a = ax[0]
        if kind == 'arr':
            return HPD1D(arr + shift, a['lo'], a['hi'], *steps)
        return HPDGrid1D(lookup, a['lo'], a['hi'], a['n'], *steps)

    cfg = {'two': two, 'D': [[clampint(1e3 * v) for v in r] for r in Dl] if two else [clampint(1e3 * v) for v in Dl]}
    if not two:
        cfg['y'] = [key(v) for v in (y - mx)]
    objs = []
    for kind in ('arr', 'fun'):
        keep = arr.copy()
        r, h = call(make, kind)
        e = {'op': 'new', 'r': r, 'kind': kind, 'norm': CAP, 'lml': CAP, 'grid': False, 'frac': CAP}
        events.append(e)
        if r != 'ok':
            e['what'] = repr(h)[:200]
            return cfg
        nt = 1e-9 + 1e-14 * abs(lognorm)
        e['norm'] = dev(math.log(h.norm) + mx if two else h.norm(), lognorm, nt) if not two else dev(float(h.lml), lognorm, nt)
        e['lml'] = dev(h.lml, lognorm, nt)
        gx = [h.xvals, h.yvals] if two else [h.xvals]
        e['grid'] = all(len(g) == len(s) and float(g[0]) == s[0] and float(g[-1]) == s[-1]
                        and all(abs(float(p) - q) <= 1e-11 * max(abs(s[0]), abs(s[-1])) for p, q in zip(g, s)) for g, s in zip(gx, xs)) \
            and np.array_equal(arr, keep) and float(h.xhi) == xs[0][-1] and (not two or float(h.yhi) == xs[1][-1])
        fr = 0
        for lr in prog['lrs']:
            rr, v = call(h.fracgt, lr)
            fr = max(fr, dev(v, above(Dl, math.exp(lr)) / tot, 1e-9) if rr == 'ok' else CAP)
        e['frac'] = fr
        objs.append(h)
    h, g = objs
    rs, sh = call(make, 'arr', prog['shift'])
    who = prog['who']
    main_o, other = (h, g) if who == 'arr' else (g, h)
    if not two:
        err(events, '2-d table for a 1-d density', 'ValueError', HPD1D, np.zeros((2, 2)), 0., 1.)
    else:
        err(events, '1-d table for a 2-d density', 'ValueError', HPD2D, np.zeros(3), 0., 1., 0., 1.)
    err(events, 'two ways to give the probability', 'ValueError', main_o.critlevel, .5, 1.)
    for q in prog['levels']:
        p, tol = q['p'], q['tol']
        kw = {} if tol is None else {'tol': tol}
        tol = tol or 3e-4
        if q['sig']:
            from scipy import stats
            s = float(stats.norm.isf(.5 * (1 - p)))
            a = {'snsig': s}
        else:
            a = {'p': p}
        r, x = call(main_o.critlevel, **a, **kw)
        ut = clampint(tol * 1e6)
        e = {'op': 'level', 'r': type(x).__name__ if r == 'err' else r, 'p': clampint(p * 1e8), 'tol': ut, 'many': False}
        events.append(e)
        if r != 'ok':
            e['what'] = repr(x)[:200]
            lrs = main_o.deltas[-1] if len(main_o.deltas) else 0.
            yy = (y - mx).ravel() > lrs
            e['many'] = int((yy[1:] != yy[:-1]).sum()) > 10
            return cfg
        lr = x if two else x[0]
        e['lr'] = clampint(lr * 1e6)
        R = math.exp(lr)
        e['R'] = clampint(1e3 * R)
        e['dR'] = clampint(1e3 * R * (math.exp(2 * tol) - 1)) + 1
        e['plo'] = clampint(1e8 * above(Dl, R * math.exp(2 * tol)) / tot) - 2
        e['phi'] = clampint(1e8 * above(Dl, R * math.exp(-2 * tol)) / tot) + 2
        L = [main_o.probs, main_o.deltas, main_o.levels] + ([] if two else [main_o.bounds])
        e['hist'] = len(L[0]) if len({len(v) for v in L}) == 1 else -1
        e['level'] = (abs(L[0][-1] - p) < 1e-9 and L[1][-1] == lr and abs(L[2][-1] - (mx + lr)) <= 1e-9 * (1 + abs(mx))
                      and (two or list(L[3][-1]) == list(x[1])))
        rr, o = call(other.critlevel, **a, **kw)
        e['twin'] = clampint(1e6 * abs((o if two else o[0]) - lr)) if rr == 'ok' else CAP
        rr, o = call(sh.critlevel, **a, **kw) if rs == 'ok' else ('err', None)
        e['shift'] = clampint(1e6 * abs((o if two else o[0]) - lr)) if rr == 'ok' else CAP
        if not two:
            e['lk'] = key(lr)
            yy, X = (y - mx).tolist(), xs[0]
            bs = []
            for b in x[1]:
                b = float(b)
                ds = []
                for j in range(len(X) - 1):
                    d = CAP
                    y1, y2 = yy[j], yy[j + 1]
                    if (y1 > lr) != (y2 > lr):
                        if y1 == NINF or y2 == NINF:
                            pos = X[j + 1] if y1 == NINF else X[j]
                        else:
                            pos = X[j] + (X[j + 1] - X[j]) * ((lr - y1) / (y2 - y1))
                        d = dev(b, pos, 1e-7 * (X[j + 1] - X[j]))
                    ds.append(d)
                bs.append({'k': key(b), 'd': ds})
            e['b'] = bs
    return cfg


main(run, 'C15')
