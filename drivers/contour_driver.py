"""Contour plots of bivariate functions, read back from the figure."""
import re
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt                         # noqa: E402
from matplotlib.contour import ContourSet               # noqa: E402
from matplotlib.colors import to_rgba                   # noqa: E402
import numpy as np                                      # noqa: E402
from drvlib import main, call                           # noqa: E402
from inference.utils.plot_bivar import plot_bivar       # noqa: E402

DEFAULT = ('blue', 'darkgreen', 'firebrick', 'saddlebrown', 'dimgray', 'k')


def canon(names):
    rg = [to_rgba(n) for n in names]
    return [rg.index(r) + 1 for r in rg], rg


def r4(z):
    return int(round(float(z) * 10000)) if np.isfinite(z) and abs(z) < 1e5 else -987654


def read(e, c, prog, unit, rg):
    ax = e.pop('ax')
    x0, dx, y0, dy = prog['grid']
    e['drawn'] = []
    for s in [k for k in ax.collections if isinstance(k, ContourSet)]:
        paths = s.get_paths()
        cols, lws = s.get_edgecolor(), s.get_linewidth()
        for k, lev in enumerate(s.levels):
            p = paths[k]
            pts = sorted({(r4((v[0] - x0) / dx), r4((v[1] - y0) / dy)) for v in p.vertices}) if len(p.vertices) else []
            col = tuple(cols[k % len(cols)])
            e['drawn'].append({'lev': int(round(float(lev) / unit * 1000)), 'col': rg.index(col) + 1 if col in rg else 0,
                               'lw': int(round(10 * lws[k % len(lws)])), 'pts': [list(p) for p in pts]})
    e['labels'] = [ax.get_xlabel(), ax.get_ylabel()]
    e['img'], e['ext'], e['lo'], e['hi'] = [], [], 0, 0
    if ax.images:
        im = ax.images[0]
        a = np.asarray(im.get_array(), float)
        a = a if im.origin == 'lower' else a[::-1]
        e['img'] = [[int(round(v / unit)) for v in row] for row in a.T]
        l, r, b, t = im.get_extent()
        e['ext'] = [r4((l - x0) / dx), r4((r - x0) / dx), r4((b - y0) / dy), r4((t - y0) / dy)]
        lo, hi = im.get_clim()
        e['lo'], e['hi'] = int(round(lo / unit * 1000)), int(round(hi / unit * 1000))
    e['hor'], e['ver'] = [], []
    segs = []
    for k in ax.collections:
        if not isinstance(k, ContourSet):
            segs += [(k.get_transform(), q.vertices) for q in k.get_paths()]
    segs += [(k.get_transform(), k.get_xydata()) for k in ax.lines]
    (xl, xr), (yl, yr) = ax.get_xlim(), ax.get_ylim()
    ex, ey = 1e-6 * abs(dx), 1e-6 * abs(dy)
    for tr, v in segs:
        v = ax.transData.inverted().transform(tr.transform(np.asarray(v, float)))
        (ax0, ay0), (ax1, ay1) = v.min(0), v.max(0)
        xe, ye = x0 + dx * (len(c['z']) - 1), y0 + dy * (len(c['z'][0]) - 1)
        if ay1 - ay0 <= ey and ax0 <= min(x0, xe) + ex and ax1 >= max(x0, xe) - ex:
            e['hor'].append(r4((ay0 - y0) / dy))
        elif ax1 - ax0 <= ex and ay0 <= min(y0, ye) + ey and ay1 >= max(y0, ye) - ey:
            e['ver'].append(r4((ax0 - x0) / dx))


def grid_of(via, z, x0, dx, y0, dy):
    """The table as the result of an inference over a grid of two parameters."""
    from inference.pie import RealParam, SignalModel, PredictorSet, SampledGaussian, MaxLikeInference
    nx, ny = z.shape
    names = via[:2][::-1] if via[2] else via[:2]
    ns = {n: RealParam(0., n) for n in names}
    ns['signal'] = lambda self, x: 0. * x
    Sig = type(SignalModel)('Sig', (SignalModel,), ns)
    Pred = type(PredictorSet)('Pred', (PredictorSet,), {'data': SampledGaussian([0., 1.], [0., 1.], [1., 1.])})

    def score(self):
        return float(z[int(round((float(getattr(self, via[0])) - x0) / dx)), int(round((float(getattr(self, via[1])) - y0) / dy))])
    o = type(MaxLikeInference)('Inf', (MaxLikeInference, Sig, Pred), {'score': score})()
    getattr(o, via[0]).linstep(x0, x0 + dx * (nx - 1), nx)
    getattr(o, via[1]).linstep(y0, y0 + dy * (ny - 1), ny)
    return o.fit()


def run(prog, events):
    c = prog['cfg']
    via = prog.get('via')
    unit = prog['unit']
    x0, dx, y0, dy = prog['grid']
    z = np.array(c['z'], float) * unit
    nx, ny = z.shape
    x, y = x0 + dx * np.arange(nx), y0 + dy * np.arange(ny)
    if prog['lists']:
        x, y = [float(v) for v in x], [float(v) for v in y]
    if via:
        plt.close('all')
        grid = grid_of(via, z, x0, dx, y0, dy)
    for o in prog['ops']:
        e = dict(o)
        e['newfig'], e['wantfig'] = 0, 0
        if o['op'] == 'plot':
            plt.clf()
            data = z.copy() if o['order'] == 'xy' else np.array(z.T)
            if o['forder']:
                data = np.asfortranarray(data)
            kw = {}
            if (o['order'] != 'xy' or o['named']) and not via:
                kw['iorder'] = o['order'] if o['legal'] else o['bad']
            keep = []
            if o['how'] == 'abs':
                kw['levels'] = [v * unit / 1000. for v in o['lev']]
                if o['arr']:
                    kw['levels'] = np.array(kw['levels'])
                keep = list(kw['levels'])
            elif o['how'] == 'p':
                kw['plevels'] = [v / 1e4 for v in o['p']]
                if o['arr']:
                    kw['plevels'] = np.array(kw['plevels'])
                keep = list(kw['plevels'])
            names = DEFAULT
            if o['colors']:
                kw['colors'] = o['colors']
                names = [o['colors']] if isinstance(o['colors'], str) else o['colors']
            e['cyc'], rg = canon(names)
            e.pop('colors')
            if o['lw'] != 10:
                kw['lw'] = o['lw'] / 10.
            if o['gs']:
                kw['gscale'] = True if o['gs'] == 100 and o['named'] else o['gs'] / 10.
                kw['gscale_bar'] = o['bar']
            if o['cross']:
                kw['cross'] = (x0 + dx * o['cross'][0] / 1e4, y0 + dy * o['cross'][1] / 1e4)
            if via:
                data = grid.values
            elif o['xlabel'] != 'X':
                kw['xlabel'] = o['xlabel']
            if o['ylabel'] != 'Y' and not via:
                kw['ylabel'] = o['ylabel']
            before = data.copy()
            if via:
                e['wantfig'] = 0 if o['over'] else 1
                figs = list(plt.get_fignums())
                r, v = call(grid.plot, **dict(kw, overlay=True) if o['over'] else kw)
                e['newfig'] = len([f for f in plt.get_fignums() if f not in figs])
                ax = plt.gca()
            else:
                ax = plt.gca()
                r, v = call(plot_bivar, x, y, data, **kw)
            e['r'] = r if r == 'ok' else type(v).__name__
            if r != 'ok':
                e['msg'] = str(v)[:100]
            if r == 'ok':
                e['ax'] = ax
                read(e, c, prog, unit, rg)
            now = list(kw.get('levels', kw.get('plevels', [])))
            e['kept'] = bool((data == before).all()) and now == keep and all(abs(x[k] - x0 - dx * k) <= 0 for k in range(nx)) and len(x) == nx and len(y) == ny
        elif plt.gca().get_xlabel() == '':
            continue                      # nothing was plotted
        else:
            r, v = call(plt.gca().format_coord, x0 + dx * o['qx'] / 4., y0 + dy * o['qy'] / 4.)
            e['r'] = r
            m = re.search(r'z\s*=\s*([-+0-9.e]+)', v) if r == 'ok' else None
            e['hasz'] = bool(m)
            q = float(m.group(1)) / unit if m else 0.
            e['z'] = int(round(q)) if abs(q - round(q)) < .01 else 987654
        events.append(e)


main(run, 'C31')
