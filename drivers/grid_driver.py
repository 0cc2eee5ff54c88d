"""Evaluation and refinement histories of one-dimensional grids."""
import math
import numpy as np
from drvlib import main, call, key
from fenc import clampint, CAP

EPS = 2.2e-16


def mkfunc(sp, lo, hi, n, log):
    """A deterministic scalar function of x."""
    k = sp['k']
    if k == 'lin':
        return lambda x: float(sp['a'] + sp['b'] * (x - lo) / (hi - lo))
    if k == 'tab':
        y, sc = sp['y'], sp['sc']
        L = math.log(hi / lo) if log else None

        def f(x):
            u = (math.log(x / lo) / L if log else (x - lo) / (hi - lo)) * (len(y) - 1)
            r = round(u)
            if abs(u - r) < 1e-9:
                return float(sc * y[int(r)])
            j = min(max(int(math.floor(u)), 0), len(y) - 2)
            return float(sc * (y[j] + (u - j) * (y[j + 1] - y[j])))
        return f
    if k == 'mix':
        c = [(A, lo + m * (hi - lo), s * (hi - lo)) for A, m, s in sp['c']]

        def f(x):
            z = [A - .5 * ((x - m) / s) ** 2 for A, m, s in c]
            b = max(z)
            return float(b + math.log(sum(math.exp(max(q - b, -700.)) for q in z)))
        return f


def dev(got, ref, tol):
    if not (isinstance(got, (float, np.floating, int)) and math.isfinite(got)):
        return CAP
    return clampint(1e3 * abs(got - ref) / tol)


def parabola(x, y):
    """Gaussian through three points of its logarithm: (logA, mean, sig)."""
    d1, d2 = (y[1] - y[0]) / (x[1] - x[0]), (y[2] - y[1]) / (x[2] - x[1])
    c = (d2 - d1) / (x[2] - x[0])
    mean = .5 * (x[0] + x[1]) - .5 * d1 / c
    return y[1] - c * (x[1] - mean) ** 2, mean, math.sqrt(-.5 / c)


class Rec:
    def __init__(self, prog):
        self.prog = prog
        self.lo, self.hi, self.n, self.log = prog['lo'], prog['hi'], prog['n'], prog['log']
        self.nc = len(prog['f'])
        self.fs = [mkfunc(s, self.lo, self.hi, self.n, self.log) for s in prog['f']]
        self.set(0, prog['vec'])

    def set(self, rot, vec):
        """The function in use (rot selects another order of components for a second pass)."""
        fs = self.fs[rot:] + self.fs[:rot]
        self.cur = fs
        self.vec = vec
        if vec == '1':
            self.cur = fs[:1]
            self.func = lambda x: (fs[0](float(x)),)
            self.sel = 0
        elif not vec:
            self.cur = fs[:1]
            self.func = lambda x: fs[0](float(x))
            self.sel = None
        else:
            cont = tuple if vec == 't' else list
            self.func = lambda x: cont(f(float(x)) for f in fs)
            self.sel = self.prog['sel'] or 0

    def vfunc(self, xs):
        r = np.array([self.func(x) for x in xs])
        return r

    def u(self, x):
        lo, hi = self.lo, self.hi
        if self.log:
            if x <= 0:
                return -CAP
            return clampint(4e8 * math.log(x / lo) / math.log(hi / lo))
        return clampint(4e8 * (x - lo) / (hi - lo))

    def points(self, g, e, size, getter, func=True):
        lo, hi = self.lo, self.hi
        sel = self.sel
        f = self.cur[sel or 0]
        raw = [getter(i) for i in range(size)]
        pts = []
        vals = []
        for i, (x, w, v) in enumerate(raw):
            x = float(x)
            allv = np.atleast_1d(np.asarray(v, float)).tolist()
            v0 = allv[sel or 0] if len(allv) > (sel or 0) else float('nan')
            ok = len(allv) == len(self.cur) and all(a == h(x) for a, h in zip(allv, self.cur)) if func else True
            vals.append(v0)
            nx = float(raw[i + 1][0]) - x if i + 1 < size else 0.
            tol = 1e-9 * abs(nx) + 16 * EPS * max(abs(x), abs(lo), abs(hi))
            pts.append({'k': key(x), 'X': clampint(1e5 * (x - lo) / (hi - lo)), 'u': self.u(x), 'v': key(v0),
                        'f': key(v0 if ok else f(x) + 1e300), 'w': dev(w, nx, tol)})
        sc = max([abs(v) for v in vals] + [1e-300])
        for p, v in zip(pts, vals):
            p['V'] = clampint(1e3 * v / sc)
        e['p'] = pts
        xs = [float(r[0]) for r in raw]
        self.quads(g, e, xs, vals, sc)
        return xs, vals

    def quads(self, g, e, xs, vals, sc):
        kw = {} if self.sel is None else {'select': self.sel}
        W = xs[-1] - xs[0]
        seg = [(b - a) for a, b in zip(xs[:-1], xs[1:])]
        # positions are known to a few ulp only, so widths of tight grids are too
        wt = 1e-9 + 64 * EPS * max(abs(xs[0]), abs(xs[-1])) / min(seg) if min(seg) > 0 else 1.
        T = math.fsum(.5 * w * (a + b) for w, a, b in zip(seg, vals[:-1], vals[1:]))
        r, x = call(g.trapzd, **kw)
        e['tr'] = {'r': r, 'd': dev(x, T, wt * W * sc), 'c': clampint(2e8 * float(x) / (sc * (self.hi - self.lo))) if r == 'ok' else 0}
        m = max(vals)
        ex = [math.exp(max(v - m, -720.)) for v in vals]
        S = math.fsum(.5 * w * (a + b) for w, a, b in zip(seg, ex[:-1], ex[1:]))
        ref = m + math.log(S)
        # roundoff of the logs themselves
        lt = wt + 32 * EPS * sc
        r, x = call(g.logtrapzd, **kw)
        e['lt'] = {'r': r, 'd': dev(x, ref, lt)}
        X = max(abs(xs[0]), abs(xs[-1]))
        M1 = math.fsum(.5 * w * (a * p + b * q) for w, a, b, p, q in zip(seg, ex[:-1], ex[1:], xs[:-1], xs[1:])) / S
        M2 = math.fsum(.5 * w * (a * p * p + b * q * q) for w, a, b, p, q in zip(seg, ex[:-1], ex[1:], xs[:-1], xs[1:])) / S
        mo = []
        for nm in (None, 1, 2):
            a = {} if nm is None else {'nmom': nm}
            a.update(kw)
            r, x = call(g.logtrapzd_mom, **a)
            d = CAP
            if r == 'ok':
                x = x if isinstance(x, tuple) else (x,)
                if len(x) == 1 + (nm or 0):
                    d = max(dev(q, z, tl) for q, z, tl in zip(x, (ref, M1, M2), (lt, lt * X, lt * X * X)))
            mo.append({'r': r, 'd': d})
        r, x = call(g.logtrapzd_mom, 3, self.sel)
        e['bad'] = ['ValueError' if r == 'err' and isinstance(x, ValueError) else 'ok']
        e['mo'] = mo
        # linear component: its integral is known
        e['lin'] = {'r': 'ok', 'd': 0}
        j = self.cur.index(self.fs[-1]) if self.prog['f'][-1]['k'] == 'lin' and self.vec and self.fs[-1] in self.cur else None
        if j is not None or (not self.vec and self.cur[0] is self.fs[-1] and self.prog['f'][-1]['k'] == 'lin'):
            f = self.fs[-1]
            r, x = call(g.trapzd, **({} if j is None else {'select': j}))
            s = max(abs(f(xs[0])), abs(f(xs[-1])), 1e-300)
            e['lin'] = {'r': r, 'd': dev(x, .5 * W * (f(xs[0]) + f(xs[-1])), wt * W * s)}
        if self.vec:
            tests = [(g.trapzd,), (g.logtrapzd,), (g.logtrapzd_mom, 1)]
        else:
            tests = [(g.trapzd, 0), (g.logtrapzd, 0), (g.logtrapzd_mom, 1, 0)]
        for tst in tests:
            r, x = call(*tst)
            e['bad'].append('ValueError' if r == 'err' and isinstance(x, ValueError) else 'ok')

    def maxima(self, lml, e, xs, vals):
        """Recorded peaks and the reference parameters of a peak at every point."""
        area = self.prog['rank'] == 'area'
        ref, par = [], []
        n = len(xs)
        for i in range(n):
            try:
                if 0 < i < n - 1 and vals[i] > vals[i - 1] and vals[i] >= vals[i + 1]:
                    A, m, s = parabola(xs[i - 1:i + 2], vals[i - 1:i + 2])
                    a = A + math.log(s * math.sqrt(2 * math.pi))
                    tight = min(xs[i] - xs[i - 1], xs[i + 1] - xs[i])
                    soft = max(abs(vals[j]) for j in (i - 1, i, i + 1)) * EPS / (vals[i] - vals[i - 1]) + abs(xs[i]) * EPS / tight
                else:
                    o = 1 if i == 0 else i - 1
                    s = .5 * abs(xs[i] - xs[o]) / (vals[i] - vals[o])
                    A, m = vals[i], xs[i]
                    soft = max(abs(vals[i]), abs(vals[o])) * EPS / (vals[i] - vals[o]) + abs(xs[i]) * EPS / abs(xs[i] - xs[o])
                    a = A + math.log(.5 * s * math.sqrt(2 * math.pi))
            except (ZeroDivisionError, ValueError, IndexError):
                A = m = s = a = 0.
                soft = 0
            par.append((A, m, s, soft))
            ref.append(clampint(1e6 * (a if area else A)))
        e['ref'] = ref
        pk = lambda i: (i == 0 or vals[i] > vals[i - 1]) and (i == n - 1 or vals[i] >= vals[i + 1])
        # otherwise beyond what the record can hold, or a peak of a few ulp
        e['pk'] = all(abs(ref[i]) < CAP and par[i][3] < 1e-8 for i in range(n) if pk(i))
        out = []
        self.peaks = []
        for q, lab in lml:
            i, A, m, s = lab
            d = CAP
            if 0 <= i < n:
                rA, rm, rs, soft = par[i]
                tol = 1e-6 + 1e3 * soft
                d = max(dev(A, rA, tol * max(1, abs(rA))), dev(m, rm, tol * rs), dev(s, rs, tol * rs)) if rs > 0 else CAP
            out.append({'j': int(i) + 1, 'q': clampint(1e6 * q), 'd': d})
            self.peaks.append((float(m), float(s)))
        e['l'] = out


def run(prog, events):
    from inference.grid import grid1d as G1
    R = Rec(prog)
    lo, hi, n, log = R.lo, R.hi, R.n, R.log
    st = 'log' if log else 'linear'
    if prog['alias']:
        st = {'log': 'Logarithmic', 'linear': 'LIN'}[st]
    step = 400000000 // (n - 1)
    cfg = {'lo': key(lo), 'hi': key(hi), 'n': n, 'step': step, 'rpts': math.ceil(prog['nsig'] * (prog['sigpts'] - 1)) + 1,
           'nmax': -1 if prog['nmax'] is None else prog['nmax'],
           'dyn': -1 if prog['dyn'] is None else clampint(1e6 * math.log(prog['dyn'])), 'peaks': True}

    def err(what, want, f, *a, **k):
        r, x = call(f, *a, **k)
        events.append({'op': 'err', 'what': what, 'want': want, 'r': type(x).__name__ if r == 'err' else r})

    if prog['basic']:
        lml = G1.LabeledMaxList(prog['nmax'], prog['dyn'])
        g = G1.BasicGrid1D(lo, hi, n, st, lml, prog['rank'])
        err('integral before values', 'RuntimeError', g.trapzd)
        err('log integral before values', 'RuntimeError', g.logtrapzd)
        err('moments before values', 'RuntimeError', g.logtrapzd_mom, 1)
    else:
        g = G1.Grid1D(lo, hi, n, st, prog['nmax'], prog['dyn'], prog['sigpts'], prog['nsig'], prog['rank'])
        lml = g.lml
        err('refine before firstpass', 'RuntimeError', g.refine)
    err('one point', 'ValueError', G1.BasicGrid1D, lo, hi, 1, st)
    err('log grid through zero', 'ValueError', G1.BasicGrid1D, -abs(lo) - 1, hi if hi > 0 else 1., n, 'log')
    err('unknown spacing', 'ValueError', G1.BasicGrid1D, lo, hi, n, 'cubic')
    err('unknown rank', 'ValueError', G1.BasicGrid1D, lo, hi, n, st, None, 'mass')

    def observe(op, r, x, first):
        e = {'op': op, 'r': r, 'alt': True, 'over': 'ValueError', 'len': 0, 'l': [], 'p': []}
        events.append(e)
        if r != 'ok':
            e['what'] = repr(x)[:200]
            return e
        if prog['basic']:
            e['len'] = g.n
            get = g.point
            ov = [(g.point, g.n), (g.point, -1)]
        else:
            e['len'] = len(g)
            get = g.point
            a = [g.point(i) for i in range(len(g))]
            same = lambda p, q: p[0] == q[0] and p[1] == q[1] and np.array_equal(p[2], q[2])
            b = [g[i] for i in range(len(g))]
            it = list(g)
            e['alt'] = len(it) == len(a) and all(same(p, q) and same(p, s) for p, q, s in zip(a, b, it))
            ov = [(g.point, len(g)), (g.__getitem__, len(g)), (g.point, -1)]
        for f, i in ov:
            rr, xx = call(f, i)
            if not (rr == 'err' and isinstance(xx, ValueError)):
                e['over'] = 'accepted'
        xs, vals = R.points(g, e, e['len'], get)
        if first:
            R.maxima(lml, e, xs, vals)
        return e

    for op in prog['ops']:
        if op[0] == 'first':
            R.set(op[1] % len(R.fs), op[3])
            if prog['basic']:
                del lml.list[:]
                if op[2]:
                    r, x = call(g.vecfunc, R.vfunc, **({} if R.sel is None else {'select': R.sel}))
                else:
                    r, x = call(g.stepfunc, R.func, **({} if R.sel is None else {'select': R.sel}))
            else:
                r, x = call(g.firstpass, R.func, **({} if R.sel is None else {'select': R.sel}))
            observe('first', r, x, True)
        elif op[0] == 'again':
            observe('again', 'ok', None, False)
        elif op[0] == 'refine':
            r, x = call(g.refine, **({} if op[1] is None else {'dynrange': op[1]}))
            e = observe('refine', r, x, False)
            if r != 'ok':
                return cfg
            rg = []
            for q, lab in lml:
                a, b = float(lab[2] - g.nsig * lab[3]), float(lab[2] + g.nsig * lab[3])
                rg.append([R.u(max(a, lo)), R.u(min(b, hi))])
            e['rg'] = rg
            il = g.ilist
            e['seg'] = {'tot': il.npts, 'n': [int(v.n) for v in il], 'fine': [bool(v.step < il.base.step * (1 - 1e-9)) for v in il]}
            ok = prog['nmax'] is None
            e['rl'] = {'on': ok, 'l': [int(lab[0]) + 1 for q, lab in g.rlml]}
            e['l'] = [{'j': int(lab[0]) + 1, 'q': clampint(1e6 * q), 'd': 0} for q, lab in lml]
            e['dyn'] = -1 if op[1] is None else clampint(1e6 * math.log(op[1]))
        elif op[0] == 'sub':
            a, b = sorted((op[1] % n, op[2] % n))
            if b - a < 1:
                continue
            xa, xb = float(g.point(a)[0]), float(g.point(b)[0])
            r, s = call(g.subgrid, xa, xb)
            e = {'op': 'sub', 'r': r, 'a': a + 1, 'b': b + 1, 'p': []}
            events.append(e)
            if r == 'ok':
                R.points(s, e, s.n, s.point, False)
            err('subgrid between points', 'ValueError', g.subgrid, xa + .5 * (xb - xa) / (b - a), xb)
            err('subgrid beyond the grid', 'ValueError', g.subgrid, lo, hi + (hi - lo) / (n - 1))
    return cfg


main(run, 'C14')
