"""Adaptive integration."""
import math
import numpy as np
from drvlib import main, call, key
from fenc import clampint, CAP

U = 1 << 20          # lattice units in the region's half width


def units(x, s, u=1e-13):
    x = abs(float(x))
    if x == 0:
        return 0
    return clampint(x / (u * s)) if s > 0 else CAP


def one(kind, a, b, p):
    """Integral of a factor from a to b."""
    k, c = p
    if kind == 'exp':
        return (math.exp(k * b) - math.exp(k * a)) / k
    if kind == 'cos':
        return (math.sin(k * b + c) - math.sin(k * a + c)) / k
    if kind == 'gauss':
        return .5 * math.sqrt(math.pi) / k * (math.erf(k * (b - c)) - math.erf(k * (a - c)))
    raise ValueError(kind)


def factor(kind, p, x):
    k, c = p
    if kind == 'exp':
        return math.exp(k * x)
    if kind == 'cos':
        return math.cos(k * x + c)
    return math.exp(-(k * (x - c)) ** 2)


class Fun:
    """An integrand: polynomial [[coef, [exponents]], ...], product of smooth factors, or a rough one."""
    def __init__(self, spec):
        self.s = spec

    def __call__(self, x):
        s = self.s
        if s['k'] == 'poly':
            return math.fsum(c * math.prod(float(z) ** m for z, m in zip(x, ms)) for c, ms in s['t'])
        if s['k'] == 'prod':
            return s['a'] + math.prod(factor(kd, p, float(z)) for (kd, p), z in zip(s['f'], x))
        if s['k'] == 'disc':
            return 1. if float(np.sum(x)) < s['c'] else s['a']
        return abs(float(np.sum(x)) - s['c']) ** .5 + s['a']

    def exact(self, lo, hi):
        s = self.s
        if s['k'] == 'prod':
            return s['a'] * math.prod(b - a for a, b in zip(lo, hi)) + math.prod(one(kd, a, b, p) for (kd, p), a, b in zip(s['f'], lo, hi))
        return None


def scale(s, lo, hi):
    """A bound of the integral of the absolute value."""
    if s['k'] == 'poly':
        return sum(abs(c) * math.prod(max(abs(a), abs(b)) ** m * (b - a) for a, b, m in zip(lo, hi, ms)) for c, ms in s['t'])
    if s['k'] == 'prod':
        return math.prod(b - a for a, b in zip(lo, hi)) * (abs(s['a']) + math.prod(max(factor('exp', p, a), factor('exp', p, b)) if kd == 'exp' else 1 for (kd, p), a, b in zip(s['f'], lo, hi)))
    return 1.


class Boom(Exception):
    pass


def scalar(I, prog, lo, hi, pts, fail=None):
    f = Fun(prog['f'][0])

    def g(x):
        pts.append(tuple(float(z) for z in x))
        if fail is not None and len(pts) >= fail:
            raise Boom()
        return f(x)
    kw = {}
    if prog['maxfac'] is not None:
        kw['maxfac'] = prog['maxfac']
    if prog['wrkfac'] is not None:
        kw['wrkfac'] = prog['wrkfac']
    ty = list if prog['ty'] == 'list' else (lambda v: np.array(v, float))
    r, x = call(I.adapt, g, ty(lo), ty(hi), prog['eps'], **kw)
    if r == 'ok' and x is not None:
        return r, ([float(x[0])], [float(x[1]) * abs(float(x[0]))], int(x[2]), [float(x[1]) < prog['eps']])
    return (r, x) if r != 'ok' else ('none', None)


def vector(I, prog, lo, hi, pts, fail=None):
    fs = [Fun(s) for s in prog['f']]

    def g(x, n, res):
        pts.append(tuple(float(z) for z in x))
        if fail is not None and len(pts) >= fail:
            raise Boom()
        return np.array([f(x) for f in fs])
    kw = {k: prog[k] for k in ('abseps', 'key', 'minpts', 'maxpts') if prog[k] is not None}
    ty = list if prog['ty'] == 'list' else (lambda v: np.array(v, float))
    r, x = call(I.adapt_vec, len(fs), g, ty(lo), ty(hi), prog['eps'], **kw)
    if r == 'ok' and x is not None:
        v, e = [float(z) for z in x[0]], [float(z) for z in x[1]]
        return r, (v, e, int(x[2]), [d <= max((prog['abseps'] or 0.), prog['eps'] * abs(z)) for z, d in zip(v, e)])
    return (r, x) if r != 'ok' else ('none', None)


def regions(pts, lo, hi, num):
    """Bounding boxes of the successive groups of num points, as multiples of the first one's, or None."""
    if num <= 0 or len(pts) % num:
        return None
    out = []
    P = np.array(pts)
    lo, hi = np.array(lo, float), np.array(hi, float)
    C0, H0 = .5 * (lo + hi), .5 * (hi - lo)
    ext = None
    for j in range(0, len(P), num):
        q = P[j:j + num]
        a, b = q.min(0), q.max(0)
        if ext is None:
            ext = .5 * (b - a) / H0
        c, h = .5 * (a + b), .5 * (b - a) / ext
        ci, hi_ = (c - C0) / H0 * U, h / H0 * U
        if hi_.min() < 64 or len(out) >= 60:
            break
        if np.any(np.abs(ci - np.round(ci)) > .1) or np.any(np.abs(hi_ - np.round(hi_)) > .1):
            return None
        out.append({'op': 'reg', 'c': [int(z) for z in np.round(ci)], 'h': [int(z) for z in np.round(hi_)]})
    return out


def do(I, prog, lo, hi, events, regs):
    run = scalar if prog['which'] == 'adapt' else vector
    pts = []
    r, x = run(I, prog, lo, hi, pts)
    if regs and prog['which'] == 'vec' and prog['num'] > 0 and len(pts) <= 40000:
        rg = regions(pts, lo, hi, prog['num'])
        if rg is None:
            events.append({'op': 'lost'})
        else:
            events.extend(rg)
    ins = all(all(min(a, b) <= z <= max(a, b) for z, a, b in zip(p, lo, hi)) for p in pts)
    e = {'op': 'res', 'r': type(x).__name__ if r == 'err' else r, 'why': 'none', 'inside': ins, 'n': len(pts), 'neval': 0, 'claim': True, 'd': 0, 'q': [0] * len(prog['f']), 'dq': 0}
    if r == 'err':
        m = str(x)
        e['why'] = 'budget' if 'maxfac' in m or 'maxpts too small' in m else 'work' if 'wrkfac' in m else 'other'
    if r == 'ok':
        v, er, e['neval'], cl = x
        e['claim'] = all(cl)
        for j, s in enumerate(prog['f']):
            if s['k'] == 'poly':
                mag = sum(abs(c) * math.prod(max(abs(a), abs(b)) ** m * (b - a) for a, b, m in zip(lo, hi, ms)) for c, ms in s['t'])
                z = v[j] * s['L']
                e['q'][j] = round(z) if abs(z) < CAP else 0
                e['dq'] = max(e['dq'], units(z - e['q'][j], mag * s['L']))
            ex = Fun(s).exact(lo, hi)
            if ex is not None:
                e['d'] = max(e['d'], clampint(1e3 * abs(v[j] - ex) / (100 * (prog['eps'] * abs(ex) + (prog['abseps'] or 0)) + 1e-9 * scale(s, lo, hi))))
    events.append(e)
    return r, x


def run(prog, events):
    import inference.integrate as I
    lo, hi = prog['lo'], prog['hi']
    cfg = dict(which=prog['which'], nd=len(lo), num=prog['num'], budget=prog['budget'], minp=prog['minp'], U=U, int=prog['int'],
               lo=lo if prog['int'] else [0] * len(lo), hi=hi if prog['int'] else [0] * len(lo), valid=prog['valid'],
               f=[dict(t=[[c, ms] for c, ms in s['t']], L=s['L']) if s['k'] == 'poly' else dict(t=[[0, [0] * len(lo)]], L=0) for s in prog['f']])
    r, x = do(I, prog, lo, hi, events, True)
    if prog['boom'] is not None:
        pts = []
        rb, xb = (scalar if prog['which'] == 'adapt' else vector)(I, prog, lo, hi, pts, prog['boom'])
        events.append({'op': 'boom', 'ok': len(pts) < prog['boom'] or (rb == 'err' and isinstance(xb, Boom) and len(pts) == prog['boom'])})
    if prog['between'] is not None:
        p2 = prog['between']
        (scalar if p2['which'] == 'adapt' else vector)(I, p2, p2['lo'], p2['hi'], [])
    ev2 = []
    r2, x2 = do(I, prog, lo, hi, ev2, False)
    same = r2 == r and (r != 'ok' or x == x2) and (r != 'err' or str(x) == str(x2))
    events.append({'op': 'same', 'ok': bool(same)})
    if r == 'ok' and prog['cut'] is not None:
        ax, c = prog['cut']
        h1, l2 = list(hi), list(lo)
        h1[ax] = l2[ax] = c
        tot, mags = [0.] * len(x[0]), [0.] * len(x[0])
        ok = True
        for a, b in ((lo, h1), (l2, hi)):
            ra, xa = do(I, dict(prog, int=False, f=[dict(s, k2=0) for s in prog['f']]), a, b, [], False)
            if ra != 'ok':
                ok = False
                break
            tot = [u + z for u, z in zip(tot, xa[0])]
            mags = [u + abs(z) for u, z in zip(mags, xa[0])]
        if ok:
            d = max(clampint(1e3 * abs(t - v) / (100 * prog['eps'] * (abs(t) + abs(v) + big) + 300 * (prog['abseps'] or 0) + 1e-9 * scale(s, lo, hi)))
                    for t, v, big, s in zip(tot, x[0], mags, prog['f']))
            events.append({'op': 'part', 'd': d})
    return cfg


if __name__ == '__main__':
    main(run, 'C23')
