"""Minimum bracketing and minimisation."""
import math
import numpy as np
from drvlib import main, call, key
from fenc import clampint, CAP

EV = 400          # recorded evaluations per search (the rest only counted)


def fun1(spec):
    """(function, exact minimiser or None) of one variable."""
    k, c, s, a, b = spec['k'], spec['c'], spec['s'], spec['a'], spec['b']
    if k == 'abs':
        return (lambda x: s * (a * (c - x) if x < c else b * (x - c))), c
    if k == 'quad':
        return (lambda x: s * (x - c) ** 2), c
    if k == 'p15':
        return (lambda x: s * abs(x - c) ** 1.5 * (a if x < c else b)), c
    if k == 'quart':
        return (lambda x: s * ((x - c) ** 4 + a * (x - c) ** 2)), c
    if k == 'well':
        return (lambda x: -s * math.exp(-min(700., ((x - c) / a) ** 2))), None
    if k == 'dbl':
        return (lambda x: s * (((x - c) ** 2 - a) ** 2 + b * x)), None
    if k == 'wig':
        return (lambda x: s * (.05 * (x - c) ** 2 + a * math.sin(3 * x))), None
    if k == 'const':
        return (lambda x: s), None
    if k == 'flat':
        return (lambda x: s * max((x - c) ** 2, a)), None
    T = spec['t']
    n = len(T)
    h = spec['h']

    def tab(x):
        u = (x - c) / h
        if u <= 0:
            return s * (T[0] - u)
        if u >= n - 1:
            return s * (T[-1] + u - (n - 1))
        j = int(u)
        if k == 'stair':
            return s * float(T[j])
        return s * (T[j] + (u - j) * (T[j + 1] - T[j]))
    return tab, None


class Rec:
    def __init__(self, f, events, enc, cap=300000):
        self.f, self.events, self.n, self.enc, self.on, self.cap = f, events, 0, enc, True, cap

    def __call__(self, x):
        v = float(self.f(x))
        self.n += 1
        if self.n > self.cap:
            raise RuntimeError('runaway search')
        if self.on and self.events is not None:
            self.events.append({'op': 'eval', 'k': self.enc(x), 'v': key(v)})
        return v


class Brk:
    pass


def rname(r, x):
    return type(x).__name__ if r == 'err' else r


def one(prog, events):
    from inference.utils import nrmin
    f, best = fun1(prog['f'])
    xs = prog['x']
    conv = np.float64 if prog['np'] else float
    v0 = min(f(xs[0]), f(xs[1]))
    events.append({'op': 'go', 'kind': 'brk', 'v0': key(v0), 'lim': -1})
    r, b = call(nrmin.MinBracket, Rec(f, events, key, 5000), conv(xs[0]), conv(xs[1]))
    e = {'op': 'brk', 'r': rname(r, b)}
    events.append(e)
    if r != 'ok':
        return {'k': 1}
    e['x'] = [key(b.x1), key(b.xm), key(b.x2)]
    e['f'] = [key(b.f1), key(b.fm), key(b.f2)]
    if prog['own']:                           # a bracket made by the caller
        o = Brk()
        o.x1, o.xm, o.x2, o.f1, o.fm, o.f2 = b.x1, b.xm, b.x2, b.f1, b.fm, b.f2
        b = o
    snap = (b.x1, b.xm, b.x2, b.f1, b.fm, b.f2)
    tol = prog['tol']
    ref = Rec(f, None, key)
    rr, xr = call(nrmin.brent, ref, b, **({'tol': tol, 'maxit': 10000} if tol else {'maxit': 10000}))
    for lim in [None] + prog['lim']:
        events.append({'op': 'go', 'kind': 'brent', 'v0': key(b.fm), 'lim': 100 if lim is None else lim, 'lo': key(b.x1), 'hi': key(b.x2)})
        kw = {}
        if tol:
            kw['tol'] = tol
        if lim is not None:
            kw['maxit'] = lim
        g = Rec(f, events, key)
        r, x = call(nrmin.brent, g, b, **kw)
        # an iteration evaluates the function once, except the last one; one evaluation precedes them
        e = {'op': 'min', 'r': rname(r, x), 'need': ref.n if rr == 'ok' else 1000000, 'same': True, 'd': 0}
        events.append(e)
        if r == 'ok':
            e['x'], e['f'] = key(x[0]), key(x[1])
            e['same'] = rr == 'ok' and tuple(map(float, x)) == tuple(map(float, xr))
            if best is not None:
                tl = tol or 1e-6
                if tl >= 1e-8:
                    e['d'] = clampint(1e3 * abs(x[0] - best) / (2.2 * (tl * max(abs(best), abs(x[0])) + 1e-10) + 1e-15 * abs(best)))
    events.append({'op': 'kept', 'ok': snap == (b.x1, b.xm, b.x2, b.f1, b.fm, b.f2)})
    return {'k': 1}


def funn(spec):
    """(function, minimum value or None) of several variables."""
    k = spec['k']
    c = np.array(spec['c'], float)
    A = np.array(spec['A'], float)
    m = spec['m']
    if k == 'quad':
        return (lambda p: float(.5 * np.dot(p - c, np.dot(A, p - c)) + m)), m
    if k == 'flat':
        return (lambda p: float(max(.5 * np.dot(p - c, np.dot(A, p - c)), 1.) + m)), None
    if k == 'const':
        return (lambda p: float(m)), None
    if k == 'some':                           # does not depend on the last variable
        return (lambda p: float(np.sum((p - c)[:-1] ** 2) + m)), None
    if k == 'l1':
        return (lambda p: float(np.sum(np.abs(np.dot(A, p - c)))) + m), None
    if k == 'max':
        return (lambda p: float(np.max(np.abs(np.dot(A, p - c)))) + m), None
    if k == 'stair':
        return (lambda p: float(np.sum(np.floor(np.abs(np.dot(A, p - c)) * 3))) + m), None
    if k == 'rosen':
        return (lambda p: float(np.sum((p - c) ** 2) + 5 * np.sum(((p - c)[1:] - (p - c)[:-1] ** 2) ** 2)) + m), None
    return (lambda p: float(np.sum((p - c) ** 2) - 2 * np.sum(np.cos(3 * np.dot(A, p - c)))) + m), None


def enc(p):
    return [key(z) for z in np.asarray(p, float).ravel()]


def multi(prog, events):
    from inference.utils import nrmin
    f, best = funn(prog['f'])
    p = np.array(prog['p'], prog.get('dt', 'float'))
    pc = p.copy()
    v0 = f(p)
    if prog['kind'] == 'lin':
        d = np.array(prog['d'], float)
        dc = d.copy()
        kw = {'tol': prog['tol']} if prog['tol'] else {}
        events.append({'op': 'go', 'kind': 'lin', 'v0': key(v0), 'lim': -1})
        r, x = call(nrmin.linmin, Rec(f, events, enc, 20000), p, d, **kw)
        e = {'op': 'min', 'r': rname(r, x), 'need': 0, 'same': True, 'd': 0}
        events.append(e)
        if r == 'ok':
            e['x'], e['f'] = enc(x[0]), key(x[2])
            if best is not None:
                A, c = np.array(prog['f']['A']), np.array(prog['f']['c'])
                q = float(np.dot(d, np.dot(A, d)))
                l = -float(np.dot(d, np.dot(A, p - c))) / q
                fm = f(p + l * d)
                e['d'] = clampint(1e3 * (x[2] - fm) / (100 * (prog['tol'] or 1e-4) ** 2 * abs(v0 - fm) + 1e-19 * q + 1e-13 * (abs(v0) + abs(fm))))
            dd = np.asarray(p, float) + x[1] - x[0]
            events.append({'op': 'step', 'ok': bool(np.all(np.abs(dd) <= 1e-14 * (np.abs(p) + np.abs(x[0]))))})
        events.append({'op': 'kept', 'ok': bool((p == pc).all() and (d == dc).all())})
        return {'k': 1}
    # Powell
    D = prog['D']
    mk = (lambda: None) if D is None else dict(array=lambda: np.array(D, float), list=lambda: [np.array(z, float) for z in D], int=lambda: np.array(D, int))[prog['dk']]
    kw = {}
    if prog['ftol']:
        kw['ftol'] = prog['ftol']
    B = np.identity(len(pc)) if D is None else np.array(D, float)
    ref = call(nrmin.powell, Rec(f, None, enc), pc.astype(float), np.roll(B, -1, 0) if prog['shuffle'] else B.copy(), maxit=400, **kw)
    need = int(ref[1][2]) if ref[0] == 'ok' else 1000000
    for lim in [None] + prog['lim']:
        k2 = dict(kw)
        if lim is not None and lim < 0 and ref[0] != 'ok':
            continue                          # relative to an iteration count that is not known
        if lim is not None:
            k2['maxit'] = max(1, lim if lim >= 0 else need + lim + 1)
        if prog['nlog']:
            k2['nlog'] = prog['nlog']
        if prog['shuffle']:
            k2['shuffle'] = True
        dr = mk()
        if dr is not None:
            k2['drxns'] = dr
        g = Rec(f, events, enc)
        events.append({'op': 'go', 'kind': 'pow', 'v0': key(v0), 'lim': k2.get('maxit', 200)})
        r, x = call(nrmin.powell, g, p, **k2)
        if g.n > EV:                          # keep the record small: start, and what equals the result
            keep = []
            want = enc(x[0]) if r == 'ok' else None
            base = len(events) - g.n
            keep = [z for q, z in enumerate(events[base:]) if q < EV or z['k'] == want]
            events[base:] = keep
        e = {'op': 'min', 'r': rname(r, x), 'need': need, 'same': True, 'd': 0}
        events.append(e)
        if r == 'ok':
            e['x'], e['f'] = enc(x[0]), key(x[1])
            e['same'] = ref[0] == 'ok' and enc(x[0]) == enc(ref[1][0]) and x[1] == ref[1][1] and x[2] == ref[1][2]
            if best is not None:
                e['d'] = clampint(1e3 * (x[1] - best) / (1e4 * (prog['ftol'] or 1e-6) * abs(best) + 1e-6 * (v0 - best) + 1e-12))
        ok = bool((p == pc).all() and p.dtype == pc.dtype)
        if dr is not None:
            ok = ok and all((np.asarray(u) == np.asarray(w)).all() for u, w in zip(dr, mk()))
        events.append({'op': 'kept', 'ok': ok})
    return {'k': 1}


def run(prog, events):
    return one(prog, events) if prog['kind'] == 'one' else multi(prog, events)


main(run, '*')
