"""Two-dimensional cubature rules."""
import math
from fractions import Fraction as Fr
import numpy as np
from drvlib import main, call, key
from fenc import clampint, CAP

SQ = {'c2_1_4': 'square1d4pt', 'c2_3_4': 'square3d4pt', 'c2_7_12': 'square7d12pt'}
RE = {'c2_3_4': 'rect3d4pt', 'c2_7_12': 'rect7d12pt'}


def units(x, s, u=1e-13):
    """|x| in units of u times the magnitude s of what was summed."""
    x = abs(float(x))
    if x == 0:
        return 0
    return clampint(x / (u * s)) if s > 0 else CAP


def norm1(m):
    return 0 if m % 2 else math.prod(range(m - 1, 0, -2))


def nmom(l, s, m):
    return sum(math.comb(m, k) * l ** (m - k) * s ** k * norm1(k) for k in range(m + 1))


def integrator(C, prog, g):
    """The callable f -> integral for a program's rule on region g, and its object if any."""
    k, r = prog['kind'], prog['rule']
    if k == 'sq':
        return getattr(C, SQ[r]), None
    if k == 'rect':
        h = getattr(C, RE[r])
        ty = {'tuple': tuple, 'list': list, 'array': lambda v: np.array(v, float)}[prog['ty']]
        return (lambda f: h(f, ty(g[:2]), ty(g[2:]))), None
    if k == 'e2':
        return C.rule_dict[r][0], None
    if prog['dflt']:
        o = C.NormWtCub2D([g[0], g[2]], [g[1], g[3]])
    else:
        o = C.NormWtCub2D((g[0], g[2]), (g[1], g[3]), r)
    return o, o


def tables(C):
    return {k: (v[1].tobytes(), v[2].tobytes()) for k, v in C.rule_dict.items()}


def exact(kind, g, m, n):
    """(multiplier making it comparable, exact value as a Fraction) of a moment."""
    if kind in ('sq', 'rect'):
        a, b, c, d = map(Fr, g)
        return (m + 1) * (n + 1), (b ** (m + 1) - a ** (m + 1)) * (d ** (n + 1) - c ** (n + 1))
    if kind == 'e2':
        return None, Fr(norm1(m) * norm1(n))
    return 1, nmom(Fr(g[0]), Fr(g[1]), m) * nmom(Fr(g[2]), Fr(g[3]), n)


def run(prog, events):
    from inference.integrate import cub2d as C
    kind, g = prog['kind'], prog['g']
    cfg = dict(kind=kind, rule=prog['rule'], int=prog['int'], g=g if prog['int'] else [0, 0, 0, 0])
    t0 = tables(C)
    r, x = call(integrator, C, prog, g)
    if r != 'ok':
        events.append({'op': 'make', 'r': 'err'})
        return cfg
    I, obj = x
    other = None
    if prog['other']:                         # a second rule in use at the same time
        other = call(integrator, C, prog['other'], prog['other']['g'])[1][0]
    # the points that are evaluated
    P = []

    def rec(x, y):
        P.append((float(x), float(y)))
        return 1.
    r, total = call(I, rec)
    e = {'op': 'pts', 'r': r, 'n': len(P), 'distinct': len(set(P)), 'inside': True, 'edge': True, 'keep': True}
    events.append(e)
    if r != 'ok':
        return cfg
    if kind in ('sq', 'rect'):
        e['inside'] = all(min(g[:2]) < a < max(g[:2]) and min(g[2:]) < b < max(g[2:]) for a, b in P)
        e['edge'] = all(a in (g[0], g[1]) and b in (g[2], g[3]) for a, b in P)
    sg = -1 if kind == 'rect' and (g[1] - g[0]) * (g[3] - g[2]) < 0 else 1   # reversed limits change the sign
    # the weight of each point; it must be positive and a linear functional
    W = []
    for p in P:
        r, w = call(I, lambda x, y: 1. if (float(x), float(y)) == p else 0.)
        W.append(float(w) if r == 'ok' else float('nan'))
    V = prog['vals']
    val = {p: V[j % len(V)] for j, p in enumerate(P)}
    r, s = call(I, lambda x, y: val.get((float(x), float(y)), float('nan')))
    ex = math.fsum(w * val[p] for w, p in zip(W, P))
    mag = math.fsum(abs(w * val[p]) for w, p in zip(W, P))
    events.append({'op': 'wts', 'r': r, 'pos': all(w * sg > 0 for w in W), 'lin': units(s - ex, mag) if r == 'ok' else CAP,
                   'tot': units(total - math.fsum(W), math.fsum(map(abs, W)))})
    # moments
    for m, n in prog['mons']:
        if other is not None:
            call(other, lambda x, y: x + y)
        f = (lambda x, y: float(x) ** m * float(y) ** n)
        if prog['npf']:
            f = (lambda x, y: np.multiply(np.float64(x) ** m, np.float64(y) ** n))
        r, v = call(I, f)
        mult, q = exact(kind, g, m, n)
        if r != 'ok':
            events.append({'op': 'mom', 'r': r, 'm': m, 'n': n, 'q': 0, 'd': 0})
            continue
        v = float(v)
        mag = sum(abs(w * a ** m * b ** n) for w, (a, b) in zip(W, P))
        if mult is None:
            mult = 2. ** ((m + n) / 2) / math.pi
        v, mag = v * mult, mag * mult
        if prog['int']:
            z = round(v) if abs(v) < CAP else 0
            events.append({'op': 'mom', 'r': r, 'm': m, 'n': n, 'q': z, 'd': units(v - z, mag)})
        else:
            events.append({'op': 'momf', 'r': r, 'm': m, 'n': n, 'd': units(v - float(q), mag)})
    # the integral over a region is the sum over its parts
    for c, parts in enumerate(prog['parts']):
        m, n = prog['pmon']
        ok = True
        tot = mag = 0.
        for h in parts:
            J, _ = integrator(C, prog, h)
            r, v = call(J, lambda x, y: float(x) ** m * float(y) ** n)
            r2, va = call(J, lambda x, y: abs(float(x) ** m * float(y) ** n))
            ok = ok and r == 'ok' and r2 == 'ok'
            tot, mag = tot + (v if r == 'ok' else 0), mag + (abs(va) if r2 == 'ok' else 0)
        mult, q = exact(kind, g, m, n)
        events.append({'op': 'part', 'ok': ok, 'd': units(tot - float(q / mult), mag)})
    if kind == 'norm':
        for bad in ([1.], [1., 2., 3.], []):
            a = call(C.NormWtCub2D, bad, [1., 1.])
            b = call(C.NormWtCub2D, [0., 0.], bad)
            events.append({'op': 'bad', 'ok': all(q[0] == 'err' and isinstance(q[1], ValueError) for q in (a, b))})
        ok = obj is not None and obj.absc.shape == (len(P), 2) and set(map(tuple, obj.absc.tolist())) == set(P)
        ok = ok and abs(float(np.sum(obj.wts)) - 1) < 1e-12
        events.append({'op': 'obj', 'ok': bool(ok)})
    P2 = []

    def rec2(x, y):
        P2.append((float(x), float(y)))
        return 1.
    r, t2 = call(I, rec2)
    events.append({'op': 'same', 'ok': r == 'ok' and sorted(P2) == sorted(P) and float(t2) == float(total), 'tab': tables(C) == t0})
    return cfg


if __name__ == '__main__':
    main(run, 'C22')
