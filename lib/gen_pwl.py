"""Piecewise-linear densities, places at which to evaluate them, and streams of random numbers."""
from fractions import Fraction as Fr
from gen_pps import boundaries


def negl(c, k):
    return c['v'][k] * c['cd'] <= c['cn'] * max(c['v'])


def areas(c):
    n = len(c['v'])
    val = [0 if c['log'] and negl(c, k) else c['v'][k] for k in range(n)]
    return [(val[k] + val[k + 1]) * c['w'][k] for k in range(n - 1) if not (negl(c, k) and negl(c, k + 1))]


def decided(c, near=False):
    """No tie at the cut that rounding decides, and no 30-bit probability at which rounding decides."""
    if max(c['v']) <= 0:
        return False
    if c['log'] and c['cn'] == 0 or (c['log'] or near) and any(v > 0 and v * c['cd'] == c['cn'] * max(c['v']) for v in c['v']):
        return False
    a = areas(c)
    T = sum(a)
    if T > 30000:
        return False
    if not near and T & (T - 1) == 0 and not c['log'] and max(c['v']) & (max(c['v']) - 1) == 0:
        return True
    return all(x in (0, T) or Fr(1, 10000) < Fr(x * 2 ** 30, T) % 1 < 1 - Fr(1, 10000) for x in a)


def config(rng):
    while True:
        n = rng.choice([2, 3, 4, 5, 6, 8])
        hi = rng.choice([1, 2, 4, 9])
        c = dict(v=[0 if rng.random() < .25 else rng.randrange(0, hi + 1) for _ in range(n)], log=rng.random() < .35)
        c['cn'], c['cd'] = rng.choice([(0, 1), (1, 4), (2, 5), (1, 1000), (2, 3)])
        c['uni'] = rng.random() < .6
        c['w'] = [1 if c['uni'] else rng.choice([1, 2, 3]) for _ in range(n - 1)]
        if max(c['v']) > 0 and decided(c):
            return c


def ops(rng, c):
    out = []
    n = len(c['v'])
    for _ in range(rng.randrange(2, 8)):
        r = rng.random()
        if r < .5 and c['uni']:
            if rng.random() < .15:
                out.append(dict(op='out', side=rng.choice([-1, 1]), vec=rng.random() < .5))
            else:
                k = rng.randrange(1, n + 1)
                out.append(dict(op='pdf', k=k, q=0 if k == n else rng.randrange(4), vec=rng.random() < .4))
        else:
            m = rng.choice([None, None, 1, 2, 4, 7])
            src = boundaries(areas(c))
            words = [] if rng.random() < .3 else \
                [(rng.choice(src) if rng.random() < .4 else rng.choice([0, 2 ** 30 - 1]) if rng.random() < .1 else rng.randrange(1 << 30)) * 4 + rng.randrange(4)
                 for _ in range(rng.randrange(1, 30))]
            out.append(dict(op='sample', n=m, seed=rng.randrange(1 << 30), words=words))
    return out


def finish(rng, c):
    c.setdefault('uni', True)
    c.update(lo=rng.choice([0., -3., 1.5, 100.]), unit=rng.choice([1., .5, .125, 4.]), scale=rng.choice([1., 1., .25, 64.]),
             form=rng.choice(['array', 'array', 'list', 'int', 'tuple']), near=[rng.choice([0, 0, -2, -1, 1, 3]) for _ in c['v']],
             call=rng.randrange(2), bad='none')
    if c['log']:
        c['scale'] = 1.
    if rng.random() < .6 or not decided(c, True):
        c['near'] = [0] * len(c['v'])
    return c


def program(rng):
    c = finish(rng, config(rng))
    if rng.random() < .06:
        c['bad'] = rng.choice(['nodomain', 'lo only', 'hi only', 'long absc', 'short absc', 'step'])
        return dict(cfg=c, ops=[])
    return dict(cfg=c, ops=ops(rng, c))


def from_behaviour(rng, b):
    c = dict(b)
    if not decided(c):
        return None
    c = finish(rng, c)
    o = [dict(op='pdf', k=k, q=q, vec=False) for k in range(1, len(c['v'])) for q in (0, 2)]
    o += [dict(op='pdf', k=len(c['v']), q=0, vec=True)] + ops(rng, c)
    return dict(cfg=c, ops=o)


def corrupt(rng, tr):
    ev = [e for e in tr['ev'] if e['op'] in ('pdf', 'sample') and e['r'] == 'ok']
    if not ev:
        return None
    e = rng.choice(ev)
    if e['op'] == 'pdf':
        e['v'] += 50000
    else:
        e['xs'] = [x + 100000 for x in e['xs']]
    return tr
