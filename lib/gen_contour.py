"""Programs that plot bivariate functions."""
PS = [1000, 3000, 5000, 6827, 8000, 9000, 9500, 9545, 9900, 9973, 9990]
NAMES = ['red', 'green', 'blue', 'orange', 'purple', 'k', 'cyan']


def plot(rng, how, lev=(), p=()):
    legal = rng.random() < .96
    n = max(1, len(lev) or len(p) or 6)
    cols = rng.choice([None, None, 'k', 'red', rng.sample(NAMES, rng.randrange(1, 7)), tuple(rng.sample(NAMES, min(n, 7)))])
    return dict(op='plot', order=rng.choice(['xy', 'yx']), legal=legal, bad=rng.choice(['XY', 'ij', '', 'x', 'yxx']), forder=rng.random() < .3,
                named=rng.random() < .5 or not legal, how=how, lev=list(lev), p=list(p), arr=rng.random() < .4, colors=list(cols) if isinstance(cols, tuple) else cols,
                lw=rng.choice([10, 10, 25]), gs=rng.choice([0, 0, 100, 15, 40]), bar=rng.random() < .2,
                cross=rng.choice([[], [rng.randrange(0, 10001), rng.randrange(0, 10001)]]), xlabel=rng.choice(['X', 'theta']), ylabel=rng.choice(['Y', 'phi']))


def dress(rng, z, ops):
    nx, ny = len(z), len(z[0])
    out = []
    for o in ops:
        out.append(o)
        for _ in range(rng.choice([0, 1, 3])):
            q = [rng.choice([4 * rng.randrange(n) + rng.choice([-1, 0, 1]), 4 * (n + 1) + rng.randrange(9), -8 - rng.randrange(9)] if rng.random() < .4
                            else [4 * rng.randrange(n), 4 * rng.randrange(n) + 1]) for n in (nx, ny)]
            out.append(dict(op='coord', qx=q[0], qy=q[1]))
    for o in out:
        if o['op'] == 'plot' and o['how'] != 'abs':
            unit = 1.
            break
    else:
        unit = rng.choice([1., .5, 8.])
    return dict(cfg=dict(z=z), ops=out, unit=unit, lists=rng.random() < .3,
                grid=[rng.choice([0., -2., 100.]), rng.choice([1., .25, 8.]), rng.choice([0., -1., 16.]), rng.choice([1., .125, 4.])])


def from_behaviour(rng, b):
    lev = b['levels']
    return dress(rng, b['z'], [plot(rng, 'abs', lev)])


def program(rng):
    nx, ny = rng.choice([(2, 2), (2, 3), (3, 2), (4, 3), (3, 5), (5, 5), (6, 4), (7, 3)])
    how = rng.choice(['abs', 'p', 'default'])
    span = rng.choice([3, 8, 25])
    top = rng.choice([0, 0, 5, -40])
    z = [[top - rng.randrange(span) for _ in range(ny)] for _ in range(nx)]
    ops = []
    for _ in range(rng.choice([1, 1, 2])):
        if how == 'abs':
            n = rng.randrange(1, 6)
            pool = [1000 * (top - k) - rng.choice([500, 250, 125, 875]) for k in range(-1, span + 1)]
            lev = rng.sample(pool, min(n, len(pool)))
            k = rng.random()
            if k < .3:
                lev.sort()
            elif k < .5:
                lev.sort(reverse=True)
            ops.append(plot(rng, 'abs', lev))
        elif how == 'p':
            ps = rng.sample(PS, rng.randrange(1, 6))
            if rng.random() < .4:
                ps.sort()
            # one contour of a pair within the tolerance would do for both
            ps = [q for k, q in enumerate(ps) if not any({q, o} in ({6827, 6828},) for o in ps[:k])]
            ops.append(plot(rng, 'p', p=ps))
        else:
            ops.append(plot(rng, 'default'))
    return dress(rng, z, ops)


def corrupt(rng, tr):
    c = [e for e in tr['ev'] if e.get('drawn') and e['legal']]
    if not c:
        return None
    e = rng.choice(c)
    d = rng.choice(e['drawn'])
    k = rng.randrange(4)
    if k == 0:
        d['lev'] += 5
    elif k == 1:
        d['col'] += 1
    elif k == 2 and d['pts']:
        p = rng.choice(d['pts'])
        p[rng.randrange(2)] += 40
    else:
        e['labels'][0] += '?'
    return tr
