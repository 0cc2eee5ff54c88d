"""Programs that report on inferences."""
import gen_contour as GT
POOL = ['a', 'b', 'A', 'x1', 'theta', 'Theta', 'long_name', '_u', 'sigma2']
DOCS = ['', '', 'first', 'a parameter', 'scale (in km)', 'x = 3', 'ratio a/b', 'two  spaces']
VALS = [0., 1., -1., .1, 1. / 3, -2.5e-7, 1e22, 1.7976931348623157e308, 5e-324, 123456789.123456, -0.30000000000000004, 1e5, 1e16]


def cfg(rng, n):
    return dict(names=rng.sample(POOL, n), vals=[rng.choice(VALS) for _ in range(n)], docs=[rng.choice(DOCS) for _ in range(n)], max=rng.random() < .6, scale=rng.choice([1., 1., 1e5, 1e-7]), off=rng.choice([0., 0., 1e6, -1e6]))


def set_(rng, p, how=None):
    how = how or rng.choice(['fix', 'fix', 'lin', 'lin', 'log', 'vary'])
    if how == 'fix':
        return dict(op='set', p=p, how='fix', v=rng.choice(VALS))
    if how == 'vary':
        return dict(op='set', p=p, how='vary')
    a = rng.randrange(1, 9)
    b = a + rng.randrange(1, 30)
    if how == 'lin':
        a -= rng.choice([0, 0, 12])
    return dict(op='set', p=p, how=how, a=a, b=b, n=rng.choice([2, 2, 3, 4, 6]))


def report(rng, n):
    return rng.choice([dict(op='show'), dict(op='status'), dict(op='pshow', p=rng.randrange(1, n + 1)), dict(op='text', k=rng.randrange(12)),
                       dict(op='text', k=rng.randrange(12)), plot(rng)])


def plot(rng):
    return dict(op='plot', k=rng.randrange(12), over=rng.random() < .3, ylab=rng.choice(['', '', 'Chi2', 'log L']))


def check(rng, p):
    a = rng.randrange(-40, 40)
    w = rng.choice([1, 2, 10, 50, 400, 1000])
    pc = rng.choice([1, 1, 0, 5, 10, 25, 50])
    t = w * pc // 100
    v = a + min(w, max(0, rng.choice([0, t, t + 1, t - 1, w - t, w - t - 1, w - t + 1, w, rng.randrange(w + 1)])))
    return dict(op='check', p=p, vy=rng.random() < .9, v=v, a=a, b=a + w, pc=pc, flip=rng.random() < .2)


def from_behaviour(rng, b):
    c = cfg(rng, 2)
    ops, k = [], 0
    for x in b:
        if x['op'] == 'set':
            ops.append(dict(op='set', p=x['p'], how='fix', v=float(x['v'])))
        elif x['op'] == 'step':
            g = x['g']
            ops.append(dict(op='set', p=x['p'], how=g['k'], a=g['a'], b=g['b'], n=g['n']))
        elif x['op'] == 'take':
            ops.append(dict(op='snap') if x['w'] == 'snap' else dict(op='grid', vg=False))
        else:
            ops.append(rng.choice([dict(op='show'), dict(op='status')]) if x['k'] == 0 else dict(op='text', k=x['k'] - 1))
    ops += [dict(op='show'), dict(op='status'), dict(op='text', k=0), plot(rng)]
    return dict(cfg=c, ops=ops)


def program(rng, n):
    m = rng.choice([1, 2, 2, 3, 4])
    ops = []
    if rng.random() < .5:
        ops = [set_(rng, p, 'lin' if rng.random() < .8 else 'log') for p in rng.sample(range(1, m + 1), min(m, rng.choice([1, 1, 2, 3])))]
        ops += [dict(op='grid', vg=rng.random() < .5), plot(rng), dict(op='text', k=0)]
    elif rng.random() < .5:
        ops = [set_(rng, p, 'vary') for p in rng.sample(range(1, m + 1), m)] + [dict(op='status')]
    for _ in range(n):
        z = rng.random()
        if z < .3:
            ops.append(set_(rng, rng.randrange(1, m + 1)))
        elif z < .4:
            ops.append(dict(op='snap'))
        elif z < .45:
            ops.append(check(rng, rng.randrange(1, m + 1)))
        elif z < .58:
            ops.append(dict(op='grid', vg=rng.random() < .5))
        else:
            ops.append(report(rng, m))
    return dict(cfg=cfg(rng, m), ops=ops)


def contour(rng):
    """Two-parameter grids plotted through the grid itself."""
    p = GT.program(rng)
    p['via'] = rng.sample(['theta', 'phi', 'a', 'B'], 2) + [rng.random() < .5]
    p['lists'] = False
    for o in p['ops']:
        if o['op'] == 'plot':
            o.update(order='xy', legal=True, xlabel=p['via'][0], ylabel=p['via'][1], forder=False, over=rng.random() < .4)
    return p


def corrupt(rng, tr):
    c = [e for e in tr['ev'] if e.get('lines')]
    if not c:
        return None
    l = rng.choice(rng.choice(c)['lines'])
    if rng.random() < .5:
        l['n'] += 'x'
    elif 'v' in l:
        l['v'] = [z + 1 for z in l['v']]
    else:
        l['c'] += 1
    return tr
