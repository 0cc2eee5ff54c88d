"""Programs for the on/off driver."""


def data(rng, small=None):
    if small is None:
        small = rng.random() < .6
    cut = rng.choice([None, None, 0., 1e-3, 1e-10])
    if small:
        p, q = rng.choice([(1, 1), (1, 2), (2, 1), (3, 1), (1, 3), (3, 2)])
        u = rng.choice([1., .5, 3., 1024., 1e-3])
        return dict(non=rng.randrange(5), noff=rng.randrange(5), p=p, q=q, ton=q * u, toff=p * u, cut=cut, sm=True)
    k = rng.random()
    if k < .5:
        non, noff = rng.randrange(0, 40), rng.randrange(0, 40)
    elif k < .8:
        non, noff = rng.randrange(20, 200), rng.randrange(0, 200)
    else:
        non, noff = rng.randrange(0, 60), rng.randrange(0, 3000)
    return dict(non=non, noff=noff, p=1, q=1, ton=rng.choice([1., 2.5, rng.uniform(.1, 20)]), toff=rng.choice([1., 10., rng.uniform(.1, 200)]), cut=cut, sm=False)


def rate(rng, d):
    sh = max(d['non'] / d['ton'] - d['noff'] / d['toff'], .3 / d['ton'])
    k = rng.random()
    if k < .08:
        return 0.
    if k < .5:
        return sh * rng.choice([.5, 1., 2., 1.3])
    if k < .9:
        return sh * rng.uniform(.01, 4)
    return rng.choice([1e-8, 1e-3, 5., 300., 900.]) / d['ton']


def op(rng, ds, o, q):
    d = ds[o - 1]
    e = dict(o=o, q=q)
    if q == 'n':
        e['n'] = rng.choice([0, 0, d['non'], rng.randrange(d['non'] + 1), rng.randrange(d['non'] + 1), -1, d['non'] + 1])
        e['np'] = rng.random() < .3
    elif q == 'scrib':
        e['how'] = rng.randrange(3)
    elif q == 'vec':
        e['ch'] = [[c['non'], c['noff'], rate(rng, c)] for c in [data(rng) for _ in range(rng.randrange(1, 5))]]
    elif q != 'all':
        n = rng.choice([1, 2, 3, 6])
        e['s'] = [rate(rng, d) for _ in range(n)]
        if rng.random() < .3 and q in ('mpv', 'mlv'):
            e['s'] = [float(rng.randrange(0, 9)) for _ in range(n)]
            e['dt'] = rng.choice(['int', 'float', 'float32'])
        if rng.random() < .4 and d.setdefault('pool', []):
            e['s'][0] = rng.choice(d['pool'])
            e.pop('dt', None)
        d.setdefault('pool', []).extend(e['s'])
        if q == 'raw':
            e['off'] = rng.choice([None, None, 0., 1.5])
    return e


def clean(p):
    for d in p['d']:
        d.pop('pool', None)
    return p


def behaviour(rng, h):
    ds = [data(rng, True), data(rng)]
    return clean(dict(d=ds, ops=[op(rng, ds, e['o'], e['q']) for e in h]))


def random_prog(rng):
    ds = [data(rng) for _ in range(rng.choice([1, 2, 2, 3]))]
    n = rng.randrange(3, 14)
    qs = ['all', 'n', 'n', 'mp', 'ml', 'mpv', 'mlv', 'raw', 'vec', 'scrib', 'scrib']
    return clean(dict(d=ds, ops=[op(rng, ds, rng.randrange(len(ds)) + 1, rng.choice(qs)) for _ in range(n)]))


def corrupt(rng, tr):
    c = [e for e in tr['ev'] if e['op'] in ('all', 'n', 'mp', 'ml') and e['r'] in ('ok', 'ValueError')]
    if not c:
        return None
    e = rng.choice(c)
    if e['r'] == 'ValueError':
        if e.get('uf') == 'may':
            return None
        e['r'] = 'RuntimeError'
    elif e['op'] == 'all' and rng.random() < .5:
        e['p'], e['k'] = e['p'][:-1], e['k'][:-1]
    elif e['op'] == 'n' and tr['cfg']['d'][e['o'] - 1]['sm']:
        e['p'] += 2
    else:
        e['d'] = 1500
    return tr
