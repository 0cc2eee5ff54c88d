"""Histories of requests to the Bretthorst algorithm."""


def config(rng):
    m = rng.choice([1, 2, 2])
    data = [dict(x=rng.randrange(3), y=rng.randrange(-2, 3), z=rng.choice([1, 1, 2])) for _ in range(3)]
    return dict(m=m, aux=rng.random() < .5, data=data, bad=rng.randrange(1, m + 1))


def one(cfg, form):
    if form == 'one':
        for d in cfg['data']:
            d['z'] = cfg['data'][0]['z']
    return form


def decidable(cfg, v):
    """Dependent basis functions are noticed for certain only if the first vanishes
    (otherwise it depends on rounding)."""
    if 9 in v:
        return True
    aux = v[0] - v[1] if cfg['aux'] else 0
    g = [[d['z'] * ((1 + v[0] * d['x'] if k == 0 else d['x'] + v[1]) + aux) for d in cfg['data']] for k in range(cfg['m'])]
    a = sum(t * t for t in g[0])
    if cfg['m'] == 1 or a == 0:
        return True
    return a * sum(t * t for t in g[1]) != sum(t * u for t, u in zip(*g)) ** 2


def P(rng, cfg):
    while True:
        v = P0(rng)
        if decidable(cfg, v):
            return v


def P0(rng):
    v = [rng.randrange(-1, 2), rng.randrange(-1, 2)]
    if rng.random() < .15:
        v[rng.randrange(2)] = 9
    return v


def program(rng):
    while True:
        cfg = config(rng)
        if any(decidable(cfg, [p, q]) for p in (-1, 0, 1) for q in (-1, 0, 1)):
            break
    form = one(cfg, rng.choice(['three', 'one', 'obj']))
    few = [P(rng, cfg) for _ in range(rng.choice([2, 3]))]
    ops = []
    for _ in range(rng.randrange(3, 12)):
        k = rng.choice(['marg', 'marg', 'ampl', 'resid', 'resid', 'covar'])
        p = [] if k == 'covar' or (k in ('ampl', 'resid') and rng.random() < .5) else list(rng.choice(few))
        ops.append(dict(op=k, p=p, f=rng.randrange(2)))
    return dict(cfg=cfg, form=form, ops=ops)


def from_behaviour(rng, b):
    cfg = dict(m=2, aux=False, data=[dict(x=0, y=1, z=1), dict(x=1, y=-1, z=2), dict(x=2, y=2, z=1)], bad=rng.randrange(1, 3))
    return dict(cfg=cfg, form=rng.choice(['three', 'obj']), ops=[dict(op=h['op'], p=list(h['p']), f=0) for h in b])


def corrupt(rng, tr):
    ev = [e for e in tr['ev'] if e.get('r') == 'ok' and e['op'] in ('marg', 'ampl', 'resid')]
    if not ev:
        return None
    e = rng.choice(ev)
    if e['op'] == 'marg':
        e[rng.choice('QS')] += 5
    else:
        e['v'][0] += rng.choice([-7, 5, 100])
    return tr
