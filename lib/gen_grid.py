"""Programs for the grid checks."""


def ml_behaviour(rng, b):
    return dict(n=b['n'], r=b['r'], h=b['h'], unit=rng.choice([1., .25, 3., .001]), off=rng.choice([0., -5., -1000., 12.5]), dup=rng.choice([0, 0, 0, 1, 2]))


def ml_random(rng, n):
    v = rng.choice([2, 4, 10, 40])
    h = []
    lim = rng.choice([0., 0., .1])
    for _ in range(n):
        if rng.random() < lim:
            h.append(['l', rng.choice([0, 1, 3, 5, 2 * v + 1])])
        else:
            h.append(['u', rng.randrange(-v, v + 1)])
    return dict(n=rng.choice([-1, 1, 2, 3, 5, 8, 20]), r=rng.choice([-1, -1, 0, 1, 3, 7, 21]), h=h,
                unit=rng.choice([1., .25, 3.]), off=rng.choice([0., -5., -1000., 12.5]), dup=rng.choice([0, 0, 0, 1, 2]))


def ml_corrupt(rng, tr):
    c = [e for e in tr['ev'] if e['l']]
    if not c:
        return None
    e = rng.choice(c)
    x = rng.choice(e['l'])
    k = rng.randrange(3)
    if k == 0:
        x[0] += 1
    elif k == 1:
        x[1] += 1
    else:
        e['l'].remove(x)
        e['len'] -= 1
    return tr


# ----------------------------------------------------------------- interval lists
BASES = [(-3., 3.), (0., 1.), (0., 6.), (5., 10.), (-3., 7.), (-1., -.3), (0., 1e-6), (1e5, 1e5 + 3.), (.1, .7), (1., 1000.), (.001, 2.)]
LBASES = [(1., 10.), (.1, .7), (1e-6, 1e6), (2., 3.), (1., 2.), (1e5, 2e5)]


def il_behaviour(rng, b):
    log = rng.random() < .4
    lo, hi = rng.choice(LBASES if log else BASES)
    return dict(lo=lo, hi=hi, n=b[0][0], log=log, rev=rng.random() < .3, seed=rng.randrange(1 << 30),
                ops=[dict(r=[(h[0] - 2) / 12., (h[1] - 2) / 12.], n=h[2]) for h in b[1:]])


def il_random(rng, n):
    log = rng.random() < .4
    lo, hi = rng.choice(LBASES if log else BASES)
    ops = []
    q = rng.choice([0, 10, 24])

    def end():
        x = rng.random()
        if x < .35:
            return [rng.random(), rng.choice([0, 0, 0, 1, -1, 2])]
        if x < .45:
            return rng.choice([0, 1, -.2, 1.3])
        f = rng.uniform(-.05, 1.05)
        return round(f * q) / q if q else f
    for _ in range(n):
        if rng.random() < .5:
            r = [end(), end()]
        else:
            c = rng.random()
            w = 10 ** rng.uniform(-3.5, -.3)
            r = [c - w, c + w]
        op = dict(r=r, n=rng.choice([2, 3, 4, 5, 7, 11, 21, 41, 101]))
        if rng.random() < .04:
            op = dict(r=rng.choice([[1.1, 1.4], [-.5, -.1], [1, 1.2], [-.3, 0], [.6, .3], [.4, .4]]), n=11, keep=1)
        ops.append(op)
    return dict(lo=lo, hi=hi, n=rng.choice([2, 3, 4, 5, 6, 11, 31]), log=log, rev=rng.random() < .3, seed=rng.randrange(1 << 30), ops=ops)


def il_corrupt(rng, tr):
    c = [e for e in tr['ev'] if len(e['l']) > 1]
    if not c:
        return None
    e = rng.choice(c)
    k = rng.randrange(5)
    if k == 0:
        del e['l'][rng.randrange(len(e['l']))]
    elif k == 1:
        e['npts'] += 1
    elif k == 2:
        e['l'][0]['kb'][2] ^= 1
    elif k == 3:
        rng.choice([q for q in e['nl'] if q['r'] == 'ok'])['x'] += 1
    else:
        q = rng.choice([q for q in e['loc'] if q['r'] == 'ok'])
        q['j'] = q['j'] % len(e['l']) + 1
    return tr


# ----------------------------------------------------------------- grids
def gd_func(rng, n, y=None):
    k = 'tab' if y else rng.choice(['tab', 'mix', 'mix', 'lin'])
    if k == 'lin':
        return dict(k='lin', a=rng.choice([0, 1, -2., 7]), b=rng.choice([0, 1, -3, 4.5, 200]))
    if k == 'tab':
        return dict(k='tab', y=y or [rng.randrange(0, 6) for _ in range(rng.choice([n, n, 2, 3]))], sc=rng.choice([1., .25, 3., 40., -1.]))
    return dict(k='mix', c=[[rng.uniform(-8, 8) if rng.random() < .8 else rng.choice([-300., 500., -1000.]), rng.uniform(-.1, 1.1), 10 ** rng.uniform(-2.3, 0)] for _ in range(rng.randrange(1, 5))])


def gd_prog(rng, y=None):
    log = rng.random() < .4
    lo, hi = rng.choice(LBASES if log else BASES)
    n = len(y) if y else rng.choice([2, 3, 4, 5, 6, 8, 11, 16, 31])
    f = [gd_func(rng, n, y)]
    if not y and rng.random() < .08:     # a high narrow peak at the dense end, nothing over the wide rest
        log, (lo, hi) = True, LBASES[2]
        f = [dict(k='tab', y=[5] + [0] * rng.choice([2, 5, 9]), sc=rng.choice([8., 40., 80.]))]
    vec = rng.choice([None, None, 't', 'l'])
    for _ in range(rng.randrange(0, 3) if vec is None else rng.randrange(1, 3)):
        f.append(gd_func(rng, n))
    f.append(dict(k='lin', a=rng.choice([1, -1.5]), b=rng.choice([2, -5.])))
    basic = rng.random() < .3
    ops = [['first', 0, rng.random() < .5]]
    for _ in range(rng.choice([1, 2, 2, 3, 5])):
        x = rng.random()
        if basic:
            ops.append(['first', rng.randrange(4), rng.random() < .5] if x < .3 else ['again'] if x < .5 else ['sub', rng.randrange(n), rng.randrange(n)])
        else:
            ops.append(['first', rng.randrange(4), False] if x < .25 else ['again'] if x < .4 else ['refine', rng.choice([None, None, 1.5, 3., 1e3])])
    for o in ops:
        if o[0] == 'first':       # the same grid may be used for scalar and vector functions in turn
            o.append(vec if rng.random() < .6 else rng.choice([None, 't', 'l', '1', '1']))
    if not basic and not any(o[0] == 'refine' for o in ops):
        ops.append(['refine', None])
    return dict(lo=lo, hi=hi, n=n, log=log, alias=rng.random() < .2, vec=vec, sel=rng.randrange(len(f)) if vec else None, f=f,
                nmax=rng.choice([None, None, None, 1, 2]), dyn=rng.choice([None, None, 1e5, 10.]), sigpts=rng.choice([3, 5, 11]),
                nsig=rng.choice([1, 2, 4, 4., 2.5, 1.7]), rank=rng.choice(['peak', 'peak', 'area']), basic=basic, ops=ops)


def gd_corrupt(rng, tr):
    c = [e for e in tr['ev'] if e.get('p') and e['op'] in ('first', 'refine')]
    if not c:
        return None
    e = rng.choice(c)
    k = rng.randrange(6)
    if k == 0:
        e['len'] += 1
    elif k == 1:
        rng.choice(e['p'])['f'][2] ^= 1
    elif k == 2:
        del e['p'][rng.randrange(len(e['p']))]
    elif k == 3:
        e['tr']['c'] += 30000000
    elif k == 4:
        e['p'][0]['k'][2] ^= 1
    else:
        j = rng.randrange(len(e['p']) - 1)
        e['p'][j], e['p'][j + 1] = e['p'][j + 1], e['p'][j]
    return tr


# ----------------------------------------------------------------- highest-density regions
def hp_calls(rng, beh):
    """Table-level calls: TLC's tables and levels, and larger random ones."""
    calls = []
    for b in beh:
        z = [v // 2 for v in b['y']]
        if b['c'] % 2 == 0 or rng.random() < .5:
            calls.append(dict(k='quad', z=b['y'], c=b['c']))
        calls.append(dict(k='cross', z=[-1 if v == 0 and rng.random() < .2 else v for v in b['y']], c=b['c'],
                          x0=rng.choice([0., -3., 100.]), dx=rng.choice([1., .25, 10.]), off=rng.choice([0., -2.]), sc=rng.choice([1., .5]),
                          max=rng.choice([10, 10, 1, 2, 3])))
    return [dict(kind='table', calls=calls[j:j + 20]) for j in range(0, len(calls), 20)]


def hp_tables(rng, n):
    calls = []
    for _ in range(n):
        if rng.random() < .4:
            z = [[2 * rng.randrange(0, 8) for _ in range(rng.randrange(2, 7))]]
            for _ in range(rng.randrange(1, 5)):
                z.append([2 * rng.randrange(0, 8) for _ in z[0]])
            calls.append(dict(k='quad', z=z, c=rng.randrange(-1, 15)))
        else:
            z = [2 * rng.randrange(0, 8) for _ in range(rng.randrange(2, 30))]
            if rng.random() < .5:
                calls.append(dict(k='quad', z=z, c=rng.randrange(-1, 15)))
            else:
                calls.append(dict(k='cross', z=z, c=rng.randrange(0, 15), x0=0., dx=1., off=0., sc=1., max=rng.choice([10, 10, 3, 5])))
    return [dict(kind='table', calls=calls[j:j + 20]) for j in range(0, len(calls), 20)]


def hp_axis(rng, n):
    log = rng.random() < .35
    lo, hi = rng.choice(LBASES[:-1] if log else BASES)
    return dict(lo=lo, hi=hi, n=n, log=log, alias=rng.random() < .3)


def hp_prog(rng, y=None, two=False):
    zero = bool(y) or rng.random() < .4
    if two:
        nx, ny = rng.randrange(2, 8), rng.randrange(2, 8)
        ax = [hp_axis(rng, nx), hp_axis(rng, ny)]
        if zero:
            tab = [[rng.choice([0, 0, 1, 1, 2, 5]) for _ in range(ny)] for _ in range(nx)]
            tab[rng.randrange(nx)][rng.randrange(ny)] = 7
        else:
            cx, cy, s = rng.uniform(0, nx), rng.uniform(0, ny), rng.uniform(.5, 4)
            tab = [[-.5 * ((i - cx) ** 2 + (j - cy) ** 2) / s ** 2 for j in range(ny)] for i in range(nx)]
    else:
        n = len(y) if y else rng.choice([2, 3, 4, 6, 9, 15, 30])
        ax = [hp_axis(rng, n)]
        if y:
            tab = y
        elif zero:
            top = rng.choice([1, 3, 6, 1000])
            tab = [rng.randrange(0, top + 1) for _ in range(n)]
            tab[rng.randrange(n)] = top
        else:
            k = rng.randrange(3)
            if k == 0:
                c, s = rng.uniform(-2, n + 2), rng.uniform(.4, 10)
                tab = [-.5 * ((j - c) / s) ** 2 for j in range(n)]
            elif k == 1:
                amp = rng.choice([.01, .3, 3., 30.])
                tab = [amp * rng.random() for _ in range(n)]
            else:
                b = rng.choice([-2., -.1, .05, 1.])
                tab = [b * j for j in range(n)]
    lv = []
    for _ in range(rng.randrange(2, 6)):
        lv.append(dict(p=rng.choice([.02, .1, .3, .5, .683, .8, .9, .954, .99, .998, rng.uniform(.03, .99)]),
                       tol=rng.choice([None, None, None, 1e-6, 1e-3]), sig=rng.random() < .2))
    return dict(kind='two' if two else 'one', ax=ax, tab=tab, zero=zero, off=rng.choice([0., 0., 3., -40., 500.]), shift=rng.choice([1., -7.5, 300.]),
                who=rng.choice(['arr', 'fun']), levels=lv, lrs=[rng.choice([0., -.1, -.7, -3., -20., .5]) for _ in range(4)])


def hp_corrupt(rng, tr):
    c = [e for e in tr['ev'] if e['op'] in ('quad', 'cross') or (e['op'] == 'level' and e['r'] == 'ok')]
    if not c:
        return None
    e = rng.choice(c)
    if e['op'] == 'quad':
        e['got'] += 200 + e['got'] // 10
    elif e['op'] == 'cross':
        if e['x'] and rng.random() < .5:
            rng.choice(e['x'])
            e['x'][0] += 40
        elif e['ok']:
            e['x'].append(5)
        else:
            return None
    else:
        k = rng.randrange(3)
        if k == 0:
            e['p'] = (e['phi'] + 1000)
        elif k == 1:
            e['hist'] += 1
        else:
            if 'b' not in e or not e['b']:
                e['level'] = False
            else:
                del e['b'][-1]
    return tr
