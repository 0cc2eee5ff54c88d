"""Programs for the numerical utilities."""
import math


# ----------------------------------------------------------------- steppers
def st_gen(rng, n=None):
    k = rng.choice(['lin', 'log', 'linenum', 'logenum'])
    if k.startswith('lin'):
        lo, hi = rng.choice([(0., 1.), (0, 10), (-3., 7.5), (1e5, 1e5 + 1), (.1, .7), (-1e-9, 1e-9), (5, 6), (-7000, 12345), (3, 10 ** 12), (1, 2 ** 52 + 1), (rng.uniform(-9, 9), rng.uniform(-9, 9))])
    else:
        lo, hi = rng.choice([(1., 10.), (1, 1000), (1e-6, 1e6), (.3, .31), (2., 2e200), (10 ** rng.uniform(-3, 3), 10 ** rng.uniform(-3, 3))])
    if rng.random() < .4:
        lo, hi = hi, lo
    return dict(k=k, lo=lo, hi=hi, n=n or rng.choice([2, 3, 4, 5, 7, 11, 50, 333]))


def st_behaviour(rng, b):
    return dict(p='step', g=[st_gen(rng, n) for n in b['n']], s=b['s'])


def st_random(rng):
    g = [st_gen(rng) for _ in range(rng.randrange(1, 4))]
    s = [j + 1 for j, x in enumerate(g) for _ in range(x['n'] + rng.choice([0, 1, 2]))]
    if rng.random() < .7:
        rng.shuffle(s)
    return dict(p='step', g=g, s=s)


def st_corrupt(rng, tr):
    c = [e for e in tr['ev'] if e['r'] == 'ok']
    if not c:
        return None
    e = rng.choice(c)
    k = rng.randrange(3)
    if k == 0:
        e['r'] = 'end'
    elif k == 1:
        e['d'] = 5000
    else:
        tr['ev'].append({'g': e['g'], 'v': e['v'], 'd': 0, 'j': e['j'], 'r': 'ok'})
    return tr


# ----------------------------------------------------------------- log summer
def ls_behaviour(rng, h):
    sig = rng.random() < .6
    return dict(p='sum', exact=True, sig=sig, sigv=rng.choice([1, True]), off=rng.choice([0., 700., -1000., 3.3]), start=None if sig or rng.random() < .6 else [rng.randrange(1, 9), rng.randrange(1, 40)],
                ops=[['zero'] if e < 0 else ['add', 2 ** e, rng.choice(['iadd', 'add'])] for e in h])


def ls_rep(rng):
    """A large value and a great many values far below it, each of which still counts."""
    ops = [['add', 0., 'iadd'], ['rep', -rng.uniform(20, 34) / rng.choice([1, 1, 2]), rng.choice([10000, 20000])]]
    if rng.random() < .5:
        ops.append(['add', rng.choice([1., 3., 41., -39.]), 'add'])
    if rng.random() < .2:
        ops[0], ops[1] = ops[1], ops[0]
    return dict(p='sum', exact=False, sig=rng.random() < .6, sigv=1, off=0., start=None, ops=ops)


def ls_random(rng):
    if rng.random() < .06:
        return ls_rep(rng)
    exact = rng.random() < .5
    sig = rng.random() < .6
    ops = []
    if rng.random() < .3:
        ops.append(['status'])
    lim = rng.choice([1, 9, 30])
    spread = rng.choice([1., 30., 39., 41., 100., 700.])
    c = rng.choice([0., -500., 800., 1e4])
    for _ in range(rng.randrange(1, 16)):
        if rng.random() < .15:
            ops.append(['zero'])
        else:
            v = rng.randrange(1, lim + 1) if exact else c + (rng.uniform(-spread, spread) if rng.random() < .8 else rng.choice([0., spread]))
            ops.append(['add', v, rng.choice(['iadd', 'add'])])
    return dict(p='sum', exact=exact, sig=sig, sigv=rng.choice([1, True]), off=rng.choice([0., 700., -1000.]) if exact else 0.,
                start=None if sig or not exact or rng.random() < .5 else [rng.randrange(1, 9), rng.randrange(1, 40)], ops=ops)


def ls_corrupt(rng, tr):
    c = [e for e in tr['ev'] if e['st']['r'] == 'ok' and e['st']['d']]
    if not c:
        return None
    e = rng.choice(c)
    if rng.random() < .5:
        e['st']['n'] += 1
    elif tr['cfg']['exact']:
        e['st']['S'] += 1000
    else:
        e['st']['d'][0] = 2000
    return tr


# ----------------------------------------------------------------- zero bracketing
def zb_behaviour(rng, b):
    return dict(p='zb', kind='script', f=b['h'], sc=rng.choice([1., 1e-200, 1e150, .5]), lim=b['lim'], x=rng.choice([[0., 1.], [1., 0.], [-5., 3.], [10., 10.5]]),
                mode=rng.choice(['plain', 'plain', 'args']), expand=rng.choice([None, None, 1., .5, 3.]))


FS = ['x-7', '3-x', 'x*x-50', 'x**3+4*x+1000', 'math.exp(min(x,300))-1e9', 'x*x+1', 'math.atan(x-40)', '1.', 'math.sin(x)*.1+.2', 'x', '(x-2)*(x-3)', '0.']


def zb_random(rng):
    if rng.random() < .5:
        n = rng.randrange(2, 14)
        f = [rng.choice([-2, -1, 1, 2, 3, 5]) * (1 if rng.random() < .9 else 0) for _ in range(n)]
        s = rng.choice([1, -1])
        for j in range(len(f)):
            if rng.random() < .8:
                f[j] = s * abs(f[j])
        kind = 'script'
    else:
        kind, f = 'f', rng.choice(FS)
    return dict(p='zb', kind=kind, f=f, sc=rng.choice([1., 1., -1., 1e-250, 1e100]), lim=rng.choice([None, 0, 1, 2, 5, 12]), x=[rng.uniform(-9, 9), rng.uniform(-9, 9)],
                mode=rng.choice(['plain', 'vals', 'args']), expand=rng.choice([None, None, 1., .5, 3.]))


def zb_corrupt(rng, tr):
    e = [e for e in tr['ev'] if e['op'] == 'end'][0]
    if e['r'] == 'ok':
        if rng.random() < .5:
            e['r'] = 'RuntimeError'
        else:
            e['hi'] = tr['cfg']['lo']
    elif e['r'] == 'RuntimeError':
        e['r'] = 'ok'
        e['lo'], e['hi'] = tr['cfg']['lo'], tr['cfg']['hi']
    return tr


# ------------------------------------------------------------- minimisation
def _f1(rng, k=None):
    return dict(k=k or rng.choice(['abs', 'quad', 'p15', 'quart', 'well', 'dbl', 'wig', 'stair', 'lin', 'flat', 'const']), c=rng.choice([0., 1., rng.uniform(-20, 20), rng.uniform(-900, 900)]),
                s=rng.choice([1., 1e-6, 1e5, 3.]), a=rng.choice([1., 2., .3, 7.]), b=rng.choice([1., .25, 4.]),
                t=[rng.randrange(6) for _ in range(rng.randrange(2, 9))], h=rng.choice([1., .1, 10.]))


def mn_behaviour(rng, b):
    f = _f1(rng, rng.choice(['stair', 'lin']))
    f['t'] = b['f']
    x = [f['c'] + f['h'] * (q + .5 * (f['k'] == 'stair')) for q in b['x']]
    return dict(kind='one', f=f, x=x, np=rng.random() < .3, own=rng.random() < .3, tol=rng.choice([None, 1e-3, 1e-5]), lim=rng.sample([0, 1, 2, 3, 5, 8, 13, 30, 300], 2))


def mn_one(rng):
    f = _f1(rng)
    x = rng.choice([[0., 1.], [f['c'] - 1, f['c'] + 2.], [f['c'] + rng.uniform(-5, 5), f['c'] + rng.uniform(-5, 5)], [rng.uniform(-30, 30), rng.uniform(-30, 30)]])
    if f['k'] == 'well':
        x = [f['c'] + rng.uniform(-3, 3), f['c'] + rng.uniform(-3, 3)]
    if x[0] == x[1]:
        x[1] += 1.
    return dict(kind='one', f=f, x=x, np=rng.random() < .3, own=rng.random() < .3, tol=rng.choice([None, 1e-2, 1e-3, 1e-5, 1e-7]), lim=rng.sample([0, 1, 2, 3, 5, 8, 13, 20, 30, 300], 2))


def _fn(rng, n, k=None):
    k = k or rng.choice(['quad', 'quad', 'quad', 'l1', 'max', 'stair', 'rosen', 'cos', 'flat', 'const', 'some'])
    B = [[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)]
    A = [[sum(B[i][q] * B[j][q] for q in range(n)) + (1. if i == j else 0.) for j in range(n)] for i in range(n)]
    s = rng.choice([1., 1e-3, 1e3])
    return dict(k=k, c=[rng.choice([0., rng.uniform(-4, 4), rng.uniform(-50, 50)]) for _ in range(n)], A=[[s * z for z in r] for r in A], m=rng.choice([0., 1., -7.5, 100., 1e-3]))


def mn_multi(rng):
    n = rng.choice([1, 2, 2, 3, 4])
    f = _fn(rng, n)
    p = [rng.choice([0., 1., rng.uniform(-9, 9), q]) for q in f['c']]
    if rng.random() < .5:
        d = [rng.uniform(-1, 1) for _ in range(n)]
        return dict(kind='lin', f=f, p=p, d=d, tol=rng.choice([None, 1e-2, 1e-3, 1e-5]))
    if rng.random() < .4:
        D = None
    else:
        while 1:
            D = [[rng.choice([0, 0, 1, 1, 2, -1]) for _ in range(n)] for _ in range(n)]
            if abs(det(D)) > .9:
                break
    return dict(kind='pow', f=f, p=[float(int(q)) for q in p] if rng.random() < .2 else p, dt=rng.choice(['float', 'float']), D=D, dk=rng.choice(['array', 'array', 'list', 'int']),
                ftol=rng.choice([None, 1e-4, 1e-8]), lim=rng.sample([-1, -2, 1, 2, 3, 400], 2), nlog=rng.choice([None, None, 1]), shuffle=rng.random() < .3)


def det(M):
    if len(M) == 1:
        return M[0][0]
    return sum((-1) ** j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(len(M)))


def mn_corrupt(rng, tr):
    c = [e for e in tr['ev'] if e['op'] == 'min' and e['r'] == 'ok'] + [e for e in tr['ev'] if e['op'] == 'brk' and e['r'] == 'ok']
    if not c:
        return None
    e = rng.choice(c)
    if e['op'] == 'brk':
        if rng.random() < .5:
            e['x'][0], e['x'][1] = e['x'][1], e['x'][0]
        else:
            e['f'][1][2] ^= 1
    elif rng.random() < .5:
        e['f'][2] ^= 1
    else:
        e['x'] = [e['x'][0], e['x'][1], e['x'][2] ^ 1] if isinstance(e['x'][0], int) else [[z[0], z[1], z[2] ^ 1] for z in e['x']]
    return tr
