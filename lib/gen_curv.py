"""Programs for the curvature driver."""


def ll(rng, n, k):
    B = [[rng.uniform(-1, 1) for _ in range(n)] for _ in range(n)]
    s = [rng.choice([1., 1., .1, 30.]) for _ in range(n)]
    A = [[s[i] * s[j] * (sum(B[i][q] * B[j][q] for q in range(n)) + (.5 if i == j else 0.)) for j in range(n)] for i in range(n)]
    return dict(k=k, c=[rng.choice([0., 1., rng.uniform(-5, 5)]) for _ in range(n)], A=A, B=[rng.choice([0., .1, 1.]) * A[j][j] ** 2 for j in range(n)], m=rng.choice([0., -3.5, 100., -1000.]))


def script(rng, b):
    return dict(kind='steps', f=dict(m=rng.choice([0., 5., -20.])), mode=[rng.uniform(-3, 3), rng.uniform(-3, 3)], g=[rng.uniform(.1, 2), rng.uniform(.1, 2)], script=b['h'], dll=rng.choice([1., .5, 8.]),
                maxit=1, tol=None, maxll=rng.choice([True, False]), rep=rng.choice(['array', 'array', 'list', 'strided']), boom=None,
                expect={'ok': 'ok', 'fail': 'fail', 'notmax': 'any', 'raised': 'any'}[b['res']])


def steps(rng):
    n = rng.choice([1, 2, 3, 4])
    k = rng.choice(['quad', 'quad', 'quart', 'skew', 'abs', 'asym', 'flat', 'off'])
    f = ll(rng, n, 'quad' if k == 'off' else k)
    mode = list(f['c'])
    dll = rng.choice([None, .5, 2., 20.])
    g = [(1 / f['A'][j][j]) ** .5 * rng.choice([1., .3, 5., 1e-3, 50., 1e-9]) for j in range(n)]
    expect = {'quad': 'ok', 'flat': 'fail' if n else 'any'}.get(k, 'any')
    if k == 'off':
        j = rng.randrange(n)
        mode[j] += rng.choice([-1, 1]) * (1 / f['A'][j][j]) ** .5 * rng.choice([.5, 3.])
        expect = 'any'
    boom = rng.choice([None, None, None, 1, 2, 3, 5])
    return dict(kind='steps', f=f, mode=mode, g=g, dll=dll, maxit=rng.choice([None, None, 40, 3]) if k != 'quad' else rng.choice([None, 40]), tol=rng.choice([None, 1e-3, .1, 1e-6]), maxll=rng.choice([True, False]),
                rep=rng.choice(['array', 'array', 'list', 'strided']), boom=boom, expect=expect)


def info(rng):
    n = rng.choice([1, 2, 3, 4])
    k = rng.choice(['quad', 'quad', 'quart', 'cub', 'skew'])
    niter = rng.choice([None, 0, 1, 2, 3, 4])
    f = ll(rng, n, k)
    exact = k == 'quad' or (k in ('quart', 'cub') and niter != 0)
    g = [(1 / f['A'][j][j]) ** .5 * rng.choice([1., .3, 2., .05]) for j in range(n)]
    if k == 'skew':
        g = [min(1., z) * .2 for z in g]
    return dict(kind='info', f=f, mode=list(f['c']), g=g, niter=niter, exact=exact, maxll=rng.choice([True, False]), rep=rng.choice(['array', 'array', 'list', 'strided']), boom=rng.choice([None, None, None, 1, 2, 4, 7]), expect='any')


def corrupt(rng, tr):
    e = [e for e in tr['ev'] if e['op'] == 'end'][0]
    if e['r'] != 'ok':
        if e['r'] == 'Boom':
            e['r'] = 'ok'
        else:
            e['r'] = 'KeyError'
        return tr
    k = rng.randrange(2)
    if k == 0 and tr['cfg']['kind'] == 'steps' and not tr['cfg']['script']:
        e['d'][0] = 2000
    elif tr['cfg']['kind'] == 'info':
        e['sym'] = False
    else:
        tr['ev'][-1]['ok'] = False
    return tr
