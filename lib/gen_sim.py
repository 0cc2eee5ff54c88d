"""Programs of simulations."""


def X(rng, dim):
    return [rng.choice([-8, -4, -2, 0, 0, 1, 4, 6, 12]) for _ in range(dim)]


def config(rng):
    dim = rng.choice([1, 1, 2])
    data = [[dict(x=X(rng, dim), y=rng.randrange(-20, 21), s=rng.choice([2, 6, 10, 14])) for _ in range(rng.randrange(1, 5))]
            for _ in range(rng.choice([1, 2]))]
    return dict(dim=dim, vec=rng.randrange(2), nobj=rng.choice([1, 2, 3]), data=data,
                form=rng.choice(['three', 'table', 'list']), method=rng.choice(['chisqr', 'maxlike']))


def program(rng, n):
    cfg = config(rng)
    dim = cfg['dim']
    size = {}
    ops = []
    for _ in range(n):
        o, p = rng.randrange(cfg['nobj']) + 1, rng.randrange(len(cfg['data'])) + 1
        m = size.setdefault((o, p), len(cfg['data'][p - 1]))
        k = rng.choice(['sim', 'sim', 'sim1', 'sim1', 'add', 'param', 'sim', 'sim1', 'add', 'param', 'decl', 'poke'])
        d = dict(op=k, o=o, p=p, form=rng.choice(['array', 'array', 'list', 'tuple', 'int']))
        if k == 'param':
            d.update(n=rng.choice('abc'), v=rng.randrange(-3, 4))
        elif k == 'decl':
            L = [rng.randrange(1, 4)] * 3
            if rng.random() < .6:
                L[rng.randrange(3)] = rng.randrange(1, 4)
            d.update(lens=L, rank=rng.choice([1, 1, 1, 2, 3]))
        elif k == 'sim':
            L = m if rng.random() < .6 else rng.randrange(1, 7)
            if rng.random() < .5: d['xs'] = [X(rng, dim) for _ in range(L)]
            if rng.random() < .5: d['ss'] = [rng.choice([0, 3, 7, 11]) for _ in range(L if rng.random() < .8 else rng.randrange(1, 7))]
            n1 = len(d.get('xs', [0] * m)); n2 = len(d.get('ss', [0] * m))
            if n1 == n2: size[(o, p)] = n1
        elif k == 'sim1':
            d['k'] = rng.randrange(m) + 1
            if rng.random() < .5: d['xs'] = [X(rng, dim)]
            if rng.random() < .5: d['ss'] = [rng.choice([0, 3, 7, 11])]
        elif k == 'poke':
            pass
        else:
            L = rng.randrange(1, 4)
            d['xs'] = [X(rng, dim) for _ in range(L)]
            d['ss'] = [rng.choice([0, 3, 7, 11]) for _ in range(L if rng.random() < .85 else L + 1)]
            d['one'] = rng.randrange(2)
            if rng.random() < .1:
                d[rng.choice(['xs', 'ss'])] = []
            if len(d['xs']) == len(d['ss']): size[(o, p)] = m + L
        ops.append(d)
    return dict(cfg=cfg, ops=ops, seed=rng.randrange(1 << 30))


ARR = {4: [[0], [12]], 5: [[16]], 6: [3, 7], 7: [11]}


def from_behaviour(rng, b):
    dim = rng.choice([1, 2])
    cfg = dict(dim=dim, vec=rng.randrange(2), nobj=2, form=rng.choice(['three', 'table', 'list']), method='chisqr',
               data=[[dict(x=[4] * dim, y=3, s=6), dict(x=[8] + [0] * (dim - 1), y=-5, s=2)]])
    ops = []
    for h in b:
        a = h['a']
        d = dict(op=a['op'], o=h['o'], p=1, k=a['k'], form=rng.choice(['array', 'array', 'list']), one=rng.randrange(2))
        if a['x']: d['xs'] = [x * dim for x in ARR[a['x']]]
        if a['s']: d['ss'] = ARR[a['s']]
        ops.append(d)
    return dict(cfg=cfg, ops=ops, seed=rng.randrange(1 << 30))


def summary(traces):
    n = sq = 0
    for t in traces:
        for e in t['ev']:
            if e.get('op') == 'sim' and e['r'] == 'ok':
                for x in e['obs'][e['o'] - 1][e['p'] - 1]['d']:
                    n += 1
                    sq += (min(abs(x['z']), 7000) / 1000.) ** 2
    return dict(id=len(traces), cfg={'nobj': 0, 'orig': []}, ev=[dict(op='summary', n=min(n, 50000), sumsq=int(1000 * sq * min(n, 50000) / max(1, n)))])


def corrupt(rng, tr):
    e = rng.choice(tr['ev'])
    if e['op'] == 'summary' or 'crash' in e:
        return None
    k = rng.randrange(5)
    d = rng.choice(rng.choice(e['obs']))
    if not d['d']:
        return None
    if k == 0:
        d['d'][0]['x'][0] += 1
    elif k == 1:
        d['len'][3] += 1
    elif k == 2:
        e['chg'] = 1
    elif k == 3:
        rng.choice(rng.choice([e['fresh']]))['d'][0]['v'][2] += 1
    else:
        e['r'] = 'err' if e['r'] == 'ok' else 'ok'
    if k in (0, 1):
        pass
    return tr
