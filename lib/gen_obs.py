"""Programs for the observed information check."""
from gen_fit import NAMES, config, small


def program(rng):
    npar = rng.choice([1, 2, 2, 3, 3, 4])
    cfg = config(rng, npar)
    cfg['method'] = 'bayes'
    names = cfg['names']
    ops = []
    for n in names:
        w = small(npar, names.index(n))
        ops.append(dict(op='fix', p=n, v=8 * rng.randrange(-w // 8, w // 8 + 1)))

    def vary(n):
        w = small(npar, names.index(n))
        a, b = rng.choice([(-320000, 320000)] * 4 + [(-32, 32), (-320, 320)])
        v = max(a, min(b, 8 * rng.randrange(-w // 8, w // 8 + 1)))
        return dict(op='vary', p=n, v=v, d=rng.choice([1, 4, 8, 16, 32]), a=a, b=b)
    ns = names[:]
    rng.shuffle(ns)
    for n in ns[:rng.randrange(1, npar + 1)]:
        ops.append(vary(n))
    for k in range(rng.choice([1, 1, 2, 3])):
        for j in range(rng.randrange(0, 3)):
            x = rng.random()
            n = rng.choice(names)
            w = small(npar, names.index(n))
            if x < .3:
                ops.append(vary(n))
            elif x < .5:
                ops.append(dict(op='fix', p=n, v=8 * rng.randrange(-w // 8, w // 8 + 1)))
            elif x < .65:
                ops.append(dict(op='step', p=n, a=-8, b=8, n=rng.choice([2, 3])))
            elif x < .8:
                ops.append(dict(op='oscore', v=8 * rng.randrange(-4, 5)))
            else:
                ops.append(dict(op='next'))
        h = rng.random()
        away = dict(op='away', v=[8 * rng.randrange(-8, 9) for _ in range(4)])
        if h < .3:
            ops += [dict(op='mode'), dict(op='score')]
        elif h < .45:
            ops += [dict(op='fit'), dict(op='mode')]
        elif h < .6:
            ops += [dict(op='fit')]
        elif h < .75:
            ops += [away, dict(op='score'), dict(op='mode')]
        elif h < .9:
            ops += [dict(op='mode'), dict(op='snap'), away, dict(op='score'), dict(op='back')]
        else:
            ops += [away, dict(op='score')]
        o = dict(op='obs', steps=[rng.choice([4, 8, 16]) for _ in range(4)] if rng.random() < .35 else None, arr=rng.random() < .5,
                 dl=rng.choice([None, None, .5, 2.]), n=rng.choice([None, None, 0, 1, 2, 4]), err=rng.random() < .4)
        ops.append(o)
        if rng.random() < .5:
            ops.append(dict(o))
    return dict(cfg=cfg, ops=ops)


def corrupt(rng, tr):
    c = [e for e in tr['ev'] if e.get('r') == 'ok' and e['atmode']]
    if not c:
        return None
    e = rng.choice(c)
    k = rng.randrange(5)
    j = rng.randrange(e['n'])
    if k == 0:
        e['I4'][j][0] += 1
    elif k == 1:
        e['dev'][j][j] = 50000
    elif k == 2:
        p = e['a']['p'][rng.randrange(len(e['a']['p']))]
        p['v']['k'][2] = (p['v']['k'][2] + 12345) % 2097152
    elif k == 3:
        e['kept'] = False
    else:
        e['shape'] = [e['n'] + 1, e['n']]
    return tr
