"""Programs that score inferences."""
EXC = ['Boom', 'ValueError', 'TypeError', 'IndexError', 'KeyError', 'AttributeError', 'ZeroDivisionError', 'FloatingPointError', 'RuntimeError',
       'AssertionError']
FORMS = ['assign', 'fix', 'vary', 'value', 'step', 'last']


def datum(rng, dim):
    return dict(x=[rng.randrange(-4, 5) for _ in range(dim)], v=rng.choice([0, rng.randrange(-40, 41)]), z=rng.choice([1, 2, 4]))


def config(rng, meth=None, data=None, q=None):
    dim = 1 if data else rng.choice([1, 1, 2])
    data = data or [[datum(rng, dim) for _ in range(rng.choice([1, 1, 2, 3, 7]))] for _ in range(rng.choice([1, 2, 2, 3]))]
    q = q or [rng.randrange(-6, 7) for _ in range(rng.choice([2, 3]))]
    return dict(dim=dim, data=data, q=q, sig=rng.choice(['signal', 'signals', 'both']), derived=rng.random() < .3, k0=rng.choice([0, 64, -33]),
                form=rng.choice(['arrays', 'rows']), inh=rng.randrange(1, len(data) + 1),
                meth=meth or [rng.choice(['chisqr', 'maxlike', 'bayes']) for _ in range(rng.choice([1, 2, 2, 3]))])


def ask(rng, o, npred, w=None, p=None):
    a = dict(op='ask', o=o, w=w or rng.choice(['score', 'score', 'logp', 'chisqr', 'loglike']), p=p or rng.randrange(1, npred + 1))
    if rng.random() < .08:
        a['bad'] = rng.choice(['signal', 'signals', 'both'])
        a['exc'] = rng.choice(EXC)
    return a


def from_behaviour(rng, b):
    data = [[dict(x=[1], v=2, z=1), dict(x=[2], v=5, z=2)], [dict(x=[0], v=1, z=1)]]
    n = max(x['o'] for x in b)
    cfg = config(rng, ['chisqr', 'maxlike', 'bayes'][:n], data, [0, 1])
    cur = [[[dict(d) for d in ds] for ds in data] for _ in range(n)]
    ops = []
    for x in b:
        o, p = x['o'], x['p']
        if x['op'] == 'set':
            ops.append(dict(op='set', o=o, p=p, v=x['v'], form=rng.choice(FORMS)))
        elif x['op'] == 'ask':
            ops.append(ask(rng, o, 2, 'score') if p == 0 else ask(rng, o, 2, rng.choice(['chisqr', 'loglike']), p))
        else:
            d = cur[o - 1][p - 1]
            if x['op'] == 'grow':
                d.append(dict(x=[3], v=4, z=1))
            elif x['f'] == 'x':
                d[0]['x'] = [d[0]['x'][0] + 1]
            elif x['f'] == 'v':
                d[0]['v'] += 3
            else:
                d[0]['z'] = 3 - d[0]['z']
            ops.append(dict(op='data', o=o, p=p, d=[dict(t) for t in d], form=rng.choice(['sim', 'direct'])))
    ops += [ask(rng, o, 2, 'score') for o in range(1, n + 1)]
    return dict(cfg=cfg, ops=ops)


def program(rng, n):
    cfg = config(rng)
    no, npred, ops = len(cfg['meth']), len(cfg['data']), []
    for _ in range(n):
        o = rng.randrange(1, no + 1)
        z = rng.random()
        if z < .5:
            ops.append(ask(rng, o, npred))
        elif z < .75:
            ops.append(dict(op='set', o=o, p=rng.randrange(1, len(cfg['q']) + 1), v=rng.randrange(-12, 13), form=rng.choice(FORMS)))
        else:
            p = rng.randrange(1, npred + 1)
            m = rng.choice([len(cfg['data'][p - 1])] * 2 + [1, 2, 5])
            ops.append(dict(op='data', o=o, p=p, d=[datum(rng, cfg['dim']) for _ in range(m)], form=rng.choice(['sim', 'direct'])))
    ops += [ask(rng, o, npred, 'score') for o in range(1, no + 1)]
    return dict(cfg=cfg, ops=ops)


def corrupt(rng, tr):
    c = [e for e in tr['ev'] if e['op'] == 'ask' and e['r'] == 'ok']
    if not c:
        return None
    e = rng.choice(c)
    if rng.random() < .5:
        e['n'] += rng.choice([1, -1])
    else:
        e['q'][0][0] += 1
    return tr
