"""Programs over populations of values."""


def ops_for(rng, mem, norm, k):
    vs = sorted(m[0] for m in mem)
    out = []
    for _ in range(k):
        if norm and rng.random() < .75:
            s = rng.choice([vs[0], vs[0] - 1, vs[0] - 5, vs[0] + 1, vs[-1] + 3])
            t = rng.choice([vs[-1], vs[-1] + 1, vs[-1] + 7, vs[-1] - 1])
            out.append(dict(op=rng.choice(['pts', 'pts', 'plot']), nostart=rng.random() < .3, noend=rng.random() < .3, start=s, end=t))
        else:
            ws = [m[1] for m in mem]
            if min(ws) < 1 or len(ws) < 2:          # the samplers need positive weights
                continue
            how = rng.choice(['sample', 'pps', 'pps5'])
            big = (sum(ws) - 1) // max(ws)              # off the border of the scheme
            if how == 'sample':
                n = rng.choice([1, 2, 5, 20])
            else:
                n = rng.choice([1, min(big, 1 + len(ws) // 3, 5), len(ws)])
                if n < 1 or (n > big and n != len(ws)):
                    continue
            out.append(dict(op='draw', how=how, n=n, distinct=how != 'sample', seed=rng.randrange(10 ** 6)))
    return out


def dress(rng, mem, ops, tot, haserr):
    hows = ['array', 'list', 'view', 'tuple', 'ints']
    return dict(cfg=dict(mem=mem, tot=tot, haserr=haserr), ops=ops, vu=rng.choice([1., .5, .125, 4.]), wu=1. / tot if tot else rng.choice([1., .25]),
                how=[rng.choice(hows) for _ in range(3)], mess=rng.random() < .4)


def dyadic(ws):
    """Bring the total to a power of two."""
    t = 1
    while t < max(1, sum(ws)):
        t *= 2
    return t


def normal(rng, mem):
    t = dyadic([m[1] for m in mem])
    mem[rng.randrange(len(mem))][1] += t - sum(m[1] for m in mem)
    return t


def errs(rng, mem):
    if rng.random() < .5:
        for m in mem:
            m[2] = rng.randrange(0, 40)
        return True
    return False


def from_behaviour(rng, b):
    mem = [[m[0], m[1], 0] for m in b['mem']]
    t = normal(rng, mem)
    h = errs(rng, mem)
    o = dict(op=rng.choice(['pts', 'pts', 'plot']), nostart=False, noend=False, start=b['rg'][0], end=b['rg'][1])
    return dress(rng, mem, [o], t, h)


def program(rng):
    n = rng.choice([1, 2, 3, 4, 6, 10, 25])
    m = rng.choice([3, 10, 200])
    mem = [[rng.randrange(-m, m), rng.choice([1, 1, 2, 3, 7, rng.randrange(0, 12)]), 0] for _ in range(n)]
    if rng.random() < .15:
        for z in mem:
            z[1] = 1
    k = rng.random()
    if k < .2:
        mem.sort()
    elif k < .35:
        mem.sort(reverse=True)
    t = normal(rng, mem) if rng.random() < .75 else 0
    h = errs(rng, mem)
    return dress(rng, mem, ops_for(rng, mem, bool(t), rng.randrange(1, 6)), t, h)


def corrupt(rng, tr):
    c = [(e, f) for e in tr['ev'] if e.get('r') == 'ok' for f in ('cdf', 'haz', 'x', 'y', 'ee', 'ex2') if e.get(f)]
    if not c:
        return None
    e, f = rng.choice(c)
    e[f][rng.randrange(len(e[f]))] += 1
    return tr
