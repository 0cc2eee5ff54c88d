"""Class-definition programs for the discovery check."""
METHODS = ['ChisqrInference', 'MaxLikeInference', 'BayesianInference']
POOL = ['a', 'ab', 'abc', 'b', 'ba', 'a_b', 'p', 'q', 'pq', 'A', 'sigma', 'param', 'x', '_u', 'X', 'B', 'AB', 'Sigma', 'P', 'Q', 'aB']
DP = ['d', 'd1', 'data', 'e', 'ab_d', 'dd', 'D', 'Data', 'E', 'dD']


def decorate(rng, d):
    d = dict(d)
    d['v'] = rng.choice([-10, -1, 0, 1, 3, 5, 20]) if d['kd'] == 'par' else 0
    d['doc'] = rng.choice(['doc of ' + d['n'], 'a = 1, the (first)', 'Undocumented real parameter.', '']) if d['kd'] == 'par' else ''
    return d


def from_behaviour(rng, cs):
    cl = []
    for c in cs:
        c = dict(c)
        c['own'] = [decorate(rng, d) for d in c['own']]
        cl.append(c)
    return {'classes': cl, 'style': rng.randrange(20), 'method': rng.choice(METHODS), 'file': int(rng.random() < .1)}


def rand(rng, n):
    cl = []
    def names(k):
        s = []
        while k:
            s += [d['n'] for d in cl[k - 1]['own']]
            k = cl[k - 1]['base']
        return s
    def kinds(k, kd):
        s = []
        while k:
            s += [d['n'] for d in cl[k - 1]['own'] if d['kd'] == kd]
            k = cl[k - 1]['base']
        return s
    def npr(k):
        t = 0
        while k:
            t += sum(d['kd'] == 'prd' for d in cl[k - 1]['own'])
            k = cl[k - 1]['base']
        return t
    while len(cl) < n:
        idx = lambda kd: [j + 1 for j, c in enumerate(cl) if c['kind'] in kd]
        kd = rng.choice(['sig', 'pred', 'inf', 'inf', 'isub'])
        if kd == 'inf':
            ps = [j for j in idx(('pred',)) if npr(j)]
            if not idx(('sig',)) or not ps:
                continue
            cl.append(dict(kind='inf', base=0, own=[], sig=rng.choice(idx(('sig',))), pred=rng.choice(ps)))
        elif kd == 'isub':
            b = idx(('inf', 'isub'))
            if not b:
                continue
            cl.append(dict(kind='isub', base=rng.choice(b), own=[], sig=0, pred=0))
        else:
            b = rng.choice([0] + idx((kd,)))
            again = rng.random() < .4        # inherited names may be declared again
            free = [x for x in POOL if x not in names(b) or again and x in kinds(b, 'par')]
            rng.shuffle(free)
            if again:
                free.sort(key=lambda x: x not in names(b) or rng.random() < .5)
            own = [dict(n=x, kd='par') for x in free[:rng.randrange(0, 6 if kd == 'sig' else 3)]]
            own += [dict(n='z%d_%d' % (len(cl), j), kd='oth') for j in range(rng.randrange(0, 3))]
            if kd == 'pred':
                fd = [x for x in DP if x not in names(b) or again and x in kinds(b, 'prd')]
                rng.shuffle(fd)
                if again:
                    fd.sort(key=lambda x: x not in names(b) or rng.random() < .5)
                own += [dict(n=x, kd='prd') for x in fd[:rng.randrange(0, 4)]]
            rng.shuffle(own)
            cl.append(dict(kind=kd, base=b, mix=rng.choice([0, 0, 1, 2]), own=[decorate(rng, d) for d in own], sig=0, pred=0))
    return {'classes': cl, 'style': rng.randrange(20), 'method': rng.choice(METHODS), 'file': int(rng.random() < .2)}


def corrupt(rng, tr):
    c = [(e, r) for e in tr['ev'] if 'rep' in e for r in e['rep'] + e['old'] if r['ok']]
    if not c:
        return None
    e, r = rng.choice(c)
    k = rng.randrange(6)
    if k == 0 and len(r['params']) > 1:
        r['params'].reverse(); r['fx'].reverse(); r['defs'].reverse(); r['docs'].reverse()
    elif k == 1 and r['params']:
        for f in ('params', 'fx', 'defs', 'docs'):
            r[f].pop()
    elif k == 2 and r['params']:
        r['defs'][rng.randrange(len(r['defs']))] += 1
    elif k == 3:
        r['preds'].append(r['preds'][0])
    elif k == 4:
        r['scored'].pop()
    elif k == 5 and r['params']:
        r['docs'][0] += '!'
    else:
        r['ok'] = False
    return tr
