"""Programs for the file checks."""
KINDS = ['backup', 'opent', 'openb', 'openb2', 'openo', 'openk', 'arr', 'attr', 'rng']
NAMES = ['f', 'name.txt', '.hidden', 'a b', 'pct%', 'sub/f', 'sub/deep dir/data.dat', './rel', 'x.npz', 'x.pkl', 'über', '-dash', 'n%%']
STAGES = ['r1', 'r2', 'open', 'write', 'close']


def from_behaviour(rng, b):
    d = b[0]['d']
    d = d if isinstance(d, dict) else {}
    kind, name = rng.choice(KINDS[:6]), rng.choice(['f', 'sub/f', 'a b'])
    ops = []
    for h in b[1:]:
        if h['op'] == 'save':
            ops.append(dict(kind=kind, name=name, m='normal'))
        else:
            ops.append(dict(kind=kind, name=name, m=h['op'], frac=(STAGES.index(h['at']) + rng.random()) / 5))
    return dict(ops=ops, pre=[int(n in d) for n in ('f', 'f%', 'f%%')], seed=rng.randrange(1 << 20))


def enum(rng, kind, name, pre, mx):
    return dict(ops=[dict(kind=kind, name=name, m='enum', max=mx), dict(kind=kind, name=name, m='normal')], pre=pre, seed=rng.randrange(1 << 20))


def rand(rng, n):
    name = rng.choice(NAMES)
    fam = rng.choice([['rng', 'rng', 'rng0'], ['arr'], ['attr'], KINDS[:6], KINDS[:6], KINDS[:6]])
    ops = []
    for _ in range(n):
        r = rng.random()
        kind = rng.choice(fam)
        nm = name if rng.random() < .85 else rng.choice([name + '%', 'g', name])
        if ops and r < .12:
            ops.append(dict(kind=kind, name=nm, m='ext', which=rng.randrange(3), rm=int(rng.random() < .6)))
        elif r < .25:
            ops.append(dict(kind=kind, name=nm, m=rng.choice(['crash', 'fail']), frac=rng.random()))
        else:
            ops.append(dict(kind=kind, name=nm, m='normal'))
    return dict(ops=ops, pre=[rng.randrange(2) for _ in range(3)], seed=rng.randrange(1 << 20))


def corrupt(rng, tr):
    c = [e for e in tr['ev'] if e.get('op') == 'save' and e['pre']]
    if not c:
        return None
    e = rng.choice(c)
    q = [x for x in e['post'] if x[0] == 'other' or (x[0] == e['n'][1] and any(y[0] == e['n'][0] for y in e['pre']) and e['r'] == 'ok' and e['kind'] != 'rng0')]
    x = rng.choice(q)
    if rng.random() < .5:
        x[1] += 1000
    else:
        e['post'].remove(x)
    return tr


# ----------------------------------------------------------------- stores
SNAMES = ['a', 'b', 'file', 'files', 'data', 'arr_0', 'f', 'keys', 'items', 'x1', 'args', 'allow_pickle', 'zip', 'close', 'é', 'A', 'name', 'fname']


def st_behaviour(rng, b, kind):
    """A behaviour of StoresMC as a program; every object is inspected at the end."""
    ren = dict(zip('ab', rng.sample([n for n in SNAMES if n != 'file'], 2)))
    ops, v = [], 0
    pp = dict(zip('pq', rng.sample(['f', 'sub/g', 'h.dat', 'a b', 'a.pkl.1', 'a.npz.1', 'npz'], 2)))
    suf = '.npz' if kind == 'arr' else '.pkl'

    def path(x):
        return None if x == '' else pp[x] + (suf if rng.random() < .4 else '')
    for h in b:
        if h[0] == 'new':
            ops.append(dict(op='new', o=h[1], kw=[]))
        elif h[0] == 'file':
            v += 2
            ops.append(dict(op='file', o=0, p=pp['p'], kw=[[ren['a'], v - 1], [ren['b'], v]]))
        elif h[0] == 'open':
            ops.append(dict(op='open', o=h[1], p=path(h[2]), kw=[]))
        elif h[0] == 'set':
            v += 1
            ops.append(dict(op='set', o=h[1], n=ren[h[2]], v=v))
        elif h[0] == 'get':
            ops.append(dict(op='get', o=h[1], n=ren[h[2]]))
        else:
            ops.append(dict(op='save', o=h[1], p=path(h[2])))
    ops += st_tail(rng, kind, [1, 2], list(ren.values()), list(pp.values()))
    return dict(kind=kind, nv=40, ops=ops)


def st_tail(rng, kind, objs, names, paths):
    ops = [dict(op='all', o=o, ns=names) for o in objs]
    for p in paths:
        for q in (p,):
            ops.append(dict(op='open', o=9, p=q, kw=[]))
            ops.append(dict(op='all', o=9, ns=names))
    return ops


def st_random(rng, kind, n):
    names = rng.sample(SNAMES, rng.randrange(2, 6))
    suf = '.npz' if kind == 'arr' else '.pkl'
    paths = rng.sample(['f', 'sub/g', 'h.dat', 'a b', './k', 'sub/../m', 'f%s.old' % suf, 'x.npz.pkl.v2', '.hidden', 'F'], rng.randrange(1, 4))
    ops = []

    def path():
        return rng.choice(paths) + (suf if rng.random() < .4 else '')

    def kw():
        if kind == 'arr' or rng.random() < .6:
            return []
        return [[n, rng.randrange(1, 60)] for n in rng.sample(names, rng.randrange(1, 1 + len(names))) if n not in ('fname', 'self')]
    nobj = rng.randrange(1, 4)
    if rng.random() < .6:
        ops.append(dict(op='file', o=0, p=paths[0], kw=[[n, rng.randrange(1, 60)] for n in names if n != 'file']))
        ops.append(dict(op='open', o=1, p=paths[0], kw=[]))
    for _ in range(n):
        o = rng.randrange(1, 1 + nobj)
        x = rng.random()
        if x < .1:
            ops.append(dict(op='new', o=o, kw=kw(), none=rng.random() < .3))
        elif x < .25:
            ops.append(dict(op='open', o=o, p=path(), kw=kw()))
        elif x < .5:
            v = rng.randrange(1, 60)
            p = None
            if rng.random() < .12:
                v = -rng.randrange(1, 6) if kind == 'arr' else -10
                p = path()
            ops.append(dict(op='set', o=o, n=rng.choice(names), v=v, p=p))
        elif x < .58:
            ops.append(dict(op='get', o=o, n=rng.choice(names + ['absent'])))
        elif x < .68:
            ops.append(dict(op='mod', o=o, n=rng.choice(names), k=rng.randrange(1, 60)))
            if rng.random() < .5:
                ops.append(dict(op='get', o=o, n=ops[-1]['n']))
        elif x < .9:
            ops.append(dict(op='save', o=o, p=None if rng.random() < .45 else path()))
        elif x < .96:
            ops.append(dict(op='contents', o=o))
        else:
            ops.append(dict(op='drop', o=o))
    ops += st_tail(rng, kind, [1, 2, 3], names + ['absent'], paths)
    return dict(kind=kind, nv=60, ops=ops)


def st_corrupt(rng, tr):
    c = [e for e in tr['ev'] if e['files'] or e['op'] == 'all']
    if not c:
        return None
    e = rng.choice(c)
    if e['op'] == 'all':
        if not e['gs']:
            return None
        g = rng.choice(e['gs'])
        if g[1][0] == 'ok':
            g[1][1] += 1
        else:
            g[1][0] = 'ok'
        return tr
    f = rng.choice(e['files'])
    if f[1] and rng.random() < .6:
        x = rng.choice(f[1])
        x[1] += 1
    elif rng.random() < .5:
        f[1].append(['extra', 3])
    else:
        e['files'].remove(f)
    return tr


# ----------------------------------------------------------------- random state
DRAWS = ['normal', 'normal', 'uniform', 'int', 'poisson', 'gamma', 'perm']


def _draw(rng, n=None):
    return dict(op='draw', kind=rng.choice(DRAWS), n=n or rng.choice([1, 1, 2, 3, 5, 623, 624, 700]))


def rng_behaviour(rng, b):
    base = rng.choice(['state', '.numpy-rng-state', 'a b', 'x.1'])
    ops = [_draw(rng)] if rng.random() < .7 else []
    for h in b:
        if h['op'] == 'draw':
            ops.append(dict(op='draw', kind='normal' if rng.random() < .6 else rng.choice(DRAWS), n=h['n']))
        else:
            p = h['p'].replace('s', base) if h['p'] != 'r' else 'r'
            d = p == '.numpy-rng-state' and rng.random() < .5
            ops.append(dict(op=h['op'], p=p, dflt=d, notify=rng.choice([None, True, False])))
    return dict(seed=rng.randrange(1 << 31), ops=ops)


def rng_random(rng, n):
    base = rng.choice(['state', '.numpy-rng-state', 'x.1'])
    ops = []
    for _ in range(n):
        x = rng.random()
        p = base if rng.random() < .8 else rng.choice(['other', base + '.1'])
        d = p == '.numpy-rng-state' and rng.random() < .5
        if x < .4:
            ops.append(_draw(rng))
        elif x < .65:
            ops.append(dict(op='save', p=p, dflt=d))
        elif x < .9:
            ops.append(dict(op='restore', p=p + ('' if d else rng.choice(['', '', '.1', '.2', '.3'])), dflt=d, notify=rng.choice([None, True, False])))
        elif x < .95:
            ops.append(dict(op='seed', n=rng.randrange(1000)))
        else:
            ops.append(dict(op='ext', p=base + rng.choice(['', '.1', '.2']), q='copy', rm=int(rng.random() < .5)))
    return dict(seed=rng.randrange(1 << 31), ops=ops)


def rng_corrupt(rng, tr):
    c = [e for e in tr['ev'] if e['op'] in ('save', 'restore')]
    if not c:
        return None
    e = rng.choice(c)
    if rng.random() < .5:
        e['post'] += 100000
    else:
        rng.choice(e['files'])[1] += 100000
    return tr
