"""Programs for the evaluation (fit / grid) checks."""
NAMES = ['a', 'b', 'c', 'd']


def config(rng, npar):
    xs = [-2, -1, 0, 1, 2, 3] if npar <= 3 else [-2, -1, 0, 1, 2]
    data = []
    for j in range(rng.choice([1, 1, 2, 3])):
        ds = []
        pool = xs[:]
        rng.shuffle(pool)
        for k in range(rng.randrange(2, 6)):
            ds.append(dict(x=pool[k % len(pool)], y=8 * rng.randrange(-24, 25), z=rng.choice([1, 2, 2, 4])))
        data.append(ds)
    allx = set(d['x'] for ds in data for d in ds)
    while len(allx) < npar:
        x = rng.choice(xs)
        allx.add(x)
        data[0].append(dict(x=x, y=8 * rng.randrange(-24, 25), z=2))
    return dict(names=NAMES[:npar], data=data, method=rng.choice(['chisqr', 'maxlike', 'bayes']), vec=rng.randrange(2), k0=rng.choice([0, 0, 0, 40, 400]))


def small(npar, k):
    """Half-width (1/32) of sensible values for coefficient k."""
    return [160, 96, 48, 16][k]


def program(rng, grid_only=False, fit_only=False, nev=3):
    npar = rng.choice([1, 2, 2, 3, 3, 4])
    cfg = config(rng, npar)
    names = cfg['names']
    ops = []
    st = {n: 'fixed' for n in names}
    grid, box, rg, wide = {}, {}, {}, {}
    mp = False
    for n in names:
        ops.append(dict(op='fix', p=n, v=8 * rng.randrange(-small(npar, names.index(n)) // 8, small(npar, names.index(n)) // 8 + 1)))
    for ev in range(nev):
        while True:
            want = {}
            for n in names:
                want[n] = rng.choice(['fixed', 'stepping', 'varying', 'same'])
                if want[n] == 'same':
                    want[n] = st[n]
            ns = sum(v == 'stepping' for v in want.values())
            nv = sum(v == 'varying' for v in want.values())
            if grid_only and not ns: continue
            if fit_only and (ns or not nv) and rng.random() < .95: continue
            if ns > 3: continue
            break
        if rng.random() < .5:
            mp = not mp
            ops.append(dict(op='map', on=int(mp)))
        order = names[:]
        rng.shuffle(order)
        size = 1
        for n in order:
            k = names.index(n)
            w = small(npar, k)
            if want[n] == 'fixed' and (st[n] != 'fixed' or rng.random() < .3):
                ops.append(dict(op='fix', p=n, v=max(-w, min(w, 8 * rng.randrange(-w // 8, w // 8 + 1)))) if True else None)
                # a previous range may forbid it; ranges always include [-w, w]
            elif want[n] == 'varying' and not (st[n] == 'varying' and rng.random() < .5 and (mp or rg[n][1] > 100000)):
                if rng.random() < .35 and mp:
                    a = -8 * rng.randrange(1, max(2, w // 8 + 1)); b = 8 * rng.randrange(1, max(2, w // 8 + 1))
                else:
                    a, b = (-32 * 40, 32 * 40) if mp else (-32 * 10000, 32 * 10000)
                if rng.random() < .6 or not mp:
                    v = 8 * rng.randrange(-(-a // 8) // 2, b // 8 // 2 + 1) if b < 1000 else 8 * rng.randrange(-w // 8, w // 8 + 1)
                else:
                    v = rng.choice([a, b, 0])
                v = min(max(v, a), b)
                if b > 1000 and abs(v) > 1000:
                    v = 0
                d = rng.choice([4, 8, 16, 32])
                d = max(1, min(d, (b - a) // 4))
                ops.append(dict(op='vary', p=n, v=v, d=d, a=a, b=b))
                rg[n] = [a, b]
                wide[n] = b > 1000
                box[n] = [max(a, -w * 2), min(b, w * 2)]
            elif want[n] == 'stepping' and not (st[n] == 'stepping' and rng.random() < .5):
                n_ = rng.choice([2, 2, 3, 3, 4, 5])
                while size * n_ > 30: n_ -= 1
                if n_ < 2: n_ = 2
                if rng.random() < .35:
                    n_ = min(n_, 4)
                    top = 16 * 2 ** rng.randrange(0, 2) if k >= 2 else 8 * 2 ** rng.randrange(1, 4)
                    vals = [top // 2 ** j for j in range(n_)]
                    if rng.random() < .5: vals.reverse()
                    if rng.random() < .4: vals = [-x for x in vals]
                    ty = 'log'
                else:
                    d = 8 * rng.choice([-2, -1, 1, 2, 3]) if k < 2 else rng.choice([-8, -4, 4, 8])
                    lo = 8 * rng.randrange(-6, 7) if k < 2 else 4 * rng.randrange(-3, 4)
                    vals = [lo + d * j for j in range(n_)]
                    ty = 'lin'
                ops.append(dict(op='range', p=n, a=-2000, b=2000))
                ops.append(dict(op=ty + 'step', p=n, a=vals[0], b=vals[-1], n=n_))
                grid[n] = [ty, vals]
            if want[n] == 'stepping':
                size *= len(grid[n][1])
            if want[n] == 'fixed' and ops[-1].get('p') == n and ops[-1]['op'] == 'fix':
                ops.insert(len(ops) - 1, dict(op='range', p=n, a=-2000, b=2000))
            st[n] = want[n]
        if any(v == 'stepping' for v in st.values()) and rng.random() < .3:
            ops += [dict(op='next')] * rng.randrange(1, 6)
            for n in names:
                if st[n] == 'stepping' and rng.random() < .4:
                    ops += [dict(op=rng.choice(['pnext', 'pprev', 'pfirst', 'plast']), p=n)] * rng.randrange(1, 3)
        ops.append(dict(op='fit', map=mp, grid={n: grid[n] for n in names if st[n] == 'stepping'},
                        box={n: box[n] for n in names if st[n] == 'varying'}, vg=rng.random() < .5,
                        wide=all(wide[n] for n in names if st[n] == 'varying'),
                        nlog=rng.choice([0, 0, 0, 1, 2]), meth=rng.choice([None, None, 'powell', 'Powell', 'POWELL']), bad=rng.choice([None, None, None, 'simplex', 'powel']),
                        tol=rng.choice([None, None, None, 1e-6]), direct=rng.random() < .25))
    return dict(cfg=cfg, ops=ops)


def summary(traces):
    fits = err = 0
    for t in traces:
        for e in t['ev']:
            if e.get('kind') in ('opt', 'grid') and e['b']['vy']:
                fits += 1
                err += e['r'] != 'ok'
    return dict(id=len(traces), cfg={'empty': 1}, ev=[dict(op='summary', fits=fits, err=err)])


def corrupt(rng, tr):
    c = [e for e in tr['ev'] if e.get('r') == 'ok']
    if not c:
        return None
    e = rng.choice(c)
    def bump(f):
        f['m'] += 1000; f['k'][2] = (f['k'][2] + 12345) % 2097152
    if e['kind'] == 'grid':
        k = rng.randrange(6)
        x = rng.choice(e['ent'])
        if k == 0:
            bump(x['v']); x['h'] += 9999999 if e['b']['vy'] else 1
            if tr['cfg']['method'] != 'chisqr': x['h'] -= 2 * 9999999 if e['b']['vy'] else 0
        elif k == 1:
            e['shape'][0] += 1
        elif k == 2:
            e['axes'][0]['lo'] = e['axes'][0]['hi']
        elif k == 3 and e['b']['vy']:
            e['oi'][0] += 1
            bump(e['oiv'])
        elif k == 4:
            e['a']['p'][tr['cfg']['names'].index(e['b']['sp'][0])]['ix'] = 1
        else:
            e['a']['sp'] = []
    elif e['kind'] == 'opt':
        k = rng.randrange(4)
        if k == 0: bump(e['sc'])
        elif k == 1: bump(e['ps'][0])
        elif k == 2: e['ps'].append(e['ps'][0])
        else: e['a']['p'][0]['s'] = 'none'
    else:
        bump(e['res'])
    return tr
