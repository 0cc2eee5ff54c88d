"""Programs for the integrators."""
E2 = ['e2r2_3_4a', 'e2r2_9_21', 'e2r2_11_28a', 'e2r2_7_12', 'e2_r2_3_4b', 'e2r2_13_36', 'e2r2_5_9b', 'e2r2_5_9a', 'e2r2_13_41', 'e2r2_9_19a', 'e2r2_11_28c']
C2 = ['c2_1_4', 'c2_3_4', 'c2_7_12']


def deg(rule):
    return int(rule.split('_')[-2])


def mons(rng, d, cap=None):
    a = [[m, n] for m in range(d + 1) for n in range(d + 1 - m)]
    if cap and len(a) > cap:
        top = [z for z in a if sum(z) >= d - 1]
        a = rng.sample(a, cap - len(top)) + top if len(top) < cap else rng.sample(top, cap)
    return a


def region(rng, kind, rule, integer):
    if kind == 'sq':
        return [-1, 1, -1, 1]
    if kind == 'e2':
        return [0, 1, 0, 1]
    if integer:
        if kind == 'rect':
            a = sorted(rng.sample(range(-3, 4), 2))
            b = sorted(rng.sample(range(-3, 4), 2))
            if rng.random() < .2:
                a.reverse()
            if rng.random() < .2:
                b.reverse()
            return a + b
        k = 2 if deg(rule) < 12 else 1
        return [rng.randint(-k, k), rng.randint(1, k), rng.randint(-k, k), rng.randint(1, k)]
    if kind == 'rect':
        def iv():
            a = rng.choice([rng.uniform(-5, 5), rng.uniform(-1e3, 1e3), 0., rng.uniform(-1e-3, 1e-3)])
            return [a, a + rng.choice([rng.uniform(.1, 5), 1e-3, 1e4, rng.expovariate(1) + 1e-2]) * max(1e-3, abs(a))]
        return iv() + iv()
    return [rng.uniform(-9, 9), rng.choice([.1, 1., rng.expovariate(1) + .01, 30.]), rng.uniform(-2, 2), rng.expovariate(1) + .01]


def base(rng, kind, rule, integer, g):
    d = deg(rule)
    return dict(kind=kind, rule=rule, int=integer, g=g, ty=rng.choice(['tuple', 'list', 'array']), dflt=rule == 'e2r2_7_12' and rng.random() < .5,
                other=None, vals=[rng.uniform(-1, 1) * 10 ** rng.randint(-3, 3) for _ in range(41)], npf=rng.random() < .3, mons=mons(rng, d, 40), parts=[], pmon=[0, 0])


def cut(rng, g, n, exactly=None):
    """A random subdivision of rectangle g into about n pieces."""
    parts = [list(g)]
    for _ in range(n):
        p = parts.pop(rng.randrange(len(parts)))
        ax = rng.choice([0, 2])
        c = p[ax] + rng.uniform(.1, .9) * (p[ax + 1] - p[ax])
        a, b = list(p), list(p)
        a[ax + 1] = c
        b[ax] = c
        parts += [a, b]
    return parts


def random(rng):
    kind = rng.choice(['sq', 'rect', 'rect', 'rect', 'e2', 'norm', 'norm', 'norm'])
    rule = rng.choice(C2 if kind == 'sq' else C2[1:] if kind == 'rect' else E2)
    integer = kind in ('sq', 'e2') or rng.random() < .5
    p = base(rng, kind, rule, integer, region(rng, kind, rule, integer))
    if rng.random() < .5:
        k = rng.choice(['e2', 'norm'])
        r = rng.choice(E2) if rng.random() < .5 or kind not in ('e2', 'norm') else rule
        p['other'] = base(rng, k, r, False, region(rng, k, r, False))
    if kind == 'rect':
        p['pmon'] = rng.choice(mons(rng, deg(rule)))
        p['parts'] = [cut(rng, p['g'], rng.randint(1, 6)) for _ in range(2)]
    return p


NAMES = {'g_3_4a': 'e2r2_3_4a', 'g_3_4b': 'e2_r2_3_4b', 'g_5_9': 'e2r2_5_9a', 'g_7_12': 'e2r2_7_12', 'g_9_19': 'e2r2_9_19a'}


def behaviour(rng, b):
    """A region and its partition chosen by TLC."""
    r, g = b['rule'], b['reg']
    if r in NAMES:
        return base(rng, 'norm', NAMES[r], True, g)
    if r == 'c2_1_4':
        return base(rng, 'sq', r, True, [-1, 1, -1, 1])
    p = base(rng, 'rect', r, True, g)
    p['pmon'] = rng.choice(mons(rng, deg(r)))
    p['parts'] = [b['parts']]
    return p


def corrupt(rng, tr):
    e = rng.choice(tr['ev'])
    if e['op'] == 'pts':
        e['n'] += 1
    elif e['op'] == 'wts':
        e['lin'] = 100000
    elif e['op'] == 'mom':
        e['q'] += rng.choice([-1, 1])
    elif e['op'] in ('momf', 'part'):
        e['d'] = 50000
    elif e['op'] in ('bad', 'obj', 'same'):
        e['ok'] = False
    return tr


# ------------------------------------------------------- adaptive integration
import math


def rulcls(nd):
    return 2 ** nd + 2 * nd ** 2 + 6 * nd + 1


def vnum(key, nd):
    if key in (0, 1) and nd == 2:
        return 65
    if key in (0, 2) and nd == 3:
        return 127
    if (key == 0 and nd > 3) or key == 3:
        return 1 + 8 * nd + 6 * nd * (nd - 1) + 4 * nd * (nd - 1) * (nd - 2) // 3 + 2 ** nd
    if key == 4:
        return 1 + 6 * nd + 2 * nd * (nd - 1) + 2 ** nd
    return 0


def poly(rng, nd, d, lo, hi):
    """A polynomial of degree <= d with integer coefficients and small exact integral."""
    while True:
        t = []
        for _ in range(rng.randint(1, 4)):
            ms = [0] * nd
            for _ in range(rng.randint(0, d)):
                ms[rng.randrange(nd)] += 1
            t.append([rng.choice([-3, -2, -1, 1, 2, 3]), ms])
        if rng.random() < .8:
            t.append([rng.choice([1, 2, 5]), [0] * nd])
        L = math.lcm(*(math.prod(m + 1 for m in ms) for _, ms in t))
        if lo is None:
            return dict(k='poly', t=t, L=L)
        big = max(abs(c) * L * math.prod(max(1, abs(a), abs(b)) ** (m + 1) * 2 for a, b, m in zip(lo, hi, ms)) for c, ms in t)
        if big < 2e8:
            return dict(k='poly', t=t, L=L)


def fun(rng, nd, lo, hi, integer, rough=.3):
    u = rng.random()
    if integer and u < .5:
        return poly(rng, nd, rng.randint(0, 6), lo, hi)
    if u < 1 - rough:
        f = []
        for a, b in zip(lo, hi):
            w = b - a
            k = rng.choice(['exp', 'cos', 'gauss'])
            if k == 'exp':
                f.append(['exp', [rng.choice([-1, 1]) * rng.uniform(.1, 2) / w, 0.]])
            elif k == 'cos':
                f.append(['cos', [rng.uniform(.1, 3) / w, rng.uniform(0, 6)]])
            else:
                f.append(['gauss', [rng.uniform(.3, 2) / w, rng.uniform(a, b)]])
        return dict(k='prod', a=rng.choice([0., 1., 2.]), f=f)
    return dict(k=rng.choice(['disc', 'cusp']), c=sum(rng.uniform(a, b) for a, b in zip(lo, hi)), a=rng.choice([0., .1, 1.5]))


def ad_program(rng, which=None, nd=None, fac=None, plain=False):
    which = which or rng.choice(['adapt', 'vec'])
    nd = nd or rng.choice([2, 2, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 5])
    integer = rng.random() < .5
    if integer:
        lo, hi = [], []
        for _ in range(nd):
            a, b = sorted(rng.sample([-1, 0, 1, 2], 2))
            lo.append(a)
            hi.append(b)
    else:
        lo = [rng.choice([0., rng.uniform(-5, 5), rng.uniform(-100, 100)]) for _ in range(nd)]
        hi = [a + rng.choice([1., rng.uniform(.1, 10)]) for a in lo]
    p = dict(which=which, lo=lo, hi=hi, int=integer, ty=rng.choice(['list', 'array']), eps=10. ** -rng.randint(1, 9), valid=True, boom=None, between=None, cut=None,
             maxfac=None, wrkfac=None, abseps=None, key=None, minpts=None, maxpts=None, num=0)
    if which == 'adapt':
        p['f'] = [fun(rng, nd, lo, hi, integer)]
        p['maxfac'] = fac or rng.choice([None, 1, 2, 3, 5, 10, 30, 100])
        p['wrkfac'] = rng.choice([None, None, 1, 2, 5])
        p['budget'] = (p['maxfac'] or 100) * rulcls(nd)
        p['minp'] = rulcls(nd)
        if rng.random() < .05:
            p['valid'] = False
            if rng.random() < .5:
                p['maxfac'], p['budget'] = 0, 1
            else:
                p['lo'], p['hi'] = lo[:1], hi[:1]
                p['f'] = [dict(k='disc', c=0., a=1.)]
                p['int'] = False
    else:
        p['f'] = [fun(rng, nd, lo, hi, integer) for _ in range(rng.choice([1, 1, 2, 3]))]
        p['key'] = rng.choice([None, 0, 3, 4, {2: 1, 3: 2}.get(nd, 3)])
        p['num'] = num = vnum(p['key'] or 0, nd)
        p['abseps'] = rng.choice([None, None, 0., 1e-4, 1e-8])
        p['maxpts'] = (fac * num) if fac else rng.choice([None, 3 * num, 3 * num + 1, rng.randint(3, 12) * num, rng.randint(3 * num, 60 * num)])
        if p['maxpts'] is None and any(s['k'] in ('disc', 'cusp') for s in p['f']):
            p['maxpts'] = rng.randint(10, 80) * num
        p['minpts'] = rng.choice([None, None, 0, rng.randint(0, min(p['maxpts'] or 2000, 20 * num))])
        p['budget'] = p['maxpts'] or 100000
        p['minp'] = 0
        if rng.random() < .06:
            p['valid'] = False
            w = rng.choice(['small', 'key', 'vol', 'order', 'dim'])
            if w == 'small':
                p['maxpts'] = rng.randint(1, 3 * num - 1)
                p['minpts'] = 0
            elif w == 'key':
                p['key'], p['num'] = rng.choice([5, 7, {2: 2, 3: 1}.get(nd, 1)]), 0
            elif w == 'vol':
                p['hi'] = list(hi)
                p['hi'][rng.randrange(nd)] = 0
                p['lo'] = [0 if h == 0 else a for a, h in zip(lo, p['hi'])]
                p['f'] = [dict(k='disc', c=0., a=1.)]
                p['int'] = False
            elif w == 'order':
                p['maxpts'], p['minpts'] = 5 * num, 6 * num
            else:
                p['lo'], p['hi'], p['num'] = lo[:1], hi[:1], 0
                p['f'] = [dict(k='disc', c=0., a=1.)]
                p['int'] = False
            p['budget'] = max(1, p['maxpts'] or 100000)
    if p['valid'] and not plain:
        smooth = all(s['k'] in ('poly', 'prod') for s in p['f'])
        if smooth and rng.random() < .5:
            ax = rng.randrange(nd)
            p['cut'] = [ax, lo[ax] + rng.uniform(.2, .8) * (hi[ax] - lo[ax])]
        if rng.random() < .15:
            p['boom'] = rng.choice([1, 2, 5, 17, 30, 70])
        if rng.random() < .5:
            p['between'] = ad_program(rng, plain=True)
    return p


def ad_invalid(rng):
    """Every kind of request that has to be refused, in every dimension."""
    out = []

    def base(which, nd, **k):
        p = ad_program(rng, which, nd, plain=True)
        while not p['valid']:
            p = ad_program(rng, which, nd, plain=True)
        p.update(valid=False, int=False, f=[dict(k='disc', c=0., a=1.)] * len(p['f']))
        p.update(k)
        p['budget'] = max(1, p['maxpts'] or 100000) if which == 'vec' else 1000000
        out.append(p)

    def grow(v, nd):
        return [v] * nd
    for nd in (2, 3, 4, 5):
        for key in (0, 3, 4):
            num = vnum(key, nd)
            for m in (num, 2 * num, 3 * num - 1):
                base('vec', nd, key=key, num=num, maxpts=m, minpts=0)
            base('vec', nd, key=key, num=num, maxpts=5 * num, minpts=5 * num + 1)
            base('vec', nd, key=key, num=num, eps=-.1, abseps=-.1)
        for key in (-1, 5, 7, {2: 2, 3: 1}.get(nd, 1)):
            base('vec', nd, key=key, num=0)
        for d in range(nd):
            lo, hi = grow(1., nd), grow(2., nd)
            hi[d] = 1.
            base('vec', nd, lo=lo, hi=hi)
        base('adapt', nd, maxfac=0)
    for nd in (0, 1, 16, 17):
        base('vec', 2, lo=grow(0., nd), hi=grow(1., nd), num=0)
    base('adapt', 2, lo=[0.], hi=[1.])
    return out


def ad_behaviour(rng, b):
    return ad_program(rng, 'vec', fac=max(3, b['budget']))


def ad_corrupt(rng, tr):
    ev = [e for e in tr['ev'] if e['op'] in ('res', 'reg', 'same')]
    e = rng.choice(ev)
    if e['op'] == 'res':
        if not tr['cfg']['valid']:
            e['r'] = 'ok'
        elif e['r'] == 'ok':
            e['neval'] += 1
        else:
            e['r'] = 'none'
    elif e['op'] == 'reg':
        e['c'][0] += 64
    else:
        e['ok'] = False
    return tr
