"""Random programs of PIE calls (seeded); all values are small dyadic numbers in units
of the program's scale, with deliberate collisions with bounds."""

NAMES = ['a', 'b', 'c', 'd']
NAMESETS = [NAMES, NAMES, ['T', 't', 'Tt', 'tT'], ['a', 'aa', 'a_a', 'A'], ['x1', 'x', 'x10', 'X1']]


def values(rng):
    r = rng.random()
    if r < .6:
        return float(rng.choice([-3, -2, -1, -.5, 0, .5, 1, 1.5, 2, 3, 4]))
    if r < .9:
        return round(rng.uniform(-5, 5), 3)
    return rng.uniform(-40, 40)


class Gen:
    """Keeps a rough idea of the state so that calls are mostly interesting."""

    def __init__(self, rng, nparam, nobj, weights):
        self.rng, self.names, self.nobj, self.w = rng, rng.choice(NAMESETS)[:nparam], nobj, weights
        self.rg = {}       # (o,p) -> (lo,hi)
        self.nsnap = 0
        self.ulps = 'restore' in weights
        self.step = set()

    def val(self, o, p):
        rng = self.rng
        g = self.rg.get((o, p))
        if g and rng.random() < .75:
            lo, hi = g
            r = rng.random()
            if r < .2: return lo
            if r < .4: return hi
            if r < .5: return lo - rng.choice([2 ** -40, .25, 1.]) * max(1., abs(lo))
            if r < .6: return hi + rng.choice([2 ** -40, .25, 1.]) * max(1., abs(hi))
            return lo + (hi - lo) * rng.choice([.25, .5, .75, rng.random()])
        return values(rng)

    def posval(self, o, p):
        v = self.val(o, p)
        return v

    def op(self):
        rng = self.rng
        o = rng.randrange(self.nobj) + 1
        p = rng.choice(self.names)
        kinds, wts = zip(*self.w.items())
        k = rng.choices(kinds, wts)[0]
        d = {'op': k, 'o': o}
        if k in ('next', 'reset', 'nums', 'snap', 'score', 'sim', 'fit'):
            if k == 'snap':
                self.nsnap += 1
            return d
        if k == 'restore':
            if not self.nsnap:
                self.nsnap += 1
                d['op'] = 'snap'
                return d
            d['sn'] = rng.randrange(self.nsnap) + 1
            return d
        d['p'] = p
        if k in ('assign', 'fix', 'setval'):
            d['v'] = self.val(o, p)
            if k == 'setval' and rng.random() < .03:
                d['v'] = float('nan')
            elif self.ulps and rng.random() < .15:
                d['ulp'] = rng.choice([-1, 1])
        elif k == 'range':
            a, b = values(rng), values(rng)
            d['a'], d['b'] = a, b
            d['form'] = rng.choice(['pair', 'tuple', 'list'])
            self.rg[(o, p)] = (min(a, b), max(a, b))
        elif k == 'badrange':
            d['form'] = rng.choice(['three', 'one', 'none'])
        elif k == 'vary':
            if rng.random() < .5:
                a, b = values(rng), values(rng)
                d['a'], d['b'] = a, b
                d['form'] = rng.choice(['tuple', 'list'])
                # the start is judged against the NEW range
                old = self.rg.get((o, p))
                self.rg[(o, p)] = (min(a, b), max(a, b))
                if rng.random() < .7:
                    d['v'] = self.val(o, p)
                if rng.random() < .3 and old:
                    self.rg[(o, p)] = old
            elif rng.random() < .7:
                d['v'] = self.val(o, p)
            if rng.random() < .7:
                d['d'] = rng.choice([.1, .25, 1., 2.])
            if rng.random() < .03:
                d['v'] = float('nan')
        elif k in ('linstep', 'logstep'):
            if rng.random() < .85:
                d['a'] = self.val(o, p)
            if rng.random() < .85:
                d['b'] = self.val(o, p)
            if k == 'logstep' and rng.random() < .7:
                for z in ('a', 'b'):
                    if z in d:
                        d[z] = abs(d[z]) or 1.
                if rng.random() < .25:
                    for z in ('a', 'b'):
                        if z in d:
                            d[z] = -d[z]
            d['n'] = rng.choice([2, 2, 3, 3, 4, 5, 7, 10, 10, 12]) if rng.random() < .9 else rng.randrange(2, 30)
            d['form'] = rng.choice(['kw', 'pos', 'step'])
            self.step.add((o, p))
        elif k in ('addlis', 'dellis'):
            d['k'] = rng.randrange(2) + 101
        return d


W_STATUS = dict(get=2, assign=6, fix=6, freeze=6, range=3, badrange=.5, vary=10, setval=4, linstep=7, logstep=4,
                pnext=1, next=3, reset=1, nums=1)
W_RANGE = dict(get=1, assign=8, fix=8, freeze=3, range=8, badrange=2, vary=12, setval=10, linstep=6, logstep=5,
               pnext=2, pprev=2, next=1, pfirst=1, plast=1)
W_STEP = dict(assign=1, fix=1, freeze=2, range=2, vary=2, linstep=8, logstep=6, pnext=4, pprev=3, pfirst=2, plast=2,
              next=40, reset=2, nums=3)
W_SNAP = dict(get=1, assign=8, fix=6, freeze=5, range=3, vary=9, setval=8, linstep=2, logstep=1, next=2, snap=8,
              restore=10, score=6)
W_HOOK = dict(assign=8, fix=6, freeze=3, range=2, vary=8, setval=8, linstep=4, logstep=3, next=8, pnext=2, pprev=2,
              pfirst=1, plast=1, reset=2, score=10, sim=3, snap=1, restore=2, addlis=4, dellis=3)


def programs(rng, count, weights, length=(5, 60), hooks=0, methods=('chisqr',), maxparam=4, maxobj=3,
             traverse=0, scales=(1.0,)):
    out = []
    for q in range(count):
        np_ = rng.choice([1, 2, 2, 3, 3, 4][:None]) if maxparam == 4 else rng.randrange(maxparam) + 1
        no = rng.randrange(maxobj) + 1
        g = Gen(rng, np_, no, weights)
        sc = rng.choice(scales)
        cfg = dict(names=g.names, defaults=[sc * rng.choice([0., 1., -2., .5]) for _ in range(np_)], nobj=no,
                   scale=sc, hooks=hooks, method=rng.choice(methods), vec=rng.randrange(2), npred=rng.choice([1, 1, 2]),
                   ndata=rng.choice([3, 5]), nodoc=rng.choice([0, 0, 0, 1, 2]))
        ops = []
        if hooks or 'snap' in weights:
            for o in range(1, no + 1):
                for n in cfg['names']:
                    ops.append({'op': 'get', 'o': o, 'p': n})
        for _ in range(rng.randrange(*length)):
            ops.append(g.op())
        if traverse:
            for o in range(1, no + 1):
                ops.append({'op': 'nums', 'o': o})
                ops += [{'op': 'next', 'o': o} for _ in range(traverse)]
        out.append(dict(cfg=cfg, ops=ops))
    return out


def nans(rng, count):
    """Values that are in no range."""
    out = []
    for q in range(count):
        ops = [{'op': 'range', 'p': 'a', 'a': -1., 'b': 3.}]
        if rng.random() < .5:
            ops.append({'op': 'vary', 'p': 'a', 'd': 1., 'v': 0.})
        elif rng.random() < .5:
            ops.append({'op': 'linstep', 'p': 'a', 'n': 3})
        x = rng.choice([float('nan'), float('inf'), -float('inf')])
        k = rng.choice(['assign', 'fix', 'setval', 'vary', 'linstep', 'logstep'])
        d = {'op': k, 'p': 'a'}
        if k in ('linstep', 'logstep'):
            d.update(n=rng.choice([2, 3, 10]), a=1., b=2., form=rng.choice(['kw', 'pos', 'step']))
            d[rng.choice('ab')] = x
        else:
            d['v'] = x
            if k == 'vary' and rng.random() < .5:
                d['d'] = .5
                d['a'], d['b'] = -2., 5.
        out.append(dict(cfg=dict(names=['a', 'b'], defaults=[0., 1.], nobj=2, scale=1., hooks=0, method='chisqr', vec=1, npred=1,
                                 ndata=3), ops=ops + [d, {'op': 'get', 'p': 'a'}]))
    return out


def grids(rng, count):
    """Full traversals of step grids of 1-4 parameters, run past the end (twice)."""
    out = []
    for q in range(count):
        np_ = rng.choice([1, 2, 2, 3, 3, 4])
        sc = rng.choice([1.0, 1.0, 2.0 ** -10, 2.0 ** 12])
        cfg = dict(names=NAMES[:np_], defaults=[sc] * np_, nobj=1, scale=sc, hooks=0, method='chisqr', vec=1, npred=1, ndata=3)
        order = cfg['names'][:]
        rng.shuffle(order)
        ops, tot = [], 1
        for p in order:
            if np_ > 1 and rng.random() < .15:
                continue
            n = rng.choice([2, 2, 3, 3, 4, 5, 6])
            if tot * n > 260:
                n = 2
            kind = rng.choice(['linstep', 'logstep'])
            a, b = rng.uniform(-10, 10), rng.uniform(-10, 10)
            if rng.random() < .3:
                a, b = round(a), round(b)
            if kind == 'logstep':
                a, b = abs(a) + .01, abs(b) + .01
                if rng.random() < .3:
                    a, b = -a, -b
            if rng.random() < .3:
                ops.append({'op': 'range', 'p': p, 'a': min(a, b) - rng.choice([0, 1]), 'b': max(a, b) + rng.choice([0, 1])})
            ops.append({'op': kind, 'p': p, 'a': a, 'b': b, 'n': n, 'form': rng.choice(['kw', 'pos'])})
            tot *= n
        ops.append({'op': 'nums'})
        cut = rng.random()
        for rep in range(2):
            m = tot + (1 if rep == 0 else 0)
            if rep == 0 and cut < .3:      # interrupted traversal
                m = rng.randrange(tot)
                ops += [{'op': 'next'}] * m
                ops.append(rng.choice([{'op': 'reset'}, {'op': 'pfirst', 'p': order[0]}, {'op': 'plast', 'p': order[0]},
                                       {'op': 'freeze', 'p': order[0]}, {'op': 'nums'},
                                       {'op': 'linstep', 'p': order[-1], 'a': 0., 'b': 1., 'n': 3}]))
            else:
                ops += [{'op': 'next'}] * m
        ops.append({'op': 'nums'})
        out.append(dict(cfg=cfg, ops=ops))
    return out


def from_behaviour(beh, names, tail=0, scale=1.0, touch=0):
    """A TLC behaviour (sequence of calls with small-integer arguments) as a program."""
    ops = [{'op': 'get', 'o': 1, 'p': n} for n in names] if touch else []
    nsn = 0
    for b in beh:
        d = {'op': b['op'], 'o': 1}
        if b['p']:
            d['p'] = b['p']
        if b['op'] == 'snap':
            nsn += 1
        if b['op'] == 'restore':
            d['sn'] = nsn
        for z in 'vdab':
            if b[z] != -99:
                d[z] = float(b[z])
        if b['op'] in ('linstep', 'logstep'):
            d['n'] = b['n']
        ops.append(d)
    ops += [{'op': 'next', 'o': 1}] * tail
    return dict(cfg=dict(names=names, defaults=[1.0 * scale] * len(names), nobj=1, scale=scale, hooks=0, method='chisqr', vec=1,
                         npred=1, ndata=3), ops=ops)


def corrupt(rng, tr):
    """Corrupt one recorded field of an execution; the trace spec must reject it."""
    ev = [e for e in tr['ev'] if 'obs' in e and e['op'] not in ('fit',) and e['obs'][e['o'] - 1]['seen']]
    if not ev:
        return None
    e = rng.choice(ev)
    ob = e['obs'][e['o'] - 1]
    n = rng.choice(ob['seen'])
    q = ob['p'][n]
    c = rng.randrange(6)
    if c == 0:
        q['v'] = dict(q['v']); q['v']['k'] = [q['v']['k'][0] + 40, q['v']['k'][1], q['v']['k'][2]]; q['v']['m'] += 100000; q['v']['l'] += 100000
    elif c == 1:
        q['st'] = 'varying' if q['st'] != 'varying' else 'fixed'
    elif c == 2:
        e['r'] = 'err' if e['r'] != 'err' else 'ok'
        if e['op'] in ('nums', 'snap', 'score'):
            return None
    elif c == 3:
        for z in ('fx', 'sp', 'vy'):
            if n in ob[z]:
                ob[z] = [x for x in ob[z] if x != n]
    elif c == 4:
        q['bd'] = not q['bd']
    else:
        if q['st'] != 'stepping':
            q['lo'] = {'k': [5, 5, 5], 'm': 3, 'l': 3, 's': 1}
        else:
            q['ix'] += 1
    return tr
