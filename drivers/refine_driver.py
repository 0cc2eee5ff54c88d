"""Refinement histories of an interval list."""
import math, random
from drvlib import main, call, F
from fenc import key

U = 4e8


def run(prog, events):
    from inference.grid.grid1d import RefinedIntervalList1D
    lo, hi, n, log = prog['lo'], prog['hi'], prog['n'], prog['log']
    rng = random.Random(prog['seed'])
    args = (hi, lo, n) if prog['rev'] else (lo, hi, n)
    st = rng.choice(['log', 'logarithmic', 'Log'] if log else ['lin', 'linear', 'Linear'])
    r, il = call(RefinedIntervalList1D, *args, **({'stype': st} if log or rng.random() < .5 else {}))
    if r != 'ok':
        events.append({'crash': 'C13:construction raised'})
        return {'lo': key(lo), 'hi': key(hi), 'n': n}

    def pos(x):
        f = math.log(x / lo) / math.log(hi / lo) if log else (x - lo) / (hi - lo)
        return int(round(f * U))

    def at(f):
        if f == 0:
            return lo
        if f == 1:
            return hi
        return lo * math.exp(f * math.log(hi / lo)) if log else lo + f * (hi - lo)

    def stepu(s):
        return int(round(s / (math.log(hi / lo) if log else hi - lo) * U))

    def obs(e):
        ints = [il[j] for j in range(il.nint)]
        e['l'] = [{'a': pos(I.lo), 'b': pos(I.hi), 's': stepu(I.step), 'n': I.n, 'ka': key(I.lo), 'kb': key(I.hi)} for I in ints]
        e['npts'] = il.npts
        xs = [lo, hi, at(-.01), at(1.01), at(rng.random()), at(rng.random())]
        J = rng.choice(ints)
        xs += [J.lo, J.hi, math.nextafter(J.hi, -math.inf), math.nextafter(J.lo, math.inf), math.nextafter(J.lo, -math.inf)]
        e['loc'] = []
        for x in xs:
            r, v = call(il.locate, x)
            e['loc'].append({'x': F(x), 'r': 'ok' if r == 'ok' else type(v).__name__,
                             'j': next((j + 1 for j, I in enumerate(ints) if I is v), 0) if r == 'ok' else 0})
        e['nl'] = []
        for k in [-1, il.npts, 0, il.npts - 1] + [rng.randrange(il.npts) for _ in range(12)]:
            r, v = call(il.nlocate, k)
            ok = r == 'ok'
            e['nl'].append({'n': k, 'r': 'ok' if ok else type(v).__name__, 'j': v[0] + 1 if ok else 0, 'x': v[1] if ok else 0,
                            'same': bool(ok and 0 <= v[0] < len(ints) and v[2] is ints[v[0]])})
        events.append(e)

    obs({'op': 'init', 'r': 'ok'})
    for op in prog['ops']:
        x = []
        for f in op['r']:
            if isinstance(f, list):      # a point of the current list, possibly nudged
                i, k, I = il.nlocate(int(f[0] * (il.npts - 1)))
                p = I.lo * math.exp(k * I.step) if log else I.lo + k * I.step
                for _ in range(abs(f[1])):
                    p = math.nextafter(p, math.inf if f[1] > 0 else -math.inf)
                x.append(min(max(p, lo), hi))
            else:
                x.append(at(f))
        a, b = x
        if a > b and not op.get('keep'):
            a, b = b, a
        if a == b and not op.get('keep'):
            continue
        ta, tb = max(a, lo), min(b, hi)
        w = (math.log(tb / ta) if log else tb - ta) / (math.log(hi / lo) if log else hi - lo) if tb > ta else 0
        if tb > ta and w < 1e-5:
            continue        # below the resolution of the record
        e = {'op': 'upd', 'lo': pos(a) if not log or a > 0 else -1, 'hi': pos(b), 'n': op['n'], 'out': tb <= ta}
        r, v = call(il.update, *((b, a, op['n']) if prog['rev'] else (a, b, op['n'])))
        e['r'] = 'ok' if r == 'ok' else r if r == 'hang' else type(v).__name__
        obs(e)
        if e['r'] == 'hang':
            return
    return {'lo': key(lo), 'hi': key(hi), 'n': n}


main(run, 'C13')
