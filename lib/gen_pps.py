"""Requests for samples of finite populations, with chosen random numbers."""
from fractions import Fraction as Fr
from math import gcd
from functools import reduce


def ratios(ws, n):
    W = sum(ws)
    r = [Fr(w, W - n * w) for w in ws]
    d = reduce(lambda a, b: a * b // gcd(a, b), [x.denominator for x in r])
    r = [int(x * d) for x in r]
    g = reduce(gcd, r)
    return [x // g for x in r]


def decided(ws, n):
    """Sampford's scheme applies, and its ratios are exact enough for the specification
    (no 30-bit probability near an integer, where rounding decides)."""
    W = sum(ws)
    if n * max(ws) >= W:
        return False
    r = ratios(ws, n)
    T = sum(r)
    if T >= 60000:
        return False
    for x in r:
        f = Fr(x * 2 ** 30, T) % 1
        if x and not Fr(1, 10000) < f < 1 - Fr(1, 10000):
            return False
    return True


def boundaries(ws):
    """Numbers at which a table lookup changes its answer."""
    T = sum(ws)
    P = [w * 2 ** 30 // T for w in ws]
    out, t = [0], 0
    for k in range(1, 6):
        u = 64 ** (5 - k)
        for p in P:
            t += (p // u % 64) * u
            out += [t - 1, t]
    return [j for j in out if 0 <= j < 2 ** 30] + [2 ** 30 - 1]


def words(rng, ws, op):
    """A stream with numbers at boundaries (a word gives the 30-bit number in its upper bits)."""
    if rng.random() < .4:
        return []
    src = boundaries(ws) if ws else [0, 2 ** 30 - 1]
    if op['op'] == 'pps5' and ws and decided(ws, op['n']):
        src = src + boundaries(ratios(ws, op['n']))
    out = [(rng.choice(src) if rng.random() < .6 else rng.randrange(1 << 30)) * 4 + rng.randrange(4)
           for _ in range(rng.randrange(1, 40))]
    return out


def weights(rng):
    while True:
        n = rng.randrange(2, 6)
        hi = rng.choice([4, 8, 20])
        ws = [rng.randrange(0 if rng.random() < .2 else 1, hi) for _ in range(n)]
        if rng.random() < .1:
            ws = [0] * n
            ws[rng.randrange(n)] = rng.randrange(1, 9)
        if rng.random() < .7 and len(set(ws)) < n:
            continue
        if sum(ws) > 0:
            return ws


def request(rng, ws, np_, k=None, n=None):
    while True:
        op = dict(op=k or rng.choice(['sample', 'pps', 'pps', 'pps5', 'pps5'] + (['max'] if ws else [])), seed=rng.randrange(1 << 30))
        op['n'] = n if n is not None else rng.randrange(1, 9) if op['op'] == 'sample' else rng.randrange(0, np_ + 2)
        if ws and op['op'] in ('pps', 'pps5') and 1 <= op['n'] < np_ and op['n'] * max(ws) <= sum(ws) and not decided(ws, op['n']):
            if n is None:
                continue
            return None
        op['words'] = words(rng, ws, op)
        return op


def large(rng):
    ws = [1] * rng.choice([93, 99, 105, 117, 123])
    ops = [request(rng, ws, len(ws), k, n) for k, n in (('max', 0), (rng.choice(['pps', 'pps5']), 1), ('max', 0), ('pps', 2), ('sample', 3))]
    return dict(cfg=dict(ws=ws, np=len(ws), scale=1., form=rng.randrange(2)), ops=[o for o in ops if o])


def program(rng):
    if rng.random() < .02:
        return large(rng)
    if rng.random() < .2:
        ws, np_ = [], rng.randrange(1, 8)
    else:
        ws = weights(rng)
        np_ = len(ws)
    cfg = dict(ws=ws, np=np_, scale=rng.choice([1., .5, .125, 4.]), form=rng.randrange(2))
    return dict(cfg=cfg, ops=[request(rng, ws, np_) for _ in range(rng.randrange(2, 9))])


def from_behaviour(rng, b):
    ws = rng.choice([[5, 7, 6, 4, 8], [9, 4, 7, 8, 6], [3, 5, 4, 2, 1]])
    cfg = dict(ws=ws, np=5, scale=1., form=rng.randrange(2))
    ops = [request(rng, ws, 5, h['op'], h['n']) for h in b]
    return dict(cfg=cfg, ops=[o for o in ops if o])


def corrupt(rng, tr):
    ev = [e for e in tr['ev'] if e.get('r') == 'ok' and e.get('items') and e['used'] > 0]
    if not ev or len(tr['cfg']['ws']) < 3 or len(set(tr['cfg']['ws'])) < len(tr['cfg']['ws']):
        return None
    e = rng.choice(ev)
    if rng.random() < .5:
        e['used'] = -1
    else:
        e['items'][0] = 0
    return tr
