"""Steppers, log summers and zero bracketing."""
import math
from fractions import Fraction
from decimal import Decimal, getcontext
import numpy as np
from drvlib import main, call, key
from fenc import clampint, CAP

getcontext().prec = 60


def dev(got, ref, tol):
    try:
        got = float(got)
    except (TypeError, ValueError):
        return CAP
    if got == ref:
        return 0
    if not (math.isfinite(got) and math.isfinite(ref)):
        return CAP
    return clampint(1e3 * abs(got - ref) / tol)


# ------------------------------------------------------------- steppers
def steppers(prog, events):
    from inference.utils import numutils as nu
    F = dict(lin=nu.lin_stepper, log=nu.log_stepper, linenum=nu.lin_enum_stepper, logenum=nu.log_enum_stepper)
    gens, cfg = [], []
    for g in prog['g']:
        gens.append(iter(F[g['k']](g['lo'], g['hi'], g['n'])))
        cfg.append({'n': g['n'], 'lo': key(g['lo']), 'hi': key(g['hi']), 'up': g['hi'] > g['lo'], 'enum': g['k'].endswith('enum')})
    pos = [0] * len(gens)
    for q in prog['s']:
        g = prog['g'][q - 1]
        e = {'g': q, 'v': [0, 0, 0], 'd': 0, 'j': -1}
        events.append(e)
        r, x = call(next, gens[q - 1], None)
        e['r'] = 'end' if r == 'ok' and x is None else r
        if e['r'] != 'ok':
            pos[q - 1] += 1
            continue
        if g['k'].endswith('enum'):
            e['j'], x = x
        k, n, lo, hi = pos[q - 1], g['n'], float(g['lo']), float(g['hi'])
        pos[q - 1] += 1
        x = float(x)
        e['v'] = key(x)
        acc = 3e-16 * (n + 4)
        if g['k'].startswith('lin'):
            ref = float(Fraction(lo) + (Fraction(hi) - Fraction(lo)) * k / (n - 1)) if k < n else 0.
            e['d'] = dev(x, ref, acc * (abs(lo) + abs(hi - lo)))
        else:
            ref = math.exp(math.log(lo) + (math.log(hi) - math.log(lo)) * k / (n - 1))
            e['d'] = dev(x, ref, acc * (4 + abs(math.log(hi / lo)) + abs(math.log(lo))) * abs(ref))
    return {'g': cfg}


# ------------------------------------------------------------- log summer
def dexp(x):
    return Decimal(x).exp()


def summer(prog, events):
    from inference.utils.numutils import LogSummer
    sig, off = prog['sig'], prog['off']
    kw = {}
    if sig:
        kw['dosig'] = prog['sigv']
    vals = []
    n0, s0 = 0, 0
    if prog['start']:
        n0, s0 = prog['start']
        kw['start'] = (n0, off + math.log(s0))
        base = dexp(kw['start'][1])
    else:
        base = Decimal(0)
    S = LogSummer(**kw)
    T = LogSummer(dosig=True)     # a second summer must not interfere
    cnt = n0
    tot, sq = base, Decimal(0)
    for op in prog['ops']:
        e = {'op': op[0], 'v': 0}
        events.append(e)
        if op[0] == 'add':
            v = op[1]
            if prog['exact']:
                e['v'] = v
                lv = off + math.log(v)
            else:
                lv = v
            if op[2] == 'iadd':
                def f():
                    nonlocal S
                    S += lv
                e['r'], x = call(f)
            else:
                e['r'], x = call(lambda: S + lv)
            d = dexp(lv)
            tot += d
            sq += d * d
            cnt += 1
            call(lambda: T + (lv - 3.))
        elif op[0] == 'rep':      # the same small value many times
            def f():
                nonlocal S
                for _ in range(op[2]):
                    S += op[1]
            e['r'], x = call(f)
            e['k'] = op[2]
            d = dexp(op[1])
            tot += op[2] * d
            sq += op[2] * d * d
            cnt += op[2]
        elif op[0] == 'zero':
            e['r'], x = call(S.add_zero)
            cnt += 1
        else:
            e['r'] = 'ok'
        r, x = call(S.status)
        if r == 'ok':
            r2, y = call(S.status)
            if r2 != 'ok' or not all(a == b or (a != a and b != b) for a, b in zip(x, y)):
                r, x = 'err', RuntimeError('status changes the summer')
        st = {'r': type(x).__name__ if r == 'err' else r, 'n': 0, 'd': [], 'S': 0, 'Q': 0, 'M': 0, 'V': 0}
        e['st'] = st
        if r != 'ok':
            continue
        if len(x) != (5 if sig else 3):
            st['r'] = 'shape'
            continue
        if sig:
            n, ls, lq, lm, lsig = x
        else:
            n, ls, lm = x
        st['n'] = int(n)
        if tot > 0:
            tol = 1e-12 + 4e-16 * (abs(float(tot.ln())) + 2) * (len(prog['ops']) + 4) + 1.5e-16 * (1 + abs(float(tot.ln()))) * sum(o[2] for o in prog['ops'] if o[0] == 'rep')
            rs = float(tot.ln())
            st['d'] = [dev(ls, rs, tol), dev(lm, float((tot / cnt).ln()), tol)]
            if sig and sq > 0:
                st['d'].append(dev(lq, float(sq.ln()), 2 * tol))
                var = sq / cnt - (tot / cnt) ** 2
                rel = float(var * cnt / sq)       # cancellation
                if rel > 1e-7:
                    st['d'].append(dev(lsig, float(var.ln()) / 2, 4 * tol / rel))
                elif rel < 1e-25:                 # all entries equal
                    ok = lsig == -math.inf or (not math.isnan(lsig) and lsig - .5 * float((sq / cnt).ln()) < .5 * math.log(64 * tol))
                    st['d'].append(0 if ok else CAP)
            if prog['exact']:
                sc = lambda z, k: clampint(1e3 * math.exp(z - k * off)) if z == z and z - k * off < 20 else CAP
                st['S'], st['M'] = sc(ls, 1), sc(lm + math.log(cnt), 1)
                if sig:
                    st['Q'] = sc(lq, 2)
                    st['V'] = sc(2 * lsig + 2 * math.log(cnt), 2) if lsig > -1e6 or lsig != lsig else 0
    return {'n0': n0, 's0': s0, 'sig': bool(sig), 'exact': prog['exact']}


# ------------------------------------------------------------- bracketing
def zb(prog, events):
    from inference.utils.numutils import zbracket
    x1, x2 = prog['x']
    lo, hi = min(x1, x2), max(x1, x2)
    memo = {}

    def run(mode, log):
        seq = list(prog['f']) if prog['kind'] == 'script' else None
        known = {}

        def f(x, *extra):
            x = float(x)
            if seq is not None:
                if x not in known:
                    known[x] = seq[len(known)] if len(known) < len(seq) else seq[-1]
                v = known[x]
            else:
                v = eval(prog['f'], {'x': x, 'math': math})
            v = v * prog['sc']
            if log is not None:
                log.append({'op': 'eval', 'k': key(x), 's': (v > 0) - (v < 0), 'extra': list(extra) == ([3, 'q'] if mode == 'args' else [])})
            return v
        kw = {}
        if prog['lim'] is not None:
            kw['maxtries'] = prog['lim']
        if prog['expand']:
            kw['expand'] = prog['expand']
        if mode == 'vals':
            kw['vals'] = (f(x1), f(x2))
            if log is not None:
                del log[:]
        if mode == 'args':
            kw['args'] = (3, 'q')
        return call(zbracket, f, x1, x2, **kw)
    log = []
    r, x = run(prog['mode'], log)
    events.extend(log)
    e = {'op': 'end', 'r': type(x).__name__ if r == 'err' else r}
    if r == 'ok':
        e['lo'], e['hi'] = key(min(x)), key(max(x))
    events.append(e)
    outs = []
    for m in ('plain', 'vals', 'args'):
        rr, xx = run(m, None)
        outs.append((rr, tuple(map(float, xx)) if rr == 'ok' else type(xx).__name__))
    events.append({'op': 'same', 'ok': len(set(outs)) == 1 and outs[0][0] == r})
    r, x = call(zbracket, lambda x: x, x1, x1)
    events.append({'op': 'null', 'r': type(x).__name__ if r == 'err' else r})
    given = prog['mode'] == 'vals'
    sg = lambda x: 9
    c = {'lo': key(lo), 'hi': key(hi), 'lim': 50 if prog['lim'] is None else prog['lim'], 'given': given, 'slo': 0, 'shi': 0}
    if given:
        l2 = []
        run('plain', l2)
        for q in l2:
            if q['k'] == c['lo']:
                c['slo'] = q['s']
            if q['k'] == c['hi']:
                c['shi'] = q['s']
    return c


def run(prog, events):
    return dict(step=steppers, sum=summer, zb=zb)[prog['p']](prog, events)


main(run, '*')
