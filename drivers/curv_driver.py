"""Step finder and observed information."""
import math
import numpy as np
from drvlib import main, call, key
from fenc import clampint, CAP


class Boom(Exception):
    pass


def loglike(spec):
    c = np.array(spec['c'], float)
    A = np.array(spec['A'], float)
    B = np.array(spec['B'], float)
    m = spec['m']
    k = spec['k']
    if k == 'quad':
        return lambda x: m - .5 * np.dot(x - c, np.dot(A, x - c))
    if k == 'quart':
        return lambda x: m - .5 * np.dot(x - c, np.dot(A, x - c)) - np.dot(B, (x - c) ** 4)
    if k == 'cub':
        return lambda x: m - .5 * np.dot(x - c, np.dot(A, x - c)) - np.dot(B, (x - c) ** 4) + .3 * np.dot(B, (x - c) ** 3)
    if k == 'skew':
        return lambda x: m - np.sum(np.diag(A) * (np.exp(np.clip(x - c, -700, 700)) - 1 - (x - c)))
    if k == 'abs':
        return lambda x: m - np.sum(np.diag(A) * np.abs(x - c))
    if k == 'flat':          # the last parameter does not matter
        return lambda x: m - .5 * np.sum((np.diag(A) * (x - c) ** 2)[:-1])
    return lambda x: m - np.sum(np.where(x - c > 0, np.diag(A), 2 * np.diag(A)) * (x - c) ** 2)


def run(prog, events):
    from inference.deriv.obsinfo import dllsteps, obsinfo
    kind = prog['kind']
    mode = np.array(prog['mode'], float)
    n = len(mode)
    script = prog.get('script')
    count = [0]
    log = [True]
    big = [0.]
    mx = prog['f']['m'] if script is not None else None
    L = None if script is not None else loglike(prog['f'])
    if L is not None:
        mx = float(L(mode))

    def f(x):
        x = np.array(x, float)
        count[0] += 1
        boom = False
        if script is not None:
            if (x == mode).all() and prog['maxll'] is False and count[0] == 1:
                v, w = mx, 'max'
            else:
                j = min(count[0] - 1 - (prog['maxll'] is False), len(script) - 1)
                w = script[j]
                v = {'above': mx + 1., 'flat': mx, 'hit': mx - prog['dll'], 'miss': mx - 3 * prog['dll'] * (1 + count[0]), 'raise': 0.}[w]
                boom = w == 'raise'
        else:
            v = float(L(x))
            boom = prog['boom'] is not None and count[0] == prog['boom']
        if log[0]:
            big[0] = max(big[0], abs(v))
            events.append({'op': 'eval', 'x': [j + 1 for j in range(n) if x[j] != mode[j]], 'v': key(v), 'boom': boom})
            if len(events) > 6000:
                log[0] = False
        if boom:
            raise Boom()
        return v

    def arr(v):
        v = np.array(v, float)
        if prog['rep'] == 'list':
            return [float(z) for z in v]
        if prog['rep'] == 'strided':
            w = np.zeros((len(v), 3))
            w[:, 1] = v
            return w[:, 1]
        return v
    mle, second = arr(mode), arr(prog['g'])
    c0 = ([float(z) for z in mle], [float(z) for z in second])
    kw = {}
    if prog['maxll'] is not False:
        kw['maxll'] = mx
    cfg = {'kind': kind, 'dim': n, 'max': key(mx), 'script': script is not None, 'expect': prog['expect'], 'maxit': prog.get('maxit') or 20}
    if kind == 'steps':
        if prog['dll'] is not None:
            kw['dll'] = prog['dll']
        if prog['maxit']:
            kw['maxiter'] = prog['maxit']
        if prog['tol']:
            kw['tol'] = prog['tol']
        r, x = call(dllsteps, f, mle, second, **kw)
        e = {'op': 'end', 'r': type(x).__name__ if r == 'err' else r}
        if r == 'ok':
            x = np.atleast_1d(np.array(x, float))
            e['nz'] = bool(np.all(np.isfinite(x)) and np.all(x != 0))
            tol = prog['tol'] or .01
            dll = 1. if prog['dll'] is None else prog['dll']
            e['d'] = []
            for j in range(len(x)):
                if L is None:
                    e['d'].append(0)
                    continue
                y = mode.copy()
                if j < n:
                    y[j] += x[j]
                e['d'].append(clampint(1e3 * abs(mx - float(L(y)) - dll) / (tol + 1e-13 * (abs(mx) + dll))))
        events.append(e)
    else:
        it = 2 if prog['niter'] is None else prog['niter']
        if prog['niter'] is not None:
            kw['niter'] = it
        r, x = call(obsinfo, f, mle, second, **kw)
        e = {'op': 'end', 'r': type(x).__name__ if r == 'err' else r, 'need': 2 * (it + 1) * (n + n * (n - 1) // 2) + (prog['maxll'] is False)}
        if r == 'ok':
            info, err = np.array(x[0], float), np.array(x[1], float)
            e['shape'] = info.shape == err.shape == (n, n)
            if e['shape']:
                e['sym'] = bool((info == info.T).all())
                e['err'] = bool((err == err.T).all() and (err >= 0).all() and (it > 0 or (err == 0).all()))
                A = np.array(prog['f']['A'], float)
                h = np.abs(np.array(prog['g'], float)) * .707 ** it
                q = .707 ** it
                e['d'] = []
                if prog['exact']:
                    base = 2e-14 * (2. ** it) * (big[0] + 1)
                    dr = np.array([base / h[j] ** 2 / A[j, j] for j in range(n)])     # relative error of the diagonal
                    for a in range(n):
                        for b in range(n):
                            s = math.sqrt(A[a, a] * A[b, b])
                            if a == b:
                                tol = base / h[a] ** 2 + 1e-13 * s
                            else:
                                tol = s * (base / q ** 2 + 4 * (dr[a] + dr[b]) + 1e-13)
                            e['d'].append(clampint(1e3 * abs(info[a, b] - A[a, b]) / tol))
            else:
                e.update(sym=False, err=False, d=[])
        events.append(e)
    events.append({'op': 'kept', 'ok': ([float(z) for z in mle], [float(z) for z in second]) == c0})
    return cfg


main(run, '*')
