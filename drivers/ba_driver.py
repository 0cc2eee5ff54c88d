"""Histories of requests to the Bretthorst algorithm, with the repository's own C code
for the linear algebra (compiled by the check, found in VP_EXT)."""
import os, sys
import numpy as np
from drvlib import main, call

sys.path.insert(0, os.environ['VP_EXT'])
import vba                                              # noqa: E402
from inference.gauss import vecba                       # noqa: E402
vecba.vba = vba


def H(x):
    """Hundredths."""
    x = float(x)
    return int(round(100. * x)) if abs(x) < 1e6 else 10 ** 8


def run(prog, events):
    c = prog['cfg']
    x = np.array([d['x'] for d in c['data']], float)
    y = np.array([d['y'] for d in c['data']], float)
    z = np.array([d['z'] for d in c['data']], float)

    def basis(k, p, q, x, aux):
        if 9 in (p, q) and k == c.get('bad', 1):
            raise ZeroDivisionError('basis')
        return (1 + p * x if k == 1 else x + q) + (aux if c['aux'] else 0)

    data = np.array([x, y, 1 / z]).T.copy()
    if prog['form'] == 'obj':
        class Obj:
            std_smpls = y * z
            nl = None

            def __init__(self):
                self.std_basis = [lambda k=k: z * basis(k, self.nl[0], self.nl[1], x, self.nl[0] - self.nl[1])
                                  for k in range(1, c['m'] + 1)]

            def set_nonlin(self, *a):
                self.nl = a
        o = Obj()
        ba = vecba.BAObj(o)
        kept = o.std_smpls.copy()
        same = lambda: bool((o.std_smpls == kept).all())
    else:
        if c['aux']:
            fs = [lambda p, q, x, aux, k=k: basis(k, p, q, x, aux) for k in range(1, c['m'] + 1)]
            su = lambda p, q, x: p - q
        else:
            fs = [lambda p, q, x, k=k: basis(k, p, q, x, 0) for k in range(1, c['m'] + 1)]
            su = None
        if prog['form'] == 'one':
            data = data[:, :2].copy()
            kept = data.copy()
            ba = vecba.BA(fs, data, 1. / c['data'][0]['z'], su)
        else:
            kept = data.copy()
            ba = vecba.BA(fs, data, setup=su)
        same = lambda: bool((data == kept).all())
        # What is not data for the algorithm is rejected.
        for d, s, ok in ((kept[:, :2], None, False), (np.array([x, y, 1 / z]).T, 1., False), (kept[:, :2], .5, True)):
            r, v = call(vecba.BA, fs, d.copy(), s)
            events.append({'op': 'make', 'r': r, 'ok': ok})
    for op in prog['ops']:
        P = [float(v) if op.get('f') else v for v in op['p']]
        f = {'marg': ba.marg_stats, 'ampl': ba.amplitudes, 'resid': ba.residuals, 'covar': ba.covar}[op['op']]
        r, v = call(f, *P)
        e = {'op': op['op'], 'p': op['p'], 'r': r, 'kept': same()}
        if r == 'ok':
            if op['op'] == 'marg':
                q, s, j = v
                e.update(Q=H(q), S=H(s), J=int(round(min(1e9, float(j) ** -2))))
            elif op['op'] == 'covar':
                e['v'] = [[H(t) for t in row] for row in np.asarray(v)]
            else:
                e['v'] = [H(t) for t in np.asarray(v)]
        events.append(e)


main(run, 'C26')
