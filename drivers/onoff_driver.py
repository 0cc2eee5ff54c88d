"""On/off count analyses."""
import math
from fractions import Fraction
import numpy as np
from drvlib import main, call, key
from fenc import clampint, CAP


def dev(got, ref, tol):
    try:
        got = float(got)
    except (TypeError, ValueError):
        return CAP
    if got == ref:
        return 0
    if not (math.isfinite(got) and math.isfinite(ref)):
        return CAP
    return clampint(1e3 * abs(got - ref) / tol)


def lse(v):
    m = max(v)
    return m + math.log(math.fsum(math.exp(x - m) for x in v))


class Ref:
    """Closed forms for one data set."""
    def __init__(self, non, ton, noff, toff):
        self.non, self.noff, self.ton, self.toff = non, noff, float(ton), float(toff)
        lt = math.log1p(self.toff / self.ton)
        lg = math.lgamma
        lw = [i * lt + lg(non + noff - i + 1) - lg(non - i + 1) for i in range(non + 1)]
        if non + noff <= 60:
            x = 1 + Fraction(self.toff) / Fraction(self.ton)
            w, cur = [], Fraction(1)
            for i in range(non + 1):
                w.append(x ** i * Fraction(math.factorial(non + noff - i), math.factorial(non - i)))
            tot = sum(w)
            self.c = [float(z / tot) for z in w]
        else:
            z = lse(lw)
            self.c = [math.exp(a - z) for a in lw]

    def logt(self, s):
        """Log terms of the series for the marginal likelihood."""
        stt = s * (self.ton + self.toff)
        n, m = self.non, self.noff
        return [(k * math.log(stt) if k else 0.) + math.lgamma(n + m - k + 1) - math.lgamma(n - k + 1) - math.lgamma(k + 1) - s * self.ton
                for k in range(n + 1 if s > 0 else 1)]

    def offset(self):
        return max(self.logt(max(0., self.non / self.ton - self.noff / self.toff)))

    def acc(self, s):
        """Absolute accuracy of a log term (the log gamma has 2e-10)."""
        t = s * (self.ton + self.toff)
        return 2e-9 + 1e-14 * (1 + self.non * abs(math.log(t) if t > 0 else 0.) + s * self.ton + (self.non + self.noff) * math.log(self.non + self.noff + 2))

    def pdf(self, s):
        x = s * self.ton
        v = 0.
        for i, c in enumerate(self.c):
            if x == 0:
                v += c * (i == 0)
            elif c > 0:
                v += c * math.exp(i * math.log(x) - x - math.lgamma(i + 1))
        return v * self.ton


def run(prog, events):
    from inference.count import onoff
    from inference.count.onoff import OnOff
    objs, refs, given, cfg = [], [], [], []
    last = {}
    for k, d in enumerate(prog['d']):
        non, noff, ton, toff, cut = d['non'], d['noff'], d['ton'], d['toff'], d['cut']
        R = Ref(non, ton, noff, toff)
        refs.append(R)
        cfg.append({'non': non, 'noff': noff, 'p': d['p'], 'q': d['q'], 'sm': d['sm']})
        kw = {} if cut is None else {'cutoff': cut}
        r, o = call(OnOff, non, ton, noff, toff, **kw)
        objs.append(o)
        e = {'op': 'new', 'o': k + 1, 'r': r, 'd': 0, 'same': True}
        events.append(e)
        if r != 'ok':
            return {'d': cfg}
        e['same'] = (o.on_cts, o.on_intvl, o.off_cts, o.off_intvl) == (non, ton, noff, toff) and o.cutoff == (1e-5 if cut is None else cut)
        sh = max(0., non / ton - noff / toff)
        lt = R.logt(sh)
        e['d'] = dev(o.offset, max(lt), 2 * R.acc(sh))
        if lt[0] >= max(lt) - 1e-6:           # the leading term may be scaled as at s = 0
            e['d'] = min(e['d'], dev(o.offset, R.logt(0.)[0], 2 * R.acc(sh)))
    for q in prog['ops']:
        k = q['o'] - 1
        o, R, d = objs[k], refs[k], prog['d'][k]
        cut = 1e-5 if d['cut'] is None else d['cut']
        op = q['q']
        e = {'o': q['o'], 'op': op, 'r': 'ok', 'd': 0}
        if op == 'all':
            r, x = call(o.pnsig)
            e['r'] = r
            e['p'], e['k'], e['nn'] = [], [], True
            if r == 'ok':
                x = np.atleast_1d(x)
                last[k] = x
                e['p'] = [clampint(1e6 * z) for z in x]
                e['k'] = [key(z) for z in x]
                e['nn'] = bool((x >= 0).all() and abs(math.fsum(x) - 1) < 1e-12 * (len(x) + 2))
                if len(x) == len(R.c):
                    e['d'] = max(dev(a, b, (1e-12 if R.non + R.noff <= 60 else 1e-9) * (b + 1e-9)) for a, b in zip(x, R.c))
        elif op == 'n':
            n = e['n'] = q['n']
            r, x = call(o.pnsig, np.int64(n) if q.get('np') else n)
            e['r'] = type(x).__name__ if r == 'err' else r
            if r == 'ok' and np.ndim(x) != 0:
                e['r'] = 'array'
            if e['r'] == 'ok':
                e['p'], e['k'] = clampint(1e6 * float(x)), key(x)
                if 0 <= n <= R.non:
                    e['d'] = dev(x, R.c[n], (1e-12 if R.non + R.noff <= 60 else 1e-9) * (R.c[n] + 1e-9))
        elif op in ('mp', 'mpv', 'ml', 'mlv'):
            s = q['s'] if op.endswith('v') else q['s'][:1]
            e['op'] = op[:2]
            arg = np.array(s, q.get('dt', 'float')) if op.endswith('v') else s[0]
            f = o.sigmp if e['op'] == 'mp' else o.siglml
            back = np.array(arg, copy=True)
            r, x = call(f, arg)
            e['r'] = type(x).__name__ if r == 'err' else r
            e['uf'] = 'no'
            e['a'] = [key(z) for z in s]
            e['k'] = []
            if r == 'ok':
                x = np.atleast_1d(x)
                e['k'] = [key(z) for z in x]
                if not (np.array(arg) == back).all():
                    e['r'] = 'argument modified'
                if op.endswith('v') and len(s) != 1 and x.dtype.kind != 'f':
                    e['r'] = 'not floats'
            if e['op'] == 'mp':
                if r == 'ok' and len(x) == len(s):
                    for z, a in zip(x, s):
                        ref = R.pdf(a)
                        e['d'] = max(e['d'], dev(z, ref, (4e-9 + 1e-13 * a * R.ton) * ref + 1e-200))
            else:
                for j, a in enumerate(s):
                    lt = R.logt(a)
                    top = max(lt) - o.offset
                    if a > 0:
                        if abs(top) > 700.1:
                            e['uf'] = 'yes'
                        elif abs(top) > 699.9 and e['uf'] == 'no':
                            e['uf'] = 'may'
                    if r == 'ok' and len(x) == len(s):
                        z, m = float(x[j]), max(lt)
                        full = lse(lt) - o.offset
                        tol = R.acc(a)
                        low = math.log(cut) + m if cut > 0 else -math.inf
                        kept = lse([v for v in lt if v >= low - 1e-6]) - o.offset
                        e['d'] = max(e['d'], 0 if kept - tol <= z <= full + tol else max(dev(z, kept, tol), 1001))
        elif op == 'raw':                                    # the functions below the class
            s, off = q['s'][0], (q['off'] if q['off'] is not None else R.offset())
            lt = R.logt(s)
            m = max(lt)
            if abs(m - off) > 650 and s > 0 or (R.non + R.noff == 0 and s == 0):
                continue
            r, x = call(onoff.slmliked, s, R.non, d['ton'], R.noff, d['toff'], off, cut)
            r2, y = call(onoff.slmlike, s, R.non, d['ton'], R.noff, d['toff'], off, cut)
            e['r'] = 'ok' if r == r2 == 'ok' and x[3] == 0 and y[2] == 0 else 'failed'
            e['nt'] = 0
            if e['r'] == 'ok':
                low = math.log(cut) + m if cut > 0 else -math.inf
                kept = [v for v in lt if v >= low - 1e-6]
                tol = R.acc(s)
                om = max(0., 1 - math.exp(lse(kept) - lse(lt)))
                e['nt'] = max(int(x[2]), int(y[1]))
                for z in (float(x[0]), float(y[0])):
                    e['d'] = max(e['d'], 0 if lse(kept) - off - tol <= z <= lse(lt) - off + tol else 1001)
                if s > 0:
                    w = [math.exp(v - m) for v in lt]
                    t = math.fsum(w)
                    g = [v * (j / s - R.ton) for j, v in enumerate(w)]
                    der = math.fsum(g) / t
                    gt = tol * math.fsum(map(abs, g)) / t + 3 * om * max(abs(j / s - R.ton) for j in range(R.non + 1))
                else:
                    n, mm = R.non, R.noff
                    der = (R.ton + R.toff) * (n / float(n + mm)) - R.ton
                    gt = 4 * tol * (R.ton + R.toff)
                e['d'] = max(e['d'], dev(x[1], der, gt))
        elif op == 'vec':                                    # several channels
            ch = q['ch']
            n_on, n_off = [c[0] for c in ch], [c[1] for c in ch]
            s = [c[2] for c in ch]
            A = [onoff.slml_offset(a, d['ton'], b, d['toff']) for a, b in zip(n_on, n_off)]
            r, off = call(onoff.vslml_offset, n_on, d['ton'], n_off, d['toff'])
            r2, v = call(onoff.vslmlike, s, n_on, d['ton'], n_off, d['toff'], A, cut)
            e['r'] = 'ok' if r == r2 == 'ok' else 'failed'
            e['same'] = False
            if e['r'] == 'ok':
                B = [onoff.slmlike(s[j], n_on[j], d['ton'], n_off[j], d['toff'], A[j], cut) for j in range(len(ch))]
                e['same'] = list(map(float, off)) == list(map(float, A)) and len(v) == len(ch) and all(b[2] != 0 or float(v[j]) == float(b[0]) for j, b in enumerate(B))
        elif op == 'scrib':
            if k not in last:
                continue
            x = last[k]
            how = q.get('how', 0)
            if how == 0:
                x[:] = .5
            elif how == 1:
                x[0] = 7.
            else:
                x *= 2.
        events.append(e)
    return {'d': cfg}


main(run, '*')
