"""Evaluates and samples piecewise-linear densities."""
import os, sys, math
import numpy as np
from drvlib import main, call
sys.path.insert(0, os.environ['VP_EXT'])
import _ppssampler                                      # noqa: E402,F401
from mtstream import set_stream, ahead                  # noqa: E402
from inference.mc.pwlinear import PWLinear              # noqa: E402


def number(x, big=2000000000):
    """An integer the specification can hold."""
    x = float(x)
    return int(round(x)) if math.isfinite(x) and abs(x) < big else big


def run(prog, events):
    c = prog['cfg']
    n = len(c['v'])
    lo, unit = c['lo'], c['unit']
    pos = [lo + unit * sum(c['w'][:k]) for k in range(n)]
    vals = [v * c['scale'] * (1 + e * 2. ** -50) for v, e in zip(c['v'], c['near'])]
    form = c['form']
    if c['log']:
        vals = [math.log(v) if v > 0 else -math.inf for v in vals]
        form = 'array' if form == 'int' else form
    if form == 'int' and all(v == int(v) for v in vals):
        vals = np.array([int(v) for v in vals])
    elif form in ('array', 'int'):
        vals = np.array(vals)
    elif form == 'tuple':
        vals = tuple(vals)
    absc = np.array(pos) if form != 'list' else list(pos)
    before = [float(v) for v in vals]
    kw = dict(vals=vals)
    if c['uni'] and c['call'] == 0:
        kw.update(lo=lo, hi=pos[-1])
    else:
        kw.update(absc=absc)
    bad = c['bad']
    if bad != 'none':
        kw = dict(vals=vals)
        if bad == 'lo only':
            kw['lo'] = lo
        elif bad == 'hi only':
            kw['hi'] = pos[-1]
        elif bad == 'long absc':
            kw['absc'] = list(pos) + [pos[-1] + 1.]
        elif bad == 'short absc':
            kw['absc'] = list(pos)[:-1]
        elif bad == 'step':
            kw.update(lo=lo, hi=pos[-1], step='log')
    if c['log']:
        kw['logvals'] = True
    if c['cn'] or not c['log']:
        kw['cut'] = c['cn'] / c['cd']

    def kept():
        return [float(v) for v in vals] == before and [float(x) for x in absc] == pos
    with np.errstate(all='ignore'):
        r, p = call(PWLinear, **kw)
    events.append(dict(op='make', r=r, valid=bad == 'none', kept=kept()))
    if r != 'ok':
        return
    for op in prog['ops']:
        k = op['op']
        if k in ('pdf', 'out'):
            if 'lo' not in kw:
                continue                                # not implemented for arbitrary points
            if k == 'out':
                x = lo - .5 * unit if op['side'] < 0 else pos[-1] + .5 * unit
                e = dict(op='out')
            else:
                x = pos[op['k'] - 1] + unit * op['q'] / 4.
                e = dict(op='pdf', k=op['k'], q=op['q'])
            if op['vec']:
                e['r'], v = call(p.pdf, [lo, x])
                v = v[1] if e['r'] == 'ok' and len(v) == 2 else math.nan
            else:
                e['r'], v = call(p.pdf, x)
            e['v'] = number(v * unit * 1e6) if e['r'] == 'ok' else -1
        else:
            m = op['n']
            e = dict(op='sample', n=1 if m is None else m)
            set_stream(op['seed'], op['words'])
            old = np.random.get_state()
            with np.errstate(all='ignore'):
                e['r'], v = call(p.sample) if m is None else call(p.sample, m)
            words, e['used'] = ahead(old, np.random.get_state(), 120)
            e['js'] = [w >> 2 for w in words]
            e['xs'] = []
            if e['r'] == 'ok':
                xs = [v] if m is None else list(v)
                e['xs'] = [number((float(x) - lo) / unit * 1000) for x in xs]
        e['kept'] = kept()
        events.append(e)


main(run, 'C28')
