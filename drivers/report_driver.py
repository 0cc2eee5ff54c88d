"""Reports and default plots of inferences, read back from the text and the figure."""
import ast
import contextlib
import io
import re
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt                         # noqa: E402
import numpy as np                                      # noqa: E402
from drvlib import main, call, key                      # noqa: E402

LINE = re.compile(r'^\s*(\w+)\s*=\s*(\S+)(?:\s+\((.*)\))?\s*$')
AXIS = re.compile(r'^\s*(\w+) in \[\s*(\S+?)\s*,\s*(\S+?)\s*\]; (\d+) (linear|log) steps\s*$')


def lines(text):
    out = []
    for l in text.split('\n'):
        if l.strip():
            m = LINE.match(l)
            try:
                out.append({'n': m.group(1), 'v': key(float(m.group(2))), 'd': m.group(3) or ''})
            except (AttributeError, ValueError):
                out.append({'n': '?' + l[:40], 'v': [], 'd': ''})
    return out


def axes(text):
    out = []
    for l in text.split('\n')[1:]:
        if l.strip():
            m = AXIS.match(l)
            try:
                out.append({'n': m.group(1), 'a': int(float(m.group(2)) * 4), 'b': int(float(m.group(3)) * 4), 'c': int(m.group(4)),
                            'k': {'linear': 'lin', 'log': 'log'}[m.group(5)]})
            except (AttributeError, ValueError):
                out.append({'n': '?' + l[:40], 'a': 0, 'b': 0, 'c': 0, 'k': '?'})
    return out


def make(cfg):
    from inference.pie import RealParam, SignalModel, PredictorSet, SampledGaussian, MaxLikeInference, ChisqrInference
    names = cfg['names']
    ns = {n: RealParam(v, d) for n, v, d in zip(names, cfg['vals'], cfg['docs'])}
    ns['signal'] = lambda self, x: 0. * x
    Sig = type(SignalModel)('Sig', (SignalModel,), ns)
    Pred = type(PredictorSet)('Pred', (PredictorSet,), {'data': SampledGaussian([0., 1.], [0., 1.], [1., 1.])})
    sign = 1. if cfg['max'] else -1.

    def score(self):
        t = 0.
        for k, n in enumerate(names):
            p = getattr(self, n)
            if n in [q.name for q in self.varying_params]:
                t -= (float(p) - .5) ** 2
            elif n in [q.name for q in self.stepping_params]:
                t += (k + 1) * float(p) * (7 - float(p))
        return sign * t * cfg['scale'] + cfg['off']
    base = MaxLikeInference if cfg['max'] else ChisqrInference
    return type(base)('Inf', (base, Sig, Pred), {'score': score})()


def run(prog, events):
    cfg = prog['cfg']
    names = cfg['names']
    o = make(cfg)
    plt.close('all')
    kept, what = [], []

    def now():
        return {'v': [key(float(getattr(o, n))) for n in names], 'fx': [p.name for p in o.fixed_params],
                'sp': [p.name for p in o.stepping_params], 'vy': [p.name for p in o.varying_params]}

    def vals(k):
        return [] if what[k] == 'snap' else [key(float(z)) for z in np.ravel(kept[k].values)]

    def text(f):
        b = io.StringIO()
        with contextlib.redirect_stdout(b):
            r, x = call(f)
        return r, x, b.getvalue()
    c = {'names': names, 'docs': cfg['docs'], 'now': now()}
    for op in prog['ops']:
        k = op['op']
        e = {'op': k, 'p': op.get('p', 1)}
        if k == 'set':
            p = getattr(o, names[op['p'] - 1])
            e['ax'] = {'a': 0, 'b': 0, 'n': 0, 'k': 'no'}
            if op['how'] == 'fix':
                r, x = call(p.fix, op['v'])
            elif op['how'] == 'vary':
                r, x = call(p.vary, .25, .5, (-4., 4.))
            else:
                r, x = call(p.linstep if op['how'] == 'lin' else p.logstep, op['a'] / 4., op['b'] / 4., op['n'])
                if r == 'ok':
                    e['ax'] = {'a': op['a'], 'b': op['b'], 'n': op['n'], 'k': op['how']}
        elif k == 'check':      # is the value away from the bounds?
            p = getattr(o, names[op['p'] - 1])
            p.range(-1e3, 1e3)
            e.update(vy=op['vy'], v=op['v'], a=op['a'], b=op['b'], pc=op['pc'], yes=False)
            if op['vy']:
                call(p.vary, op['v'] / 4., .5, (op['b'] / 4., op['a'] / 4.) if op['flip'] else (op['a'] / 4., op['b'] / 4.))
            else:
                call(p.fix, op['v'] / 4.)
            r, x = call(p.check) if op['pc'] == 1 else call(p.check, op['pc'])
            if r == 'ok':
                e['yes'] = bool(x)
            p.range(-1e3, 1e3)
        elif k == 'snap':
            r, x = call(o.get_params)
            if r == 'ok':
                kept.append(x)
                what.append('snap')
        elif k == 'grid':
            n = np.prod([p.steps for p in o.stepping_params] or [0])
            if not 0 < n <= (12 if o.varying_params else 60):
                continue
            vg = bool(o.varying_params) and op['vg']
            r, x = call(o.fit, vargrid=vg)
            e['vg'] = vg
            if r == 'ok':
                kept += list(x) if vg else [x]
                what += ['grid', 'vec'] if vg else ['grid']
                e['y'] = [vals(-2), vals(-1)] if vg else [vals(-1)]
            else:
                e['y'] = []
        elif k == 'show':
            r, x, s = text(o.show)
            e['lines'] = lines(s)
        elif k == 'pshow':
            r, x = call(getattr(o, names[op['p'] - 1]).show)
            e['lines'] = lines(x) if r == 'ok' else []
        elif k == 'status':
            r, x, s = text(o.show_status)
            e.update(fx=['?'], sp=['?'], vy=['?'])
            for l in s.split('\n'):
                m = re.match(r'^\s*(\w+)[^:]*:\s*(\[.*\])\s*$', l)
                if m and m.group(1).lower() in ('fixed', 'stepping', 'varying'):
                    e[{'f': 'fx', 's': 'sp', 'v': 'vy'}[m.group(1).lower()[0]]] = ast.literal_eval(m.group(2))
        elif k in ('text', 'plot'):
            if k == 'plot':
                j = [q for q, w in enumerate(what) if w == 'grid']
            else:
                j = list(range(len(what)))
            if not j:
                continue
            j = j[op['k'] % len(j)]
            e['k'] = j + 1
            if k == 'text':
                r, x = call(str, kept[j])
                e['lines'] = [] if r != 'ok' else lines(x) if what[j] == 'snap' else axes(x)
            else:
                kw = {}
                e['over'] = op['over'] and bool(plt.get_fignums())
                if e['over']:
                    kw['overlay'] = True
                e['ylab'] = op['ylab'] if kept[j].values.ndim == 1 else ''
                if e['ylab']:
                    kw['ylabel'] = e['ylab']
                before = list(plt.get_fignums())
                axs = plt.gca() if e['over'] else None
                old = list(axs.lines) if e['over'] else []
                old2 = old + list(axs.collections) if e['over'] else []
                r, x, s = text(lambda: kept[j].plot(**kw))
                e['newfig'] = len([f for f in plt.get_fignums() if f not in before])
                e['labels'], e['x'], e['y'], e['nline'] = ['', ''], [], [], 0
                # an overlay keeps what is there
                e['lost'] = len([q for q in old2 if q not in plt.gca().lines and q not in plt.gca().collections])
                if r == 'ok':
                    ax = plt.gca()
                    e['labels'] = [ax.get_xlabel(), ax.get_ylabel()]
                    new = [l for l in ax.lines if l not in old]
                    e['nline'] = len(new)
                    a = kept[j].axes[0]
                    if new and kept[j].values.ndim == 1:
                        p = op_axis(prog, e, a)
                        e['x'] = [int(round((float(z) - p[0]) / ((p[1] - p[0]) / (p[2] - 1)) * 10000)) for z in new[-1].get_xdata()]
                        e['y'] = [key(float(z)) for z in new[-1].get_ydata()]
                else:
                    e['msg'] = str(x)[:150]
                    r = type(x).__name__ if r == 'err' else r
                if len(plt.get_fignums()) > 4:
                    plt.close('all')
        else:
            raise RuntimeError(k)
        e['r'] = r
        if r == 'err':
            e['err'] = repr(x)[:200]
        e['now'] = now()
        n = len(kept) - (len(e['y']) if k == 'grid' and r == 'ok' else 1 if k == 'snap' and r == 'ok' else 0)
        e['same'] = [vals(q) for q in range(n)]
        events.append(e)
    return c


def op_axis(prog, e, a):
    """Limits and number of steps of a grid over one parameter (its text is judged separately)."""
    return float(a[1]), float(a[2]), int(a[3])


main(run, 'C33')
