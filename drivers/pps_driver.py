"""Samples finite populations, with the repository's own C samplers (compiled by the check,
found in VP_EXT) and NumPy's generator put into chosen states."""
import os, sys
import numpy as np
from drvlib import main, call

sys.path.insert(0, os.environ['VP_EXT'])
import _ppssampler                                      # noqa: E402,F401
from inference.mc.population import Population          # noqa: E402
from mtstream import set_stream, ahead                  # noqa: E402


def run(prog, events):
    c = prog['cfg']
    ws = c['ws']
    names = [('item', k) for k in range(c['np'])]
    wf = [w * c['scale'] for w in ws]
    if not ws:
        p = Population(c['np']) if c['form'] else Population(names)
        names = list(range(c['np'])) if c['form'] else names
    elif c['form'] == 0:
        arr = np.array(wf)
        p = Population(weights=arr)
        names = list(range(c['np']))
    else:
        arr = list(wf)
        p = Population(list(names), arr)
    if ws:
        for d in (-1, 1):
            m = c['np'] + d
            e = {'op': 'declare', 'n': m}
            e['r'] = call(Population, [('item', j) for j in range(m)], list(wf))[0]
            e['kept'] = True
            events.append(e)
    for op in prog['ops']:
        k = op['op']
        e = {'op': k, 'n': op.get('n', 0)}
        set_stream(op['seed'], op.get('words', []))
        old = np.random.get_state()
        if k == 'max':
            e['r'], v = call(p.max_subset)
            e['v'] = int(v) if e['r'] == 'ok' else -1
            new = np.random.get_state()
        else:
            f = {'sample': p.sample, 'pps': p.subset_pps, 'pps5': p.subset_pps5}[k]
            e['r'], v = call(f, op['n'])
            new = np.random.get_state()
            words, e['used'] = ahead(old, new, 600)
            e['js'] = [w >> 2 for w in words] if k == 'sample' or (k == 'pps5' and ws) else []
            e['us'] = [] if e['js'] else [a >> 17 for a in words[:len(words) // 2 * 2:2]]
            if e['r'] == 'ok':
                idx = {repr(x): j + 1 for j, x in enumerate(names)}
                e['items'] = [idx.get(repr(x if isinstance(x, tuple) else int(x)), 0) for x in v]
        e['kept'] = (not ws or [float(x) for x in arr] == wf) and new[3:] == old[3:] and list(p.items) == names
        events.append(e)


main(run, 'C27')
