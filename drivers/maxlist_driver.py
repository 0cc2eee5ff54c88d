"""Update histories of a labelled maxima list."""
import math
from drvlib import main, call


def run(prog, events):
    from inference.grid.grid1d import LabeledMaxList
    u, off = prog['unit'], prog['off']
    rng = lambda R: math.exp(u * R / 2.)
    kw = {}
    if prog['n'] >= 0:
        kw['nmax'] = prog['n']
    if prog['r'] >= 0:
        kw['dynrange'] = rng(prog['r'])
    l = LabeledMaxList(**kw)
    twin = LabeledMaxList(**kw)      # another list must not interfere
    lab = 0
    for h in prog['h']:
        e = {'op': 'update' if h[0] == 'u' else 'limit'}
        if h[0] == 'u':
            lab += 1
            lb = lab % prog['dup'] if prog.get('dup') else lab      # labels need not be distinct
            e['q'], e['lab'] = h[1], lb
            e['r'], x = call(l.update, off + u * h[1], (lb, off, 'tag'))
            if lab % 3 == 0:
                call(twin.update, off + u * (h[1] + 7), (lab + 1000, off, 'tag'))
        else:
            e['rr'] = h[1]
            e['r'], x = call(l.limitRange, rng(h[1]))
        items = [l[j] for j in range(len(l))]
        e['len'] = len(l)
        e['l'] = [[round((q - off) / u), lb[0]] for q, lb in items]
        e['tag'] = all(lb[1:] == (off, 'tag') for q, lb in items) and [tuple(x) for x in l] == [tuple(x) for x in items]
        events.append(e)
    return {'n': prog['n'], 'r': prog['r']}


main(run, 'C12')
