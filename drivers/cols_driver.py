"""Reading columns of data from open files."""
import io
import os
import tempfile
import numpy as np
from drvlib import main, call


def neg(s):
    return -int(s)


TYPES = dict(int=int, float=float, str=str, neg=neg)


def text(prog):
    out = []
    for words, (lead, seps, trail) in zip(prog['lines'], prog['ws']):
        s = lead
        for k, w in enumerate(words):
            s += w['s'] + (seps[k % len(seps)] if k + 1 < len(words) else '')
        out.append(s + trail)
    nl = prog['nl']
    return nl.join(out) + (nl if prog['last'] and out else '')


def cell(z):
    if isinstance(z, (str, np.str_)):
        return {'k': 's', 'v': 0, 's': str(z)}
    if isinstance(z, (bool, np.bool_)):
        return {'k': '?', 'v': 0, 's': repr(z)}
    if isinstance(z, (int, np.integer)):
        return {'k': 'i', 'v': int(z), 's': ''}
    if isinstance(z, (float, np.floating)):
        v = round(1000 * float(z))
        return {'k': 'f' if v / 1000. == float(z) else '?', 'v': v, 's': ''}
    return {'k': '?', 'v': 0, 's': repr(z)[:40]}


def run(prog, events):
    from inference.utils.ioutils import read_column_vectors
    s = text(prog)
    name = None
    if prog['file'] == 'disk':
        fd, name = tempfile.mkstemp(dir=os.getcwd())
        os.close(fd)
        with open(name, 'w', newline='') as f:
            f.write(s)
        f = open(name)
    elif prog['file'] == 'bytes':
        f = io.TextIOWrapper(io.BytesIO(s.encode()))
    else:
        f = io.StringIO(s)
    try:
        for o in prog['ops']:
            if o['op'] == 'skip':
                f.readline()
                events.append({'op': 'skip'})
                continue
            ts = [TYPES[t] for t in o['ts']]
            ts = tuple(ts) if o['tup'] else ts
            keep = list(ts)
            kw = {} if o['arr'] is None else {'as_arrays': o['arr']}
            r, x = call(read_column_vectors, f, ts, **kw)
            e = {'op': 'read', 'ts': o['ts'], 'r': r, 'cols': [], 'kind': True}
            if r == 'ok':
                e['cols'] = [[cell(z) for z in c] for c in x]
                want = list if o['arr'] is False else np.ndarray
                e['kind'] = all(isinstance(c, want) for c in x)
            events.append(e)
            events.append({'op': 'kept', 'ok': list(ts) == keep})
    finally:
        if name:
            f.close()
            os.remove(name)
    return {'lines': prog['lines']}


main(run, 'C29')
