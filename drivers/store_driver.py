"""Executes histories of store operations; the files are read back independently of the stores."""
import os, pickle, shutil, zipfile
import numpy as np
from drvlib import main, call

ROOT = os.path.join(os.getcwd(), 'st')


class Unpicklable:
    def __reduce__(self):
        raise RuntimeError('cannot be pickled')


def vlen(n):
    return np.array(['x' * (k % 5) for k in range(n)])


class Sub(np.ndarray):
    """A subclass of ndarray; its values are stored like any other."""


def arrays(k):
    """The k-th distinct array value."""
    m = k % 14
    if m == 12:
        return np.array([[k, 1.5]]).view(Sub)
    if m == 13:
        return np.array([(k, 2.5)], dtype=[('a', 'i4'), ('b', 'f8')]).view(np.recarray)
    if m == 0:
        return np.arange(k, k + 5)
    if m == 1:
        return np.full((2, 3), float(k))
    if m == 2:
        return np.asfortranarray(np.arange(6.).reshape(2, 3) + k)
    if m == 3:
        return np.array(k)
    if m == 4:
        return np.array([], dtype='S%d' % k)
    if m == 5:
        return np.array([k, 1j])
    if m == 6:
        return np.array([{'k': k}, None, 'x'], dtype=object)
    if m == 7:
        return np.array([(k, 1.5)], dtype=[('a', 'i4'), ('b', 'f8')])
    if m == 8:
        return np.array([True, False] * k)
    if m == 9:
        return np.array(['value %d' % k, 'u\u00e9'])
    if m == 10:
        return np.array([np.nan, np.inf, -0.0, k])
    return np.arange(3000 + k)[::2]


def anyvals(k):
    m = k % 10
    if m == 0:
        return arrays(k)
    if m == 1:
        return {'k': k, 'n': None}
    if m == 2:
        return 'string %d' % k
    if m == 3:
        return (k, [1, 2], frozenset([3]))
    if m == 4:
        return [k, {'nested': (None, 2.5)}]
    if m == 5:
        return float(k)
    if m == 6:
        return np.float64(k)
    if m == 7:
        return bytes([k % 256, 0, 255, k // 256])
    if m == 8:
        return complex(k, 1)
    return None if k == 9 else k


def fp(v):
    if isinstance(v, np.ndarray):
        body = repr(v.tolist()) if v.dtype == object else np.ascontiguousarray(v).tobytes()
        dt = v.dtype if v.dtype.names is None else np.dtype([(n, v.dtype[n]) for n in v.dtype.names])
        return ('nd', str(dt), v.shape, body)
    return (type(v).__name__, repr(v))


def inplace(v, k):
    """Change the mutable value v in place."""
    if isinstance(v, np.ndarray):
        if v.size == 0:
            return None
        v[...] = {'b': ~v if v.dtype.kind == 'b' else 0, 'U': 'm%d' % k, 'O': k, 'V': (k, -1.5)}.get(v.dtype.kind, -k)
    elif isinstance(v, dict):
        v['modified'] = k
    elif isinstance(v, list):
        v.append(-k)
    else:
        return None
    return v


def run(prog, events):
    from inference.utils import ioutils
    shutil.rmtree(ROOT, ignore_errors=True)
    os.makedirs(os.path.join(ROOT, 'sub'))
    os.chdir(ROOT)
    kind = prog['kind']
    cls, suf, mk = (ioutils.ArrayStore, '.npz', arrays) if kind == 'arr' else (ioutils.AttrStore, '.pkl', anyvals)
    ids = {}

    def vid(v):
        return ids.setdefault(fp(v), 100000 + len(ids))

    for k in range(1, prog['nv'] + 1):
        ids[fp(mk(k))] = k
    assert len(ids) == prog['nv']
    known = {}

    def readfiles():
        out = []
        for d, _, fs in os.walk('.'):
            for f in fs:
                p = os.path.normpath(os.path.join(d, f))
                with open(p, 'rb') as fh:
                    b = fh.read()
                if b not in known:
                    try:
                        if kind == 'arr':
                            with np.load(p, allow_pickle=True) as z:
                                known[b] = sorted([n, vid(z[n])] for n in z.files)
                        else:
                            known[b] = sorted([n, vid(v)] for n, v in pickle.loads(b).items())
                    except Exception as ex:
                        known[b] = [['unreadable', 1]]
                out.append([p, known[b]])
        return sorted(out)

    def norm(p):
        return '' if p is None else os.path.normpath(p if p.endswith(suf) else p + suf)

    objs = {}

    def get(o, n):
        r, v = call(getattr, objs[o], n)
        if r == 'ok':
            return ['ok', vid(v)]
        return ['attr', 0] if isinstance(v, AttributeError) else ['other', 0]

    for op in prog['ops']:
        a = op['op']
        o = op['o']
        if a not in ('new', 'open', 'file') and o not in objs:
            continue
        e = {q: x for q, x in op.items() if x is not None}
        if a == 'file':     # an archive written by somebody else
            kw = {n: mk(v) for n, v in op['kw']}
            if kind == 'arr':
                np.savez(op['p'], **kw)
            else:
                with open(norm(op['p']), 'wb') as f:
                    pickle.dump(kw, f)
            e['p'] = norm(op['p'])
        elif a in ('new', 'open'):
            kw = {n: mk(v) for n, v in op['kw']}
            args = [] if a == 'new' else [op['p']]
            if a == 'new' and op.get('none'):
                args = [None]
            r, v = call(cls, *args, **kw)
            if r == 'ok':
                objs[o] = v
            e['p'] = norm(op.get('p'))
            e['r'] = r
        elif a == 'set':
            v = mk(op['v']) if op['v'] > 0 else [[1, 2, 3], 3.5, None, 'text', (1, 2)][-op['v'] - 1] if op['v'] > -10 else Unpicklable()
            e['okv'] = kind != 'arr' or isinstance(v, np.ndarray)
            r, x = call(setattr, objs[o], op['n'], v)
            e['r'] = r
            if kind != 'arr' and op['v'] <= -10:
                # an attribute that cannot be pickled: saving must fail and change nothing
                r, x = call(objs[o].save, op['p'])
                e['op'] = 'save'
                e['okv'] = False
                e['p'] = norm(op['p'])
                e['r'] = r
                setattr(objs[o], op['n'], mk(1))
                events.append(dict(e, files=readfiles()))
                e = dict(op='set', o=o, n=op['n'], v=1, okv=True, r='ok')
        elif a == 'mod':    # the value obtained from the store is changed in place
            e['g'] = get(o, op['n'])
            e['op'] = 'get'
            if e['g'][0] == 'ok':
                events.append(dict(e, files=readfiles()))
                r, x = call(inplace, getattr(objs[o], op['n']), op['k'])
                if r == 'ok' and x is not None:
                    e = dict(op='mod', o=o, n=op['n'], v=vid(x), okv=True)
        elif a == 'save':
            r, x = call(objs[o].save, *([] if op['p'] is None else [op['p']]))
            e['p'] = norm(op['p'])
            e['okv'] = True
            e['r'] = r
        elif a == 'get':
            e['g'] = get(o, op['n'])
        elif a in ('contents', 'all'):
            r, c = call(objs[o].contents)
            e['r'] = r
            e['c'] = [str(x) for x in c] if r == 'ok' else []
            e['gs'] = [[n, get(o, n)] for n in op['ns']] if a == 'all' else []
        elif a == 'drop':
            del objs[o]
            continue
        e['files'] = readfiles()
        events.append(e)
    os.chdir('/')
    shutil.rmtree(ROOT, ignore_errors=True)
    return {'kind': kind}


main(run, 'C10')
