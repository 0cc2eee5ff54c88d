"""Histories of draws, saves and restores of the global generator."""
import os, pickle, shutil, sys
import numpy as np
from drvlib import main, call

ROOT = os.path.join(os.getcwd(), 'rng')
IDS = {}


def stream(state):
    """Identify a generator state by what it produces."""
    r = np.random.RandomState()
    r.set_state(state)
    b = r.standard_normal(1).tobytes() + r.standard_normal(1).tobytes() + r.random_sample(650).tobytes() + r.randint(1 << 30, size=3).tobytes() + r.standard_normal(2).tobytes()
    return IDS.setdefault(b, len(IDS) + 1)


def draw(r, kind, n):
    if kind == 'normal':
        return r.standard_normal(n)
    if kind == 'uniform':
        return r.random_sample(n)
    if kind == 'int':
        return r.randint(0, 1000, size=n)
    if kind == 'poisson':
        return r.poisson(3.5, size=n)
    if kind == 'gamma':
        return r.gamma(2.5, size=n)
    return r.permutation(n)


def run(prog, events):
    from inference.utils import rng
    shutil.rmtree(ROOT, ignore_errors=True)
    os.makedirs(ROOT)
    os.chdir(ROOT)
    cache = {}

    def files():
        out = []
        for f in sorted(os.listdir('.')):
            with open(f, 'rb') as fh:
                b = fh.read()
            if b not in cache:
                # what restoring this very file yields, in a child process
                rd, wr = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        rng.restore_rng(f, False)
                        os.write(wr, pickle.dumps(np.random.get_state()))
                    except BaseException:
                        pass
                    os._exit(0)
                os.close(wr)
                buf = b''
                while True:
                    x = os.read(rd, 65536)
                    if not x:
                        break
                    buf += x
                os.close(rd)
                os.waitpid(pid, 0)
                cache[b] = stream(pickle.loads(buf)) if buf else -1
            out.append([f, cache[b]])
        return out

    np.random.seed(prog['seed'])
    for op in prog['ops']:
        a = op['op']
        e = {'op': a, 'p': op.get('p', ''), 'r': 'ok', 'same': True}
        st0 = np.random.get_state()
        e['pre'] = stream(st0)
        if a == 'draw':
            r = np.random.RandomState()
            r.set_state(st0)
            e['same'] = draw(np.random, op['kind'], op['n']).tobytes() == draw(r, op['kind'], op['n']).tobytes()
        elif a == 'seed':
            np.random.seed(op['n'])
        elif a == 'save':
            e['r'], x = call(rng.save_rng, *([] if op.get('dflt') else [op['p']]))
        elif a == 'restore':
            e['r'], x = call(rng.restore_rng, *([] if op.get('dflt') else [op['p']]), **({} if op.get('notify') is None else {'notify': op['notify']}))
        elif a == 'ext':
            e['rm'] = bool(op['rm'])
            e['q'] = op['q']
            if os.path.exists(op['p']):
                if op['rm']:
                    os.remove(op['p'])
                else:
                    shutil.copy(op['p'], op['q'])
        e['post'] = stream(np.random.get_state())
        e['files'] = files()
        events.append(e)
    os.chdir('/')
    shutil.rmtree(ROOT, ignore_errors=True)
    return {'seed': prog['seed']}


main(run, 'C11')
