"""Overwrites files through the backup facilities in forked children, with crashes at
chosen executed lines and failures at chosen file operations; all inside the driver's
scratch directory."""
import json, os, random, shutil, sys
import numpy as np
from drvlib import main

ROOT = os.path.join(os.getcwd(), 'io')
CNT = [0]


def listing(ids):
    out = []
    for d, ds, fs in os.walk('.'):
        for f in fs:
            p = os.path.relpath(os.path.join(d, f), '.')
            with open(p, 'rb') as fh:
                b = fh.read()
            out.append([p, ids.setdefault(b, len(ids) + 1)])
    return sorted(out)


def snapshot():
    out = {}
    for d, ds, fs in os.walk('.'):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                out[p] = fh.read()
    return out


def setdir(files):
    for f in os.listdir('.'):
        if os.path.isdir(f):
            shutil.rmtree(os.path.join(os.getcwd(), f))
        else:
            os.remove(f)
    for d in ('sub', 'sub/deep dir'):
        os.makedirs(d, exist_ok=True)
    for p, b in files.items():
        with open(p, 'wb') as fh:
            fh.write(b)


FS = ('open', 'os.rename', 'os.remove', 'os.link', 'os.symlink', 'os.truncate', 'os.mkdir', 'os.rmdir',
      'shutil.move', 'shutil.copyfile', 'shutil.copymode', 'shutil.copystat')


def action(kind, name, payload, res):
    from inference.utils import ioutils, rng
    if kind == 'backup':
        ioutils.backup(name)
    elif kind.startswith('open'):
        if kind == 'opent':
            f = ioutils.safe_open(name)
            data, want = payload, 'w'
        elif kind == 'openb':
            f = ioutils.safe_open(name, True)
            data, want = payload.encode(), 'wb'
        elif kind == 'openb2':
            f = ioutils.safe_open(name, 'b')
            data, want = payload.encode(), 'wb'
        else:
            calls = []
            def opener(n, *a, **k):
                calls.append([n, list(a), sorted(k.items())])
                return open(n, 'w')
            f = ioutils.safe_open(name, False, opener, 1, 'x', key=2) if kind == 'openo' else ioutils.safe_open(name, opener=opener, key=3)
            data, want = payload, 'w'
            res['opener'] = calls == ([[name, [1, 'x'], [('key', 2)]]] if kind == 'openo' else [[name, [], [('key', 3)]]])
        res['mode'] = f.mode == want and f.tell() == 0 and os.path.getsize(name) == 0 and os.path.samefile(f.name, name)
        f.write(data)
        f.close()
    elif kind == 'arr':
        s = ioutils.ArrayStore()
        s.a = np.arange(len(payload))
        s.b = np.frombuffer(payload.encode(), np.uint8).copy()
        s.save(name)
    elif kind == 'attr':
        s = ioutils.AttrStore()
        s.a = payload
        s.save(name)
    elif kind == 'rng':
        np.random.seed(abs(hash(payload)) % (1 << 31))
        rng.save_rng(name)
    elif kind == 'rng0':
        np.random.seed(abs(hash(payload)) % (1 << 31))
        rng.restore_rng(name)
    else:
        raise RuntimeError(kind)


def child(kind, name, payload, mode, k):
    """Run one overwrite in a forked child; returns its report."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(rd)
        st = {'n': 0, 'busy': False}
        res = {'r': 'ok', 'mode': True, 'opener': True}
        cwd = os.getcwd()

        def tracer(frame, event, arg):
            if event == 'line':
                if mode == 'crash' and st['n'] == k:
                    os._exit(77)
                st['n'] += 1
            return tracer

        def hook(event, args):
            if event in FS and not st['busy'] and st.get('on'):
                st['busy'] = True
                try:
                    p = args[0]
                    if isinstance(p, bytes):
                        p = os.fsdecode(p)
                    inside = isinstance(p, str) and os.path.abspath(p).startswith(cwd)
                finally:
                    st['busy'] = False
                if inside:
                    n = st['n']
                    st['n'] += 1
                    if mode == 'fail' and n == k:
                        raise OSError(28, 'No space left on device')
        if mode in ('fail', 'countf'):
            sys.addaudithook(hook)
        try:
            st['on'] = True
            if mode in ('crash', 'countc'):
                sys.settrace(tracer)
            try:
                action(kind, name, payload, res)
            finally:
                sys.settrace(None)
                st['on'] = False
        except Exception as ex:
            res['r'] = 'err'
            res['exc'] = repr(ex)[:200]
        res['n'] = st['n']
        os.write(wr, json.dumps(res).encode())
        os._exit(0)
    os.close(wr)
    buf = b''
    while True:
        b = os.read(rd, 65536)
        if not b:
            break
        buf += b
    os.close(rd)
    _, status = os.waitpid(pid, 0)
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 77:
        return {'r': 'crash', 'mode': True, 'opener': True, 'n': k}
    if not buf:
        return {'r': 'died', 'mode': True, 'opener': True, 'n': 0}
    return json.loads(buf)


def target(kind, name):
    """The file an operation overwrites and its two backups."""
    if kind == 'arr' and not name.endswith('.npz'):
        name += '.npz'
    if kind == 'attr' and not name.endswith('.pkl'):
        name += '.pkl'
    if kind.startswith('rng'):
        return name, name + '.1', name + '.2'
    return name, name + '%', name + '%%'


def run(prog, events):
    os.makedirs(ROOT, exist_ok=True)
    os.chdir(ROOT)
    import inference.utils.ioutils, inference.utils.rng, zipfile, pickle      # before forking
    ids = {}
    rng = random.Random(prog['seed'])
    CNT[0] += 1

    def pay():
        CNT[0] += 1
        return 'payload %d ' % CNT[0] + 'x' * rng.choice([0, 1, 50, 20000])

    def emit(kind, name, payload, mode, k):
        pre = listing(ids)
        r = child(kind, name, payload, mode, k)
        post = listing(ids)
        n0, n1, n2 = target(kind, name)
        want = ids.setdefault(payload.encode(), len(ids) + 1) if kind.startswith('open') else 0
        events.append({'op': 'save', 'kind': kind, 'm': mode, 'k': k, 'n': [os.path.normpath(x) for x in (n0, n1, n2)],
                       'pre': pre, 'post': post, 'r': r['r'], 'md': r['mode'] and r['opener'], 'v': want,
                       'exc': r.get('exc', '')})
        return r

    n0, n1, n2 = target(prog['ops'][0]['kind'], prog['ops'][0]['name'])
    first = {n: ('old %s %d' % (n, prog['seed'])).encode() * rng.choice([1, 3]) for n, on in zip((n0, n1, n2), prog['pre']) if on}
    first['other'] = b'other file'
    first[n0 + '%%%'] = b'third'
    first['sub/' + os.path.basename(n0) + 'x'] = b'near'
    setdir(first)
    for op in prog['ops']:
        kind, name = op['kind'], op['name']
        if op['m'] == 'ext':
            tn = target(kind, name)[op['which']]
            if op['rm'] and os.path.exists(tn):
                os.remove(tn)
            elif not op['rm']:
                with open(tn, 'w') as f:
                    f.write(pay())
            events.append({'op': 'ext', 'post': listing(ids)})
        elif op['m'] == 'enum':
            # every crash point / failing file operation from the same directory
            base = snapshot()
            for mode in ('crash', 'fail'):
                p = pay()
                n = child(kind, name, p, 'countc' if mode == 'crash' else 'countf', -1)['n']
                ks = list(range(n))
                if len(ks) > op['max']:
                    ks = sorted(rng.sample(ks, op['max']))
                for k in ks:
                    setdir(base)
                    events.append({'op': 'ext', 'post': listing(ids)})
                    emit(kind, name, p, mode, k)
            setdir(base)
            events.append({'op': 'ext', 'post': listing(ids)})
        elif op['m'] == 'normal':
            emit(kind, name, pay(), 'normal', -1)
        else:
            base = snapshot()
            p = pay()
            n = child(kind, name, p, 'countc' if op['m'] == 'crash' else 'countf', -1)['n']
            setdir(base)
            emit(kind, name, p, op['m'], min(n - 1, int(op['frac'] * n)))
    setdir({})
    return {'kind': prog['ops'][0]['kind']}


main(run, 'C09')
