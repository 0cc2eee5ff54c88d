"""Common frame of the drivers (run under the repository's Python)."""
import json, os, signal, sys, traceback
from fenc import F, M, NOF, key


class OpTimeout(BaseException):
    pass


def _alarm(sig, frame):
    raise OpTimeout()


signal.signal(signal.SIGPROF, _alarm)


class limit:
    """CPU-time limit for a call into the code under test."""
    def __init__(self, secs=20):
        self.secs = secs

    def __enter__(self):
        signal.setitimer(signal.ITIMER_PROF, self.secs)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)


def call(f, /, *a, **k):
    """Call into the code under test: ('ok', value) or ('err', exception)."""
    try:
        with limit():
            return 'ok', f(*a, **k)
    except OpTimeout:
        return 'hang', None
    except Exception as ex:
        return 'err', ex


def main(run_trace, tags):
    """run_trace(spec_item, emit) executes one program and emits its events."""
    inp, outp = sys.argv[1:3]
    with open(inp) as f:
        spec = json.load(f)
    real = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    import warnings
    warnings.simplefilter('ignore')
    with open(outp, 'w') as out:
        for n, prog in enumerate(spec['programs']):
            ev = []
            tr = {'id': n, 'cfg': prog.get('cfg', {}), 'ev': ev}
            try:
                r = run_trace(prog, ev)
                if isinstance(r, dict):
                    tr['cfg'] = r
            except OpTimeout:
                ev.append({'crash': tags + ':hang', 'tb': 'hang'})
                tr['cfg'] = {'aborted': 1}
            except Exception:
                ev.append({'crash': tags + ':unexpected-exception', 'tb': traceback.format_exc()[-1500:]})
                tr['cfg'] = {'aborted': 1}
            if not isinstance(tr['cfg'], dict) or not tr['cfg']:
                tr['cfg'] = {'empty': 1}
            out.write(json.dumps(tr, separators=(',', ':'), default=lambda o: o.item()) + '\n')
    sys.stdout = real
