"""Shared machinery of the checks: build /repo, run drivers, run TLC, judge, report.

Outcomes of a check:  exit 0 (held), exit 1 + VIOLATION line, exit 2 (machinery failure).
"""
import fcntl, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SPEC = os.path.join(VERIF, 'spec')
DRV = os.path.join(VERIF, 'drivers')
VENV_PY = '/opt/venv/bin/python'
JAR = '/opt/veriftools/tla/tla2tools.jar'
SEED = int(os.environ.get('VERIF_SEED', '1'))
NCPU = min(8, os.cpu_count() or 1)


class Machinery(Exception):
    """The check itself failed (not the code under test)."""


def repo_env(extra=None):
    e = dict(os.environ)
    e.update(HOME='/root', LANG='C.UTF-8', LC_ALL='C.UTF-8',
             PATH='/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
             PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONNOUSERSITE='1',
             PYTHONPATH=REPO + '/package:' + DRV + ':' + os.path.join(VERIF, 'lib'),
             MPLBACKEND='Agg', MPLCONFIGDIR=REPO + '/build/vp/mpl',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', VERIF_SEED=str(SEED))
    if extra:
        e.update(extra)
    return e


def build():
    """Rebuild the compiled extensions from /repo's working tree (no-op when current)."""
    os.makedirs(REPO + '/build', exist_ok=True)
    lock = open(os.path.join(tempfile.gettempdir(), 'vp-inference-build.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        r = subprocess.run(['bash', '/opt/vp/build.sh'], cwd=REPO, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=600)
        if r.returncode != 0:
            raise Machinery('build failed:\n' + r.stdout.decode(errors='replace')[-3000:])
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vp-inf-')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


# ----------------------------------------------------------------- TLC

def tlc(module, cfg, work, env=None, workers=None, timeout=800, extra=(), heap='6g'):
    """Run TLC on SPEC/module.tla with SPEC/cfg; return its stdout (str)."""
    meta = tempfile.mkdtemp(prefix='meta-', dir=work)
    cmd = ['java', '-Xmx' + heap, '-Xss16m', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + work,
           '-DTLA-Library=' + SPEC, '-cp', JAR + ':/opt/veriftools/tla/CommunityModules-deps.jar',
           'tlc2.TLC', '-config', os.path.join(SPEC, cfg), '-metadir', meta,
           '-workers', str(workers or NCPU), '-deadlock', '-noGenerateSpecTE', *extra,
           os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ)
    e['LC_ALL'] = 'C.UTF-8'
    if env:
        e.update(env)
    try:
        r = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired as ex:
        raise Machinery('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout.decode(errors='replace')


def tlc_stats(out):
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(d.replace(',', '')), int(g.replace(',', ''))


class ModelResult:
    def __init__(self, name, states, transitions, out):
        self.name, self.states, self.transitions, self.out = name, states, transitions, out


def model_check(module, cfg, work, env=None, workers=None, timeout=800, extra=(), heap='6g'):
    """Model-check a design specification; it does not depend on /repo, so anything
    but success is a machinery failure."""
    rc, out = tlc(module, cfg, work, env, workers, timeout, extra, heap)
    if rc != 0:
        raise Machinery('design model %s/%s rejected (rc=%d):\n%s' % (module, cfg, rc, out[-4000:]))
    d, g = tlc_stats(out)
    return ModelResult(cfg[:-4], d, g, out)


def tlc_prints(out, tag):
    """JSON payloads printed by PrintT(tag \\o ToJson(..))."""
    res = []
    pre = '"' + tag
    for line in out.splitlines():
        if line.startswith(pre):
            res.append(json.loads(json.loads(line)[len(tag):]))
    return res


# ----------------------------------------------------------------- drivers

class ImplCrash(Exception):
    def __init__(self, what, out):
        Exception.__init__(self, what)
        self.what, self.out = what, out


def run_driver(script, spec, work, timeout=600, cpu=500, name='drv'):
    """Run a driver against the real code.  `spec` (JSON) is its input; it writes
    traces (NDJSON) to the output path.  A crash/hang of the interpreter is attributed
    to the code under test."""
    inp = os.path.join(work, name + '.in.json')
    outp = os.path.join(work, name + '.traces.ndjson')
    with open(inp, 'w') as f:
        json.dump(spec, f)
    cwd = os.path.join(work, name + '.cwd')
    os.makedirs(cwd, exist_ok=True)
    log = os.path.join(work, name + '.log')
    def pre():
        import resource
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    with open(log, 'wb') as lf:
        p = subprocess.Popen([VENV_PY, os.path.join(DRV, script), inp, outp], cwd=cwd,
                             env=repo_env(), stdout=lf, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, preexec_fn=pre)
        try:
            p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            raise ImplCrash('hang', tail(log))
    if p.returncode != 0:
        raise ImplCrash('driver rc=%d' % p.returncode, tail(log))
    return outp


def tail(path, n=3000):
    with open(path, 'rb') as f:
        return f.read()[-n:].decode(errors='replace')


def load_traces(path):
    with open(path) as f:
        return [json.loads(l) for l in f if l.strip()]


def dump_traces(traces, path):
    with open(path, 'w') as f:
        for t in traces:
            f.write(json.dumps(t, separators=(',', ':')) + '\n')


# ----------------------------------------------------------------- judging

class Verdict:
    def __init__(self):
        self.fails = []      # (trace index, event index, [clauses])
        self.states = 0
        self.transitions = 0
        self.odd = []        # (trace index, TLC message) of records TLC could not evaluate


def judge(module, traces, work, env=None, timeout=800, chunk=None, heap='6g'):
    """Validate recorded traces against a trace specification.  Every trace must be
    consumed to its end; clause failures are collected."""
    v = Verdict()
    n = len(traces)
    chunk = chunk or max(1, n)
    for base in range(0, n, chunk):
        idx = list(range(base, min(n, base + chunk)))
        for attempt in range(8):
            if not idx:
                break
            part = [traces[q] for q in idx]
            path = os.path.join(work, module + '.judge.ndjson')
            dump_traces(part, path)
            e = {'VP_TRACES': path}
            e.update(env or {})
            cfg = module + '.cfg' if os.path.exists(os.path.join(SPEC, module + '.cfg')) else 'Trace.cfg'
            rc, out = tlc(module, cfg, work, e, None, timeout, (), heap)
            done = set(d['t'] for d in tlc_prints(out, '@@DONE '))
            for d in tlc_prints(out, '@@FAIL '):
                if d['t'] in done:
                    v.fails.append((idx[d['t'] - 1], d['i'] - 1, sorted(d['f'])))
            s, g = tlc_stats(out)
            v.states += s
            v.transitions += g
            if rc == 0 and len(done) == len(part):
                break
            # A record TLC cannot evaluate is outside the specification's language, i.e.
            # not a behaviour of it.  Find it, reject it, judge the rest.
            m = re.findall(r'^(?:/\\ )?t = (\d+)', out, re.M)
            k = re.findall(r'^(?:/\\ )?i = (\d+)', out, re.M)
            if rc == 0 or not m or int(m[-1]) in done:
                raise Machinery('trace spec %s did not consume all traces (rc=%d, %d of %d)\n%s'
                                % (module, rc, len(done), len(part), out[-5000:]))
            bad = int(m[-1])
            msg = re.findall(r'^Error: (.*(?:\n(?!Error).*){0,3})', out, re.M)
            v.odd.append((idx[bad - 1], ' '.join(msg)[:1500]))
            v.fails.append((idx[bad - 1], min(int(k[-1]), len(part[bad - 1]['ev']) - 1) if k else 0,
                            ['*:record outside the specification']))
            # (After eight of them the rest of the chunk is left unjudged.)
            idx = [q for z, q in enumerate(idx) if (z + 1) not in done and z + 1 != bad]
    v.fails.sort()
    return v


# ----------------------------------------------------------------- check context

def known_findings(pid):
    """Entries 'known: property=<id> key=<key> <text>' of known_findings.txt."""
    res = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                res[m.group(2)] = m.group(3)
    return res


class Check:
    """One run of one property's check."""

    def __init__(self, pid, tier, level='model_checking'):
        self.pid, self.tier, self.level = pid, tier, level
        self.thorough = tier == 'thorough'
        self.rng = random.Random(SEED * 1000003 + sum(ord(c) * 31 ** i for i, c in enumerate(pid)))
        self.t0 = time.time()
        self.models = []
        self.violations = []      # dicts
        self.ntraces = 0
        self.nevents = 0
        self.judge_states = 0
        self.judge_trans = 0
        self.mutants = [0, 0]     # corrupted traces: made, rejected
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.known_hit = {}
        self.known = known_findings(pid)

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, module, cfg, work, **kw):
        r = model_check(module, cfg, work, **kw)
        self.models.append(r)
        return r

    def crash(self, ic, what):
        self.violations.append(dict(clause='impl-crash', what=what, detail=ic.what, log=ic.out[-2000:]))

    def drive(self, script, spec, work, name='drv', timeout=600, cpu=500):
        try:
            return load_traces(run_driver(script, spec, work, timeout, cpu, name))
        except ImplCrash as ic:
            self.crash(ic, 'driver %s could not complete' % script)
            return []

    def judge(self, module, traces, work, corrupt=None, env=None, timeout=800, chunk=None, keyfn=None):
        """Judge real traces (plus corrupted copies that must be rejected)."""
        muts = []
        if corrupt:
            for tr in traces:
                if len(muts) >= self.scale(40, 200):
                    break
                m = corrupt(self.rng, json.loads(json.dumps(tr)))
                if m is not None:
                    m['mut'] = 1
                    muts.append(m)
        allt = traces + muts
        if not allt:
            return
        v = judge(module, allt, work, env, timeout, chunk)
        self.judge_states += v.states
        self.judge_trans += v.transitions
        self.ntraces += len(traces)
        self.nevents += sum(len(t['ev']) for t in traces)
        for (t, msg) in v.odd[:2]:
            if t < len(traces):
                print('  TLC on trace %d: %s' % (t, msg))
        bad = {}
        for (t, i, f) in v.fails:
            bad.setdefault(t, []).append((i, f))
        nt = len(traces)
        foreign = set()
        for t in sorted(bad):
            if t >= nt:
                continue
            for (i, f) in bad[t]:
                own = [c for c in f if self.owns(c)]
                if own:
                    ev = traces[t]['ev'][i]
                    key = keyfn(traces[t], ev, own) if keyfn else None
                    if key is not None and key in self.known:
                        self.known_hit[key] = self.known[key]
                        continue
                    self.violations.append(dict(clause=own, module=module, trace=traces[t], index=i))
                else:
                    foreign.update(f)
        if foreign:
            self.notes.setdefault('foreign_clauses', sorted(foreign))
        if muts:
            # A corrupted copy of an already-bad trace says nothing.
            okm = 0
            missed = []
            for j in range(len(muts)):
                if (nt + j) in bad:
                    okm += 1
                else:
                    missed.append(muts[j])
            self.mutants[0] += len(muts)
            self.mutants[1] += okm
            self.missed = missed
            if missed and not self.violations:
                raise Machinery('binding self-test: %d of %d corrupted traces accepted, e.g. %s'
                                % (len(missed), len(muts), json.dumps(missed[0])[:3000]))
        for tr in traces[:: max(1, len(traces) // 3)][:3]:
            s = json.dumps(tr)
            self.samples.append(s if len(s) < 1500 else s[:1500] + '...')

    def owns(self, clause):
        """Clause names are '<props>:<text>' with <props> a '+'-joined list of ids."""
        p = clause.split(':', 1)[0].split('+')
        return self.pid in p or '*' in p

    def finish(self):
        wall = time.time() - self.t0
        cov = dict(states=sum(m.states for m in self.models) + self.judge_states,
                   transitions=sum(m.transitions for m in self.models) + self.judge_trans,
                   traces_validated_against_impl=self.ntraces,
                   events_validated_against_impl=self.nevents,
                   design_models=[dict(name=m.name, states=m.states, transitions=m.transitions)
                                  for m in self.models],
                   corrupted_traces=dict(made=self.mutants[0], rejected=self.mutants[1]),
                   samples=self.samples or ['(no trace was recorded)'])
        cov.update(self.notes)
        ev = dict(property=self.pid, tier=self.tier, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, txt in sorted(self.known_hit.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, txt))
        if self.violations:
            rd = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, '%s-%s.json' % (self.pid, self.tier))
            with open(rp, 'w') as f:
                json.dump(self.violations[:20], f, indent=1)
            for v in self.violations[:5]:
                print('  clause %s at event %s: %s' % (v.get('clause'), v.get('index'),
                      (json.dumps(v['trace']['ev'][v['index']])[:500] if 'trace' in v else v.get('detail', '') + v.get('log', '')[-800:])))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('OK property=%s tier=%s models=%s traces=%d events=%d corrupted rejected %d/%d wall=%.1fs'
              % (self.pid, self.tier, [(m.name, m.states) for m in self.models], self.ntraces,
                 self.nevents, self.mutants[1], self.mutants[0], wall))
        return 0
