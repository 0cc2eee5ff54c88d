"""Checks of the parts built on the repository's Python 2 C extensions, which are compiled
here, unchanged, through drivers/ext/compat.h."""
import os
import subprocess
import sysconfig
import vlib
import gen_ba as GB
import gen_pps as GP
import gen_pwl as GW
import gen_pop1d as G1


def extension(w, name, wrapper, folder, others=()):
    """Compile an extension from /repo's sources into the scratch directory."""
    src = os.path.join(vlib.REPO, 'package', 'inference', folder)
    ext = os.path.join(vlib.DRV, 'ext')
    out = os.path.join(w, 'ext')
    os.makedirs(out, exist_ok=True)
    r = subprocess.run([vlib.VENV_PY, '-c', 'import sysconfig, numpy; print(sysconfig.get_paths()["include"]); print(numpy.get_include())'],
                       stdout=subprocess.PIPE, check=True)
    inc = r.stdout.decode().split('\n')[:2]
    cmd = ['gcc', '-shared', '-fPIC', '-O1', '-w'] + ['-I' + p for p in inc] + ['-I' + src]
    objs = []
    for f in others:
        o = os.path.join(out, f + '.o')
        objs.append(o)
        r = subprocess.run(['gcc', '-c', '-fPIC', '-O1', '-w', '-I' + src, os.path.join(src, f + '.c'), '-o', o],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise vlib.Machinery('cannot compile %s.c:\n%s' % (f, r.stdout.decode()[-3000:]))
    r = subprocess.run(cmd + ['-include', os.path.join(ext, 'compat.h'), os.path.join(ext, wrapper)] + objs +
                       ['-o', os.path.join(out, name + '.so'), '-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise vlib.Machinery('cannot compile %s:\n%s' % (name, r.stdout.decode()[-3000:]))
    os.environ['VP_EXT'] = out


def c26(ck, w):
    extension(w, 'vba', 'vba.c', 'gauss')
    ck.model('BretthorstMC', ck.scale('BretthorstMC.cfg', 'BretthorstMC_big.cfg'), w)
    r = ck.model('BretthorstMC', ck.scale('BretthorstMC_emit.cfg', 'BretthorstMC_emit_big.cfg'), w, workers=1)
    b = vlib.tlc_prints(r.out, '@@BEH ')
    r.out = ''
    progs = [GB.from_behaviour(ck.rng, x) for x in b]
    progs += [GB.program(ck.rng) for _ in range(ck.scale(500, 8000))]
    tr = ck.drive('ba_driver.py', {'programs': progs}, w)
    ck.judge('BretthorstTrace', tr, w, corrupt=GB.corrupt, chunk=3000)


def c27(ck, w):
    extension(w, '_ppssampler', 'pps.c', 'mc', ('sampford', 'compact5table', 'randomkit'))
    ck.model('PpsMC', ck.scale('PpsMC.cfg', 'PpsMC_big.cfg'), w)
    r = ck.model('PpsMC', ck.scale('PpsMC_emit.cfg', 'PpsMC_emit_big.cfg'), w, workers=1)
    b = vlib.tlc_prints(r.out, '@@BEH ')
    r.out = ''
    progs = [GP.from_behaviour(ck.rng, x) for x in b]
    progs += [GP.program(ck.rng) for _ in range(ck.scale(600, 8000))]
    tr = ck.drive('pps_driver.py', {'programs': progs}, w, cpu=ck.scale(250, 500))
    ck.judge('PpsTrace', tr, w, corrupt=GP.corrupt, chunk=3000)
    # A request on the border of the scheme (known finding: it never returns).
    try:
        v = vlib.load_traces(vlib.run_driver('pps_border.py', {}, w, timeout=60, cpu=4, name='border'))[0]['items']
        bad = None if len(set(v)) == 3 and {0, 1} < set(v) <= {0, 1, 2, 3} else 'border request gave %r' % v
    except vlib.ImplCrash as ex:
        bad = 'border request does not return'
        if 'border-2211-3' in ck.known and ex.what in ('hang', 'driver rc=-24', 'driver rc=-9'):
            ck.known_hit['border-2211-3'] = ck.known['border-2211-3']
            bad = None
    if bad:
        ck.violations.append(dict(clause='C27:' + bad, what=bad))


def c28(ck, w):
    extension(w, '_ppssampler', 'pps.c', 'mc', ('sampford', 'compact5table', 'randomkit'))
    ck.model('PwLinMC', ck.scale('PwLinMC.cfg', 'PwLinMC_big.cfg'), w)
    r = ck.model('PwLinMC', ck.scale('PwLinMC_emit.cfg', 'PwLinMC_emit_big.cfg'), w, workers=1)
    b = vlib.tlc_prints(r.out, '@@BEH ')
    r.out = ''
    progs = [p for p in (GW.from_behaviour(ck.rng, x) for x in b) if p]
    progs += [GW.program(ck.rng) for _ in range(ck.scale(700, 8000))]
    tr = ck.drive('pwl_driver.py', {'programs': progs}, w)
    ck.judge('PwLinTrace', tr, w, corrupt=GW.corrupt, chunk=3000)


def c30(ck, w):
    extension(w, '_ppssampler', 'pps.c', 'mc', ('sampford', 'compact5table', 'randomkit'))
    ck.model('Pop1DMC', ck.scale('Pop1DMC.cfg', 'Pop1DMC_big.cfg'), w)
    r = ck.model('Pop1DMC', ck.scale('Pop1DMC_emit.cfg', 'Pop1DMC_emit_big.cfg'), w, workers=1)
    b = vlib.tlc_prints(r.out, '@@BEH ')
    r.out = ''
    progs = [G1.from_behaviour(ck.rng, x) for x in b]
    progs += [G1.program(ck.rng) for _ in range(ck.scale(700, 10000))]
    tr = ck.drive('pop1d_driver.py', {'programs': progs}, w)
    ck.judge('Pop1DTrace', tr, w, corrupt=G1.corrupt, chunk=3000)


CHECKS = dict(C30=c30, C28=c28, C27=c27, C26=c26)
