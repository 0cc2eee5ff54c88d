"""Checks of the Parametric Inference Engine properties."""
import gen_disc as GD
import gen_fit as GF
import gen_obs as GO
import gen_pie as G
import gen_score as GSC
import gen_sim as GS
import vlib

N2 = ['a', 'b']


def behaviours(ck, cfg, w, limit=None):
    r = ck.model('PieMC', cfg, w, workers=1)
    b = vlib.tlc_prints(r.out, '@@BEH ')
    r.out = ''
    if limit and len(b) > limit:
        b = ck.rng.sample(b, limit)
    return b


def run(ck, w, progs, chunk=1500):
    tr = ck.drive('pie_driver.py', {'programs': progs}, w)
    ck.judge('PieTrace', tr, w, corrupt=G.corrupt, chunk=chunk)


def c01(ck, w):
    ck.model('PieMC', ck.scale('PieMC_status.cfg', 'PieMC_status_big.cfg'), w)
    beh = behaviours(ck, 'PieMC_status_emit.cfg', w, ck.scale(2500, None))
    progs = [G.from_behaviour(b, N2) for b in beh]
    progs += G.programs(ck.rng, ck.scale(300, 4000), G.W_STATUS, (5, 60), scales=(1.0, 1.0, 0.125, 1024.0))
    run(ck, w, progs)


def c02(ck, w):
    ck.model('PieMC', ck.scale('PieMC_status.cfg', 'PieMC_status_big.cfg'), w)
    beh = behaviours(ck, 'PieMC_status_emit.cfg', w, ck.scale(1500, None))
    progs = [G.from_behaviour(b, N2) for b in beh]
    progs += G.programs(ck.rng, ck.scale(400, 5000), G.W_RANGE, (5, 50), scales=(1.0, 1.0, 2.0 ** -20, 1024.0))
    progs += G.nans(ck.rng, ck.scale(200, 1000))
    run(ck, w, progs)


def c03(ck, w):
    ck.model('Zigzag', ck.scale('Zigzag.cfg', 'Zigzag_big.cfg'), w)
    ck.model('PieMC', ck.scale('PieMC_step.cfg', 'PieMC_step_big.cfg'), w)
    beh = behaviours(ck, ck.scale('PieMC_step_emit.cfg', 'PieMC_step_emit_big.cfg'), w, ck.scale(1200, 12000))
    progs = [G.from_behaviour(b, N2, tail=11) for b in beh]
    progs += G.grids(ck.rng, ck.scale(150, 1500))
    progs += G.programs(ck.rng, ck.scale(150, 2000), G.W_STEP, (10, 60), traverse=10, scales=(1.0, 1.0, 2.0 ** -10, 1024.0))
    run(ck, w, progs)


def c05(ck, w):
    ck.model('PieMC', 'PieMC_status.cfg', w)
    progs = G.programs(ck.rng, ck.scale(350, 4000), G.W_HOOK, (10, 50), hooks=1, methods=('chisqr', 'maxlike', 'bayes'))
    run(ck, w, progs)


def c08(ck, w):
    ck.model('PieMC', ck.scale('PieMC_snap.cfg', 'PieMC_snap_big.cfg'), w)
    beh = behaviours(ck, ck.scale('PieMC_snap_emit.cfg', 'PieMC_snap_emit_big.cfg'), w, ck.scale(2500, 12000))
    progs = [G.from_behaviour(b, N2, touch=1) for b in beh]
    progs += G.programs(ck.rng, ck.scale(300, 4000), G.W_SNAP, (10, 60), methods=('chisqr', 'maxlike', 'bayes'))
    run(ck, w, progs)


def c07(ck, w):
    if ck.thorough:
        ck.model('DiscoveryMC', 'DiscoveryMC_big.cfg', w)
    r = ck.model('DiscoveryMC', 'DiscoveryMC_emit.cfg', w, workers=1)
    b = vlib.tlc_prints(r.out, '@@BEH ')
    r.out = ''
    # Behaviours are prefix closed; keep those ending in an inference class.
    b = [x for x in b if x[-1]['kind'] in ('inf', 'isub')]
    lim = ck.scale(1500, 15000)
    if len(b) > lim:
        b = ck.rng.sample(b, lim)
    progs = [GD.from_behaviour(ck.rng, x) for x in b]
    progs += [GD.rand(ck.rng, ck.rng.randrange(3, 13)) for _ in range(ck.scale(300, 3000))]
    tr = ck.drive('discovery_driver.py', {'programs': progs}, w)
    ck.judge('DiscoveryTrace', tr, w, corrupt=GD.corrupt, chunk=1500)


def fitcheck(ck, w, n, **kw):
    ck.model('GridFitMC', 'GridFitMC.cfg', w)
    ck.model('GridFitMC', 'GridFitMC_max.cfg', w)
    if ck.thorough:
        ck.model('GridFitMC', 'GridFitMC_big.cfg', w)
    progs = [GF.program(ck.rng, nev=ck.rng.choice([2, 3, 4]), **kw) for _ in range(n)]
    tr = ck.drive('fit_driver.py', {'programs': progs}, w)
    if tr:
        tr.append(GF.summary(tr))
    ck.judge('GridFitTrace', tr, w, corrupt=GF.corrupt, chunk=1000)


def c04(ck, w):
    fitcheck(ck, w, ck.scale(350, 2500), grid_only=True)


def c24(ck, w):
    fitcheck(ck, w, ck.scale(500, 6000), fit_only=True)


def c06(ck, w):
    ck.model('SimDataMC', ck.scale('SimDataMC.cfg', 'SimDataMC_big.cfg'), w)
    r = ck.model('SimDataMC', ck.scale('SimDataMC_emit.cfg', 'SimDataMC_emit_big.cfg'), w, workers=1)
    b = vlib.tlc_prints(r.out, '@@BEH ')
    r.out = ''
    progs = [GS.from_behaviour(ck.rng, x) for x in b]
    progs += [GS.program(ck.rng, ck.rng.randrange(4, 16)) for _ in range(ck.scale(300, 4000))]
    tr = ck.drive('sim_driver.py', {'programs': progs}, w)
    if tr:
        tr.append(GS.summary(tr))
    ck.judge('SimTrace', tr, w, corrupt=GS.corrupt, chunk=1500)


def c25(ck, w):
    ck.model('ObsInfo', ck.scale('ObsInfo.cfg', 'ObsInfo_big.cfg'), w)
    progs = [GO.program(ck.rng) for _ in range(ck.scale(600, 8000))]
    tr = ck.drive('obs_driver.py', {'programs': progs}, w)
    ck.judge('ObsTrace', tr, w, corrupt=GO.corrupt, chunk=2000)


def c32(ck, w):
    ck.model('ScoreMC', ck.scale('ScoreMC.cfg', 'ScoreMC_big.cfg'), w)
    r = ck.model('ScoreMC', ck.scale('ScoreMC_emit.cfg', 'ScoreMC_emit_big.cfg'), w, workers=1)
    b = vlib.tlc_prints(r.out, '@@BEH ')
    r.out = ''
    lim = ck.scale(1200, 30000)
    if len(b) > lim:
        b = ck.rng.sample(b, lim)
    progs = [GSC.from_behaviour(ck.rng, x) for x in b]
    progs += [GSC.program(ck.rng, ck.rng.randrange(3, 30)) for _ in range(ck.scale(500, 8000))]
    tr = ck.drive('score_driver.py', {'programs': progs}, w)
    ck.judge('ScoreTrace', tr, w, corrupt=GSC.corrupt, chunk=2000)


CHECKS = dict(C32=c32, C25=c25, C06=c06, C04=c04, C24=c24, C07=c07, C01=c01, C02=c02, C03=c03, C05=c05, C08=c08)
