"""Checks of the grid tools."""
import gen_contour as GT
import gen_grid as G
import gen_report as GR
import vlib


def behaviours(ck, module, cfg, w, lim=None, **kw):
    r = ck.model(module, cfg, w, workers=1, **kw)
    b = vlib.tlc_prints(r.out, '@@BEH ')
    r.out = ''
    if lim and len(b) > lim:
        b = ck.rng.sample(b, lim)
    return b


def c12(ck, w):
    ck.model('MaxListMC', ck.scale('MaxListMC.cfg', 'MaxListMC_big.cfg'), w)
    progs = [G.ml_behaviour(ck.rng, b) for b in behaviours(ck, 'MaxListMC', 'MaxListMC_emit.cfg', w, ck.scale(3000, None))]
    progs += [G.ml_random(ck.rng, ck.rng.randrange(3, 60)) for _ in range(ck.scale(400, 8000))]
    tr = ck.drive('maxlist_driver.py', {'programs': progs}, w)
    ck.judge('MaxListTrace', tr, w, corrupt=G.ml_corrupt, chunk=20000)


def c13(ck, w):
    ck.model('RefineMC', ck.scale('RefineMC.cfg', 'RefineMC_big.cfg'), w)
    progs = [G.il_behaviour(ck.rng, b) for b in behaviours(ck, 'RefineMC', 'RefineMC_emit.cfg', w, ck.scale(1500, 20000))]
    progs += [G.il_random(ck.rng, ck.rng.randrange(2, 12)) for _ in range(ck.scale(500, 6000))]
    tr = ck.drive('refine_driver.py', {'programs': progs}, w)
    ck.judge('RefineTrace', tr, w, corrupt=G.il_corrupt, chunk=4000)


def c14(ck, w):
    ck.model('GridMC', ck.scale('GridMC.cfg', 'GridMC_big.cfg'), w)
    beh = {tuple(b['y']) for b in behaviours(ck, 'GridMC', 'GridMC_emit.cfg', w)}
    beh = ck.rng.sample(sorted(beh), ck.scale(250, len(beh)))
    progs = [G.gd_prog(ck.rng, list(y)) for y in beh]
    progs += [G.gd_prog(ck.rng) for _ in range(ck.scale(450, 5000))]
    tr = ck.drive('grid_driver.py', {'programs': progs}, w)
    ck.judge('GridTrace', tr, w, corrupt=G.gd_corrupt, chunk=700)


def c15(ck, w):
    ck.model('HpdMC', ck.scale('HpdMC.cfg', 'HpdMC_big.cfg'), w)
    beh = behaviours(ck, 'HpdMC', 'HpdMC_emit.cfg', w)
    progs = G.hp_calls(ck.rng, beh) + G.hp_tables(ck.rng, ck.scale(1500, 20000))
    ys = sorted({tuple(v // 2 for v in b['y']) for b in beh if max(b['y']) > 0})
    progs += [G.hp_prog(ck.rng, list(y)) for y in ck.rng.sample(ys, ck.scale(300, len(ys)))]
    progs += [G.hp_prog(ck.rng) for _ in range(ck.scale(400, 5000))]
    progs += [G.hp_prog(ck.rng, two=True) for _ in range(ck.scale(200, 2500))]
    progs += [dict(kind='help', sig=[.1, .5, 1., 1.7, 2., 3., 4.2])]
    tr = ck.drive('hpd_driver.py', {'programs': progs}, w)
    ck.judge('HpdTrace', tr, w, corrupt=G.hp_corrupt, chunk=4000)


def c31(ck, w):
    ck.model('ContourMC', ck.scale('ContourMC.cfg', 'ContourMC_big.cfg'), w)
    r = ck.model('ContourMC', ck.scale('ContourMC_emit.cfg', 'ContourMC_emit_big.cfg'), w, workers=1)
    b = vlib.tlc_prints(r.out, '@@BEH ')
    r.out = ''
    lim = ck.scale(250, 3000)
    if len(b) > lim:
        b = ck.rng.sample(b, lim)
    progs = [GT.from_behaviour(ck.rng, x) for x in b]
    progs += [GT.program(ck.rng) for _ in range(ck.scale(350, 4000))]
    tr = ck.drive('contour_driver.py', {'programs': progs}, w)
    ck.judge('ContourTrace', tr, w, corrupt=GT.corrupt, chunk=2000)


def c33(ck, w):
    ck.model('ReportMC', ck.scale('ReportMC.cfg', 'ReportMC_big.cfg'), w)
    b = behaviours(ck, 'ReportMC', ck.scale('ReportMC_emit.cfg', 'ReportMC_emit_big.cfg'), w, ck.scale(500, 5000))
    progs = [GR.from_behaviour(ck.rng, x) for x in b]
    progs += [GR.program(ck.rng, ck.rng.randrange(3, 20)) for _ in range(ck.scale(400, 3000))]
    tr = ck.drive('report_driver.py', {'programs': progs}, w)
    ck.judge('ReportTrace', tr, w, corrupt=GR.corrupt, chunk=2000)
    tr = ck.drive('contour_driver.py', {'programs': [GR.contour(ck.rng) for _ in range(ck.scale(250, 2500))]}, w)
    ck.judge('ContourTrace', tr, w, corrupt=GT.corrupt, chunk=2000)


CHECKS = dict(C33=c33, C31=c31, C12=c12, C13=c13, C14=c14, C15=c15)
