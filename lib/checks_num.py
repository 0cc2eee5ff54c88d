"""Checks of the numerical tools."""
import gen_num as G
import gen_cub as GC
import gen_oo as O
import gen_curv as V
from checks_grid import behaviours


def c16(ck, w):
    ck.model('StepperMC', ck.scale('StepperMC.cfg', 'StepperMC_big.cfg'), w)
    progs = [G.st_behaviour(ck.rng, b) for b in behaviours(ck, 'StepperMC', 'StepperMC_emit.cfg', w)]
    progs += [G.st_random(ck.rng) for _ in range(ck.scale(300, 4000))]
    tr = ck.drive('num_driver.py', {'programs': progs}, w)
    ck.judge('StepperTrace', tr, w, corrupt=G.st_corrupt, chunk=4000)


def c17(ck, w):
    ck.model('LogSumMC', ck.scale('LogSumMC.cfg', 'LogSumMC_big.cfg'), w)
    progs = [G.ls_behaviour(ck.rng, b) for b in behaviours(ck, 'LogSumMC', 'LogSumMC_emit.cfg', w)]
    progs += [G.ls_random(ck.rng) for _ in range(ck.scale(1000, 15000))]
    tr = ck.drive('num_driver.py', {'programs': progs}, w)
    ck.judge('LogSumTrace', tr, w, corrupt=G.ls_corrupt, chunk=8000)


def c18(ck, w):
    ck.model('ZBracket', ck.scale('ZBracket.cfg', 'ZBracket_big.cfg'), w)
    progs = [G.zb_behaviour(ck.rng, b) for b in behaviours(ck, 'ZBracket', 'ZBracket_emit.cfg', w)]
    progs += [G.zb_random(ck.rng) for _ in range(ck.scale(1000, 15000))]
    tr = ck.drive('num_driver.py', {'programs': progs}, w)
    ck.judge('ZBTrace', tr, w, corrupt=G.zb_corrupt, chunk=8000)


def c19(ck, w):
    ck.model('MinSearch', ck.scale('MinSearch.cfg', 'MinSearch_big.cfg'), w)
    progs = [G.mn_behaviour(ck.rng, b) for b in behaviours(ck, 'MinSearch', 'MinSearch_emit.cfg', w, ck.scale(400, None))]
    progs += [G.mn_one(ck.rng) for _ in range(ck.scale(500, 6000))]
    progs += [G.mn_multi(ck.rng) for _ in range(ck.scale(400, 4000))]
    tr = ck.drive('min_driver.py', {'programs': progs}, w)
    ck.judge('MinTrace', tr, w, corrupt=G.mn_corrupt, chunk=1000)


def c20(ck, w):
    ck.model('OnOffMC', ck.scale('OnOffMC.cfg', 'OnOffMC_big.cfg'), w)
    ck.model('OnOffHist', ck.scale('OnOffHist.cfg', 'OnOffHist_big.cfg'), w)
    progs = [O.behaviour(ck.rng, b) for b in behaviours(ck, 'OnOffHist', ck.scale('OnOffHist_emit.cfg', 'OnOffHist_emit_big.cfg'), w)]
    progs += [O.random_prog(ck.rng) for _ in range(ck.scale(1500, 20000))]
    tr = ck.drive('onoff_driver.py', {'programs': progs}, w)
    ck.judge('OnOffTrace', tr, w, corrupt=O.corrupt, chunk=4000)


def c21(ck, w):
    ck.model('Curvature', ck.scale('Curvature.cfg', 'Curvature_big.cfg'), w)
    ck.model('StepSearch', ck.scale('StepSearch.cfg', 'StepSearch_big.cfg'), w)
    progs = [V.script(ck.rng, b) for b in behaviours(ck, 'StepSearch', 'StepSearch_emit.cfg', w)]
    progs += [V.steps(ck.rng) for _ in range(ck.scale(1000, 12000))]
    progs += [V.info(ck.rng) for _ in range(ck.scale(600, 8000))]
    tr = ck.drive('curv_driver.py', {'programs': progs}, w)
    ck.judge('CurvTrace', tr, w, corrupt=V.corrupt, chunk=4000)


def c22(ck, w):
    ck.model('CubRules', ck.scale('CubRules.cfg', 'CubRules_big.cfg'), w)
    progs = [GC.behaviour(ck.rng, b) for b in behaviours(ck, 'CubRules', 'CubRules_emit.cfg', w)]
    progs += [GC.random(ck.rng) for _ in range(ck.scale(400, 8000))]
    tr = ck.drive('cub_driver.py', {'programs': progs}, w)
    ck.judge('CubTrace', tr, w, corrupt=GC.corrupt, chunk=4000)


def c23(ck, w):
    ck.model('Adaptive', ck.scale('Adaptive.cfg', 'Adaptive_big.cfg'), w)
    progs = [GC.ad_program(ck.rng) for _ in range(ck.scale(600, 8000))] + GC.ad_invalid(ck.rng)
    tr = ck.drive('adapt_driver.py', {'programs': progs}, w)
    ck.judge('AdaptTrace', tr, w, corrupt=GC.ad_corrupt, chunk=2000)


CHECKS = dict(C23=c23, C22=c22, C16=c16, C17=c17, C18=c18, C19=c19, C20=c20, C21=c21)
