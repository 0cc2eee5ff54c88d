"""Checks of the file facilities."""
import itertools
import gen_cols as GC
import gen_io as G
import vlib


def c09(ck, w):
    ck.model('BackupMC', ck.scale('BackupMC.cfg', 'BackupMC_big.cfg'), w)
    r = ck.model('BackupMC', 'BackupMC_emit.cfg', w, workers=1)
    b = vlib.tlc_prints(r.out, '@@BEH ')
    r.out = ''
    lim = ck.scale(300, None)
    if lim:
        b = ck.rng.sample(b, lim)
    progs = [G.from_behaviour(ck.rng, x) for x in b]
    pres = [list(x) for x in itertools.product((0, 1), repeat=3)]
    for kind in G.KINDS:
        for pre in pres:
            if ck.thorough or kind in ('backup', 'opent', 'attr', 'rng') or pre in ([1, 1, 1], [1, 1, 0]):
                progs.append(G.enum(ck.rng, kind, ck.rng.choice(['f', 'sub/f', 'a b']), pre, ck.scale(40, 250)))
    progs += [G.rand(ck.rng, ck.rng.randrange(2, 9)) for _ in range(ck.scale(100, 1500))]
    tr = ck.drive('io_driver.py', {'programs': progs}, w)
    ck.judge('BackupTrace', tr, w, corrupt=G.corrupt, chunk=1500)


def c10(ck, w):
    ck.model('StoresMC', ck.scale('StoresMC.cfg', 'StoresMC_big.cfg'), w)
    r = ck.model('StoresMC', 'StoresMC_emit.cfg', w, workers=1)
    b = vlib.tlc_prints(r.out, '@@BEH ')
    r.out = ''
    progs = []
    for kind in ('arr', 'attr'):
        bb = b if len(b) <= ck.scale(500, 20000) else ck.rng.sample(b, ck.scale(500, 20000))
        progs += [G.st_behaviour(ck.rng, x, kind) for x in bb]
        progs += [G.st_random(ck.rng, kind, ck.rng.randrange(4, 40)) for _ in range(ck.scale(250, 4000))]
    tr = ck.drive('store_driver.py', {'programs': progs}, w)
    ck.judge('StoresTrace', tr, w, corrupt=G.st_corrupt, chunk=3000)


def c11(ck, w):
    ck.model('RngMC', ck.scale('RngMC.cfg', 'RngMC_big.cfg'), w)
    r = ck.model('RngMC', 'RngMC_emit.cfg', w, workers=1)
    b = vlib.tlc_prints(r.out, '@@BEH ')
    r.out = ''
    lim = ck.scale(600, 10000)
    if len(b) > lim:
        b = ck.rng.sample(b, lim)
    progs = [G.rng_behaviour(ck.rng, x) for x in b]
    progs += [G.rng_random(ck.rng, ck.rng.randrange(4, 30)) for _ in range(ck.scale(150, 1500))]
    tr = ck.drive('rng_driver.py', {'programs': progs}, w)
    ck.judge('RngTrace', tr, w, corrupt=G.rng_corrupt, chunk=3000)


def c29(ck, w):
    ck.model('ColumnsMC', ck.scale('ColumnsMC.cfg', 'ColumnsMC_big.cfg'), w)
    r = ck.model('ColumnsMC', 'ColumnsMC_emit.cfg', w, workers=1)
    b = vlib.tlc_prints(r.out, '@@BEH ')
    r.out = ''
    lim = ck.scale(1200, 20000)
    if len(b) > lim:
        b = ck.rng.sample(b, lim)
    progs = [GC.from_behaviour(ck.rng, x) for x in b]
    progs += [GC.program(ck.rng) for _ in range(ck.scale(800, 15000))]
    tr = ck.drive('cols_driver.py', {'programs': progs}, w)
    ck.judge('ColumnsTrace', tr, w, corrupt=GC.corrupt, chunk=3000)


CHECKS = dict(C09=c09, C10=c10, C11=c11, C29=c29)
