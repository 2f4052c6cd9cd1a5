"""Mesh configurations shared by the checks: name -> (implementation, n, builder(p, keys, rng) -> Disc).

Random meshes (rq*, rt*) are ELEMENT-DICT meshes: a structured grid of quads with vertices moved at random and the
local vertex numbering of every element rotated at random, optionally with quads cut into triangles.
"""
import copy
import numpy as np
from vm.lazy import S

CONF = {}


def reg(name, impl, n, fn, **feat):
    CONF[name] = dict(name=name, impl=impl, n=n, fn=fn, **feat)


def build(name, p=2, keys=None, rng=None, extra=None):
    """extra: name -> ((k, orientation), degree or None), further forms, in d.X"""
    c = CONF[name]
    S.EXTRA.clear()
    S.EXTRA.update(extra or {})
    try:
        d = c['fn'](p, keys, rng if rng is not None else np.random.default_rng(0))
    finally:
        S.EXTRA.clear()
    d.name, d.conf = name, c
    return d


def degrees(name, ps, rng=None):
    """one discretisation with forms of several degrees in each space, seen as one of each degree"""
    keys = S.SPACES[CONF[name]['n']]
    d = build(name, ps[0], rng=rng, extra={f'{i}{k}{o}': ((k, o), p) for i, p in enumerate(ps) for k, o in keys})
    vs = []
    for i, p in enumerate(ps):
        v = copy.copy(d)
        v.F, v.p = {(k, o): d.X[f'{i}{k}{o}'] for k, o in keys}, p
        vs.append(v)
    return vs


DEGREES = {1: [[2, 3], [3, 1]], 2: [[(2, 3), (3, 2)], [(1, 3), (3, 1), 2]], 3: [[(1, 2, 1), (2, 1, 1)], [(1, 1, 2), (2, 1, 1)]],
           'h': [[(2, 3), ([1, 2], [2, 1, 1]), ([2, 1], [1, 1, 1])], [(3, 2), (2, 3)]], 'r': [[2, 3], [3, 1]]}      # msehtt: nodes at choice


def several(run):
    """the unit which judges each of several degrees on one mesh, the first one again after the others"""
    def unit(ctx, conf, ps, rep):
        vs = degrees(conf, ps, np.random.default_rng([ctx.seed, rep, 57]))
        for v in vs + vs[:1]:
            for f in v.F.values():
                f.cochain.clean('all') if v.impl == 'msehtt' else f.cochain.clean()
            run(ctx, conf, v.p, rep, v)
        ctx.event('several degrees')
    return unit


def several_units(unit, confs, t=1):
    return [(f'degrees:{c}:{r}', unit, dict(conf=c, ps=DEGREES['r' if c[0] == 'r' or CONF[c].get('tri') else 'h' if c[:3] == 'ht2' else CONF[c]['n']][r % 2], rep=r)) for c in confs for r in range(t)]


def mp(name, n, K, dom, kw, **feat):
    reg(name, 'msepy', n, lambda p, keys, rng: S.make_msepy(n, K, p, dom, dict(kw), keys, periodic=feat.get('periodic', False)), **feat)


def mh(name, n, args, kw, **feat):
    reg(name, 'msehtt', n, lambda p, keys, rng: S.make_msehtt(n, args, dict(kw), p, keys,
                                                              boundary=not feat.get('nobdry')), **feat)


B1, B2, B3 = [[0, 1]], [[0, 1], [0, 1]], [[0, 1], [0, 1], [0, 1]]
G1, G2, G3 = [[-1, 1.5]], [[-.5, 1], [.25, 1.5]], [[-.5, .5], [0, 1.5], [.25, 1]]
# ------------------------------------------------------------------ msepy
mp('py1', 1, [5], 'crazy', dict(c=0.2, bounds=G1), area=2.5)
mp('py1o', 1, [[1, 2, 1]], 'crazy', dict(c=0., bounds=B1), area=1., ortho=True)
mp('py1p', 1, [4], 'crazy', dict(c=0.1, bounds=B1, periodic=True), area=1., periodic=True)
mp('py2', 2, [3, 4], 'crazy', dict(c=0.1, bounds=G2), area=1.5 * 1.25)
mp('py2o', 2, [3, 2], 'crazy', dict(c=0., bounds=G2), area=1.5 * 1.25, ortho=True)
mp('py2u', 2, [[1, 2, 1], [2, 1]], 'crazy', dict(c=0., bounds=B2), area=1, ortho=True)
mp('py1n', 1, [[1, 1.0004, 1.00005, 2]], 'crazy', dict(c=0., bounds=B1), area=1., ortho=True)
mp('py2n', 2, [[1, 1.0004, 2], [2, 2.0001, 2.004]], 'crazy', dict(c=0., bounds=G2), area=1.5 * 1.25, ortho=True)
mp('py3n', 3, [[1, 1.0004], [2, 2.0001, 2.004], [2, 2.003]], 'crazy', dict(c=0., bounds=B3), area=1, ortho=True)
mp('py2p', 2, [3, 3], 'crazy', dict(c=0.05, bounds=B2, periodic=True), area=1, periodic=True)
mp('py1s', 1, [1], 'crazy', dict(c=0.1, bounds=B1, periodic=True), area=1., periodic=True)
mp('py2s', 2, [3, 1], 'crazy', dict(c=0.05, bounds=B2, periodic=True), area=1, periodic=True)
mp('py2s1', 2, [1, 1], 'crazy', dict(c=0.05, bounds=B2, periodic=True), area=1, periodic=True)
mp('py2s2', 2, [1, 2], 'crazy', dict(c=0., bounds=B2, periodic=True), area=1, periodic=True, ortho=True)
mp('py2m', 2, [2, 3], 'crazy_multi', dict(c=0.05, bounds=G2, Ns=[2, 2]), area=1.5 * 1.25)
mp('py2mp', 2, [2, 2], 'crazy_multi', dict(c=0.05, bounds=B2, Ns=[2, 2], periodic=True), area=1, periodic=True)
mp('py2b', 2, 2, 'backward_step', {}, ortho=True)
mp('py2c', 2, 1, 'cylinder_channel', {})
mp('py3', 3, [2, 3, 2], 'crazy', dict(c=0.05, bounds=G3), area=1.5 * .75)
mp('py3o', 3, [2, 1, 3], 'crazy', dict(c=0., bounds=G3), area=1.5 * .75, ortho=True)
mp('py3p', 3, [3, 2, 2], 'crazy', dict(c=0.03, bounds=B3, periodic=True), area=1, periodic=True)
mp('py3m', 3, [1, 2, 1], 'crazy_multi', dict(c=0.03, bounds=B3, Ns=[2, 1, 2]), area=1)
mp('py3b', 3, 1, 'backward_step', {}, ortho=True)
# ------------------------------------------------------------------ msehtt
mh('ht2', 2, ('crazy',), dict(element_layout=[3, 2], c=0.1, bounds=G2, periodic=False), area=1.5 * 1.25)
mh('ht2o', 2, ('crazy',), dict(element_layout=[2, 3], c=0., bounds=G2, periodic=False), area=1.5 * 1.25, ortho=True)
mh('ht2n', 2, ('crazy',), dict(element_layout=[[1, 1.0004, 2], [2, 2.0001, 2.004]], c=0., bounds=G2, periodic=False), area=1.5 * 1.25, ortho=True)
mh('ht3n', 3, ('crazy',), dict(element_layout=[[1, 1.0004], [2, 2.0001, 2.004], [2, 2.003]], c=0., bounds=B3, periodic=False), area=1, ortho=True)
mh('ht2p', 2, ('crazy',), dict(element_layout=3, c=0.05, bounds=B2, periodic=True), area=1, periodic=True)
mh('ht2op', 2, ('crazy',), dict(element_layout=[3, 4], c=0., bounds=B2, periodic=True), area=1, periodic=True, ortho=True)
mh('ht2s', 2, ('crazy',), dict(element_layout=[1, 3], c=0., bounds=B2, periodic=True), area=1, periodic=True, ortho=True)
mh('ht2m', 2, ('crazy_multi',), dict(element_layout=2, c=0.05, bounds=G2, Ns=[2, 2], periodic=False), area=1.5 * 1.25)
mh('ht2b', 2, ('backward_step',), dict(element_layout=2), ortho=True)
mh('ht2c', 2, ('cylinder_channel',), dict(element_layout=1))
mh('ht2r', 2, ('rectangle',), dict(element_layout=[3, 2]))
mh('ht2q', 2, ('quad',), dict(element_layout=3))
mh('ht2ch', 2, ('chaotic',), dict(element_layout=3, c=0., periodic=False))
mh('ht2chp', 2, ('chaotic',), dict(element_layout=3, c=0., periodic=True), periodic=True)
mh('ht2chc', 2, ('chaotic',), dict(element_layout=3, c=0.1, periodic=False), nomass=True)
mh('ht2cht', 2, ('chaotic',), dict(element_layout=2, c=0.1, periodic=False, trf=1), nomass=True, tri=True, nobdry=True)
mh('ht2trf', 2, ('crazy',), dict(element_layout=2, c=0.1, bounds=B2, periodic=False, trf=1), area=1, nomass=True, tri=True)
mh('ht2trfo', 2, ('crazy',), dict(element_layout=3, c=0., bounds=B2, periodic=False, trf=1), area=1, nomass=True, tri=True)
mh('ht2trfp', 2, ('crazy',), dict(element_layout=3, c=0., bounds=B2, periodic=True, trf=1), area=1, nomass=True, tri=True, periodic=True)
mh('ht2trf2p', 2, ('crazy',), dict(element_layout=[6, 3], c=0., bounds=B2, periodic=True, trf=2), area=1, nomass=True, tri=True, periodic=True)
mh('ht2trf2q', 2, ('crazy',), dict(element_layout=[3, 6], c=0., bounds=B2, periodic=True, trf=2), area=1, nomass=True, tri=True, periodic=True)
mh('ht2ts', 2, ('crazy',), dict(element_layout=2, c=0., bounds=B2, periodic=False, ts=1), area=1)
mh('ht2bt', 2, ('backward_step',), dict(element_layout=1, trf=1), nomass=True, tri=True)
mh('ht2mp', 2, ('meshpy',), dict(points=((0, 0), (1, 0), (1, 1), (0, 1)), max_volume=0.09), area=1, nomass=True, tri=True)
mh('ht2mpt', 2, ('meshpy',), dict(points=((0, 0), (1.2, 0), (1, 1), (0.1, .9)), max_volume=0.12, ts=1))
mh('ht3', 3, ('crazy',), dict(element_layout=[2, 3, 2], c=0.05, bounds=G3, periodic=False), area=1.5 * .75)
mh('ht3o', 3, ('crazy',), dict(element_layout=[2, 2, 3], c=0., bounds=G3, periodic=False), area=1.5 * .75, ortho=True)
mh('ht3p', 3, ('crazy',), dict(element_layout=3, c=0., bounds=B3, periodic=True), area=1, periodic=True, ortho=True)
mh('ht3pc', 3, ('crazy',), dict(element_layout=3, c=0.03, bounds=B3, periodic=True), area=1, periodic=True)
mh('ht3b', 3, ('backward_step',), dict(element_layout=1), ortho=True)


# ------------------------------------------------------------------ random unstructured 2d meshes
def random_quads(rng, Kx, Ky, amp=0.22, tri=0., rotate=True, flip=False, stretch=(1., 1.), origin=(0., 0.)):
    """element type 9 = quad (4 vertices in circular order), 5 = triangle."""
    V = {}
    for i in range(Kx + 1):
        for j in range(Ky + 1):
            dx, dy = rng.uniform(-amp, amp, 2) / np.array([Kx, Ky])
            if i in (0, Kx):
                dx = 0
            if j in (0, Ky):
                dy = 0
            V[(i, j)] = (origin[0] + (i / Kx + dx) * stretch[0], origin[1] + (j / Ky + dy) * stretch[1])
    num = {v: n for n, v in enumerate(V)}
    td, md, pd = {}, {}, {}
    e = 0

    def add(vs):
        nonlocal e
        if rotate:
            r = int(rng.integers(len(vs)))
            vs = vs[r:] + vs[:r]
        if flip and rng.random() < .5:
            vs = vs[::-1]
        td[e] = 9 if len(vs) == 4 else 5
        md[e] = [num[v] for v in vs]
        pd[e] = [V[v] for v in vs]
        e += 1

    for i in range(Kx):
        for j in range(Ky):
            q = [(i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)]
            if rng.random() < tri:
                if rng.random() < .5:
                    add(q[:3]), add([q[0], q[2], q[3]])
                else:
                    add([q[0], q[1], q[3]]), add(q[1:])
            else:
                add(q)
    return dict(element_type_dict=td, element_map_dict=md, element_parameter_dict=pd)


def rq(name, Kx, Ky, **kw):
    feat = dict(tri=kw.get('tri', 0) > 0, nomass=kw.get('tri', 0) > 0, area=1, unstructured=True)
    reg(name, 'msehtt', 2,
        lambda p, keys, rng: S.make_msehtt(2, (random_indicator(rng, Kx, Ky, **kw),), {}, p, keys), **feat)


def rankwise(m):
    """an ELEMENT-DICT belongs to the first rank only"""
    from phyem.src.config import RANK
    return m if RANK == 0 else {k: None for k in m}


def random_indicator(rng, Kx, Ky, **kw):
    """ELEMENT-DICT for pure quads, a vtu interface when there are triangles"""
    m = random_quads(rng, Kx, Ky, **kw)
    if 5 not in m['element_type_dict'].values():
        return rankwise(m)
    from phyem.msehtt.static.mesh.great.config.vtu import MseHttVtuInterface
    coo = {}
    for e, vs in m['element_map_dict'].items():
        for v, xy in zip(vs, m['element_parameter_dict'][e]):
            coo[v] = tuple(xy)
    return MseHttVtuInterface(coo, m['element_map_dict'], m['element_type_dict'])


rq('rq', 3, 3)
rq('rqn', 2, 3, rotate=False)
rq('rt', 3, 2, tri=1.)
rq('rqt', 3, 3, tri=.5)
