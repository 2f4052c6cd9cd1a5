"""C15: what is saved is what is read, also by another process; what does not match is refused."""
import os
import pickle
import struct
import tempfile
import xml.etree.ElementTree as ET
import numpy as np
from vm.lazy import S, ph                                                          # noqa
from vm import child
from vm import configs as C
from vm import geo as G

META = dict(
    rule='one distinct case per (what is saved, mesh configuration, degree, set of stored instants, reader)',
    assumptions=['the file system returns what was written', 'the auto-cleaning of cochains is switched off, or fewer instants are stored than it keeps'],
    note='Forms with random cochains at random sets of instants are saved and read back into the same form, into a newly built discretisation, into one whose '
         'elements and nodes are numbered differently, and by a fresh process; other meshes and degrees must be refused. Time-space fields, great meshes, '
         'pickles and VTK files are compared with independent reconstructions; VTK files are parsed from their bytes.',
    must_observe=['saved form', 'read again', 'read by number', 'rebuilt', 'other numbering', 'fresh process', 'refused', 'newest', 'snapshot', 'great mesh', 'phm forms',
                  'msepy save', 'msepy fresh process', 'tsf', 'tsf fresh process', 'pickle', 'vtk points', 'vtk values', 'vtk cells', 'cache data', 'unique refused',
                  'small elements'],
    why='Saving formats pair numbers with elements by geometric signatures; only reading files into differently numbered, tiny, or foreign meshes and '
        'from other processes shows whether the pairing is right.')


def tmp(name=''):
    return os.path.join(tempfile.mkdtemp(dir=os.environ['VM_SCRATCH']), name)


TIMES = [0, .5, 1.25, 1 / 3, -2., 1e-3, 12.5, 1e4, 2 / 7]


def keep_all(d):
    if d.impl == 'msehtt':
        ph.config.set_auto_cleaning(False)


def grid(n):
    return [np.array([-.7, .1, .83])] * n


def snapshot(d, key):
    """{time: {element: cochain}} and the fields at some points"""
    f = d.F[key]
    times = sorted(f.cochain._tcd) if d.impl == 'msepy' else sorted(f.cochain.times)
    coch = {t: d.get(key, t) for t in times}
    rec = {}
    if d.ndofs(key):
        for t in times:
            try:
                rec[t] = d.recon(key, t, *grid(d.n))
            except NotImplementedError:
                break
    return coch, rec


def equal(ctx, got, want, key, detail='', tol=0.):
    ctx.eq(sorted(got[0]), sorted(want[0]), f'{key}|times', detail)
    for t in want[0]:
        if t not in got[0]:
            continue
        ctx.eq(set(got[0][t]), set(want[0][t]), f'{key}|elements', detail)
        for e in want[0][t]:
            ctx.close(got[0][t][e], want[0][t][e], f'{key}|cochain', tol, f'{detail} t={t} e={e}')
    for t in want[1]:
        for e in want[1][t]:
            a, b = got[1][t][e][1], want[1][t][e][1]
            ok = np.isfinite(b)
            ctx.close(np.where(ok, a, 0), np.where(ok, b, 0), f'{key}|field', max(tol, 1e-10), f'{detail} t={t} e={e}', scale=max(1., np.max(np.abs(b[ok]), initial=0)))


def fill(d, rng, lo=1, hi=5):
    for key in d.F:
        m = int(rng.integers(lo, hi))
        for t in rng.permutation(len(TIMES))[:m]:
            d.random_global(key, TIMES[t], rng)


# ------------------------------------------------------------------------------------------------ static forms of msehtt

def child_read(conf, p, seed, files):
    d = C.build(conf, p, rng=np.random.default_rng(seed))
    keep_all(d)
    out = {}
    for key, f in files.items():
        d.F[key].read(f)
        out[key] = snapshot(d, key)
    return out


def forms(ctx, conf, p, fresh_process):
    rng = ctx.rng
    seed = int(rng.integers(1 << 30))
    d = C.build(conf, p, rng=np.random.default_rng(seed))
    keep_all(d)
    fill(d, rng)
    files, want = {}, {}
    for key, F in d.F.items():
        want[key] = snapshot(d, key)
        files[key] = tmp(f'f{key[0]}{key[1]}')
        F.saveto(files[key])
        ctx.case('form', conf, p, key, sorted(want[key][0]))
        ctx.event('saved form')
        m = int(rng.integers(1, 4))
        g = tmp('newest')
        F.saveto(g, what=m)
        # the file is a snapshot: later changes of the form do not reach it
        for t in list(want[key][0]):
            d.random_global(key, t, rng)
        for t in want[key][0]:
            c = F[t].cochain
            for e in d.elements[:2]:
                c[e][...] = 77.
        F.read(files[key])
        equal(ctx, snapshot(d, key), want[key], 'snapshot', f'{conf} {key}')
        F.cochain.clean('all')
        F.read(files[key])
        equal(ctx, snapshot(d, key), want[key], 'read again', f'{conf} {key}')
        ctx.eq(F.cochain.newest, max(want[key][0]), 'read again|newest', f'{conf} {key}')
        # reading adds to what is there
        F.cochain.clean('all')
        extra = 3.5
        d.random_global(key, extra, rng)
        mine = d.get(key, extra)
        F.read(g)
        ts = sorted(want[key][0])[-m:]
        w = {t: want[key][0][t] for t in ts}
        w[extra] = mine
        equal(ctx, (snapshot(d, key)[0], {}), (w, {}), 'newest', f'{conf} {key} what={m}')
        ctx.raises(lambda: F.saveto(tmp('x'), what=-1), 'refused|what', conf)
        # instants one by one
        F.cochain.clean('all')
        F.read(files[key])
        for t in want[key][0]:
            ctx.close(F[t].cochain[d.elements[0]], want[key][0][t][d.elements[0]], 'read by number', 0)
        # data for caching: the newest instant only
        cd = F._make_cache_data()
        cd = pickle.loads(pickle.dumps(cd))
        F.cochain.clean('all')
        F._read_cache_data(cd)
        t = max(want[key][0])
        equal(ctx, (snapshot(d, key)[0], {}), ({t: want[key][0][t]}, {}), 'cache data', f'{conf} {key}')
    # another discretisation built alike
    D = C.build(conf, p, rng=np.random.default_rng(seed))
    keep_all(D)
    for key in files:
        D.F[key].read(files[key])
        equal(ctx, snapshot(D, key), want[key], 'rebuilt', f'{conf} {key}')
    if fresh_process:
        try:
            got = child.call('vm.checks.c15', 'child_read', conf=conf, p=p, seed=seed, files=files)
        except child.ChildFailed as ex:
            if not ex.in_repo:
                raise
            ctx.fail('fresh process', str(ex))
            return
        for key in files:
            equal(ctx, got[key], want[key], 'fresh process', f'{conf} {key}', 1e-14)
    # another degree
    D = C.build(conf, p + 1, rng=np.random.default_rng(seed))
    keep_all(D)
    for key in files:
        if D.F[key].cochain.gathering_matrix[D.elements[0]].shape == d.F[key].cochain.gathering_matrix[d.elements[0]].shape:
            continue
        refuse(ctx, D, key, files[key], f'{conf} degree {p} read with degree {p + 1} {key}')


def refuse(ctx, D, key, file, detail):
    """reading raises, or leaves no usable numbers of a wrong shape behind"""
    try:
        D.F[key].read(file)
    except Exception:                                                              # noqa
        ctx.true(True, 'refused')
        return
    ok = all(np.shape(D.F[key][t].cochain[e]) == np.shape(D.gm(key)[e]) for t in D.F[key].cochain.times for e in D.elements)
    if not ok:
        try:                                                                       # loud as soon as it is used
            for t in D.F[key].cochain.times:
                D.recon(key, t, *grid(D.n))
        except Exception:                                                          # noqa
            ctx.true(True, 'refused')
            return
    ctx.fail('refused', f'{detail}: read without an exception')


def other_mesh(ctx, a, b, p):
    """files of a mesh are refused by another one"""
    rng = ctx.rng
    d = C.build(a, p, rng=np.random.default_rng(int(rng.integers(1 << 30))))
    keep_all(d)
    fill(d, rng)
    D = C.build(b, p, rng=np.random.default_rng(int(rng.integers(1 << 30))))
    keep_all(D)
    for key in d.F:
        if key not in D.F:
            continue
        ctx.case('other mesh', a, b, p, key)
        f = tmp('f')
        d.F[key].saveto(f)
        refuse(ctx, D, key, f, f'{a} read by {b} {key}')


def small(ctx, scale, p, dim):
    """meshes of tiny elements: the right numbers, or an exception"""
    rng = ctx.rng
    for _ in range(2):
        o = float(rng.uniform(-1, 1)) if rng.random() < .5 else 0.
        b = [[o, o + scale * float(rng.uniform(.6, 1.4))] for _ in range(dim)]
        kw = dict(element_layout=3 if dim == 2 else 2, c=0., bounds=b, periodic=False)
        d = S.make_msehtt(dim, ('crazy',), dict(kw), p)
        keep_all(d)
        fill(d, rng)
        for key in list(d.F)[::2]:
            ctx.case('small', scale, dim, key)
            want = snapshot(d, key)
            f = tmp('f')
            try:
                d.F[key].saveto(f)
                d.F[key].cochain.clean('all')
                d.F[key].read(f)
            except AssertionError:
                ctx.event('small elements')
                if scale >= 1e-4:
                    ctx.fail('small elements|usable', f'scale {scale} {dim}d {key}')
                continue
            equal(ctx, snapshot(d, key), want, 'small elements', f'scale {scale} {dim}d {key}')


# ------------------------------------------------------------------------------------------------ other numberings

def renumber(rng, m):
    """the same mesh (ELEMENT-DICT) with permuted elements and nodes, and other element names"""
    els = list(m['element_type_dict'])
    nodes = sorted({v for vs in m['element_map_dict'].values() for v in vs})
    pe = dict(zip(els, [int(i) for i in rng.permutation(len(els))]))
    pn = dict(zip(nodes, [int(i) + 5 for i in rng.permutation(len(nodes))]))
    order = [int(i) for i in rng.permutation(len(els))]
    td, md, pd = {}, {}, {}
    for i in order:
        e = els[i]
        td[pe[e]] = m['element_type_dict'][e]
        md[pe[e]] = [pn[v] for v in m['element_map_dict'][e]]
        pd[pe[e]] = m['element_parameter_dict'][e]
    return dict(element_type_dict=td, element_map_dict=md, element_parameter_dict=pd)


def as_indicator(m):
    if 5 not in m['element_type_dict'].values():
        return m
    from phyem.msehtt.static.mesh.great.config.vtu import MseHttVtuInterface
    coo = {}
    for e, vs in m['element_map_dict'].items():
        for v, xy in zip(vs, m['element_parameter_dict'][e]):
            coo[v] = tuple(xy)
    return MseHttVtuInterface(coo, m['element_map_dict'], m['element_type_dict'])


def numbering(ctx, tri, p, rounds):
    rng = ctx.rng
    for r in range(rounds):
        m = C.random_quads(rng, int(rng.integers(1, 4)), int(rng.integers(1, 4)), tri=tri, rotate=bool(rng.integers(2)))
        d = S.make_msehtt(2, (as_indicator(m),), {}, p)
        keep_all(d)
        fill(d, rng, 1, 3)
        files = {}
        want = {}
        for key in d.F:
            files[key] = tmp('f')
            d.F[key].saveto(files[key])
            rec = {}
            for t in d.F[key].cochain.times:
                rc = d.recon(key, t, *grid(2))
                rec[t] = (np.concatenate([rc[e][0] for e in d.elements], 1), np.concatenate([rc[e][1] for e in d.elements], 1))
            want[key] = rec
        D = S.make_msehtt(2, (as_indicator(renumber(rng, m)),), {}, p)
        keep_all(D)
        for key in d.F:
            ctx.case('numbering', tri, p, r, key)
            D.F[key].read(files[key])
            for t in want[key]:
                x, v = want[key][t]
                rc = D.recon(key, t, *grid(2))
                X = np.concatenate([rc[e][0] for e in D.elements], 1)
                V = np.concatenate([rc[e][1] for e in D.elements], 1)
                from scipy.spatial import cKDTree
                dist, at = cKDTree(X.T).query(x.T)
                ctx.close(dist, 0 * dist, 'other numbering|points', 1e-10)
                ok = np.isfinite(v)
                ctx.close(np.where(ok, V[:, at], 0), np.where(ok, v, 0), 'other numbering|field', 1e-9, f'tri={tri} p={p} {key}',
                          scale=max(1., np.max(np.abs(v[ok]), initial=0)))


# ------------------------------------------------------------------------------------------------ great meshes

def phm(ctx, conf, p):
    rng = ctx.rng
    d = C.build(conf, p, rng=np.random.default_rng(int(rng.integers(1 << 30))))
    keep_all(d)
    f = tmp('mesh')
    ets = {d.etype(e) for e in d.elements}
    ctx.case('great mesh', conf, p)
    if any('unique' in str(t) for t in ets):
        ctx.raises(lambda: d.tgm.saveto(f), 'unique refused', conf)
        return
    ctx.raises(lambda: d.tgm.saveto(tmp('mesh.txt')), 'refused|extension', conf)
    d.tgm.saveto(f + str(rng.choice(['', '.phm'])))
    name = f + '.phm'
    D = S.make_msehtt(d.n, (name,), {}, p, mperiodic=C.CONF[conf].get('periodic', False))
    keep_all(D)
    ctx.eq(sorted(map(str, D.tgm.elements)), sorted(map(str, d.tgm.elements)), 'great mesh|elements', conf)
    xi = [np.array([-1., 1., .3, -.2])] * d.n
    for e in d.elements:
        ctx.eq(D.etype(e), d.etype(e), 'great mesh|type', conf)
        ctx.eq([int(i) for i in D.tgm.elements[e].map_], [int(i) for i in d.tgm.elements[e].map_], 'great mesh|map', conf)
        ctx.close(D.mapping(e, *xi), d.mapping(e, *xi), 'great mesh|geometry', 0, conf)
    for key in d.F:
        if d.ndofs(key) != D.ndofs(key):
            ctx.fail('great mesh|numbering', f'{conf} {key}')
            continue
        ctx.true(all(np.array_equal(d.gm(key)[e], D.gm(key)[e]) for e in d.elements), 'great mesh|numbering', f'{conf} {key}')
    fill(d, rng, 1, 3)
    for key in d.F:
        g = tmp('f')
        d.F[key].saveto(g)
        D.F[key].read(g)
        equal(ctx, snapshot(D, key), snapshot(d, key), 'phm forms', f'{conf} {key}')


# ------------------------------------------------------------------------------------------------ msepy

def child_msepy(file, load_n):
    ph.config.set_embedding_space_dim(load_n)
    o = ph.read(file)
    out = {}
    for k, f in o.items():
        ts = sorted(f.cochain._tcd)
        rec = {}
        for t in ts:
            x, v = f[t].reconstruct(*grid(load_n), ravel=True) if load_n > 1 else f[t].reconstruct(*grid(load_n))
            rec[t] = (np.array(x), np.array(v))
        out[k] = ({t: np.array(f[t].cochain.local) for t in ts}, rec, [float(f[t].norm()) for t in ts],
                  {e: np.array(f.cochain.gathering_matrix[e]) for e in range(len(f.mesh.elements))})
    return out


def msepy(ctx, conf, p, fresh_process):
    rng = ctx.rng
    d = C.build(conf, p, rng=rng)
    fill(d, rng)
    n = d.n
    f = tmp('objs')
    ks = [list(d.F)[i] for i in rng.permutation(len(d.F))[:int(rng.integers(1, 5))]]
    ph.save(*[d.F[k] for k in ks], filename=f)
    want = {}
    for k in ks:
        F = d.F[k]
        ts = sorted(F.cochain._tcd)
        want[F.abstract._pure_lin_repr] = ({t: np.array(F[t].cochain.local) for t in ts}, {t: d.recon(k, t, *grid(n)) for t in ts}, [float(F[t].norm()) for t in ts],
                                           {e: np.array(F.cochain.gathering_matrix[e]) for e in d.elements})
        for t in ts:
            d.random_global(k, t, rng)                                             # the file is a snapshot
    ctx.case('msepy', conf, p, ks)

    def check(got, key):
        ctx.eq(set(got), set(want), f'{key}|names', conf)
        for nm in want:
            if nm not in got:
                continue
            c, rec, no, gm = got[nm]
            ctx.eq(sorted(c), sorted(want[nm][0]), f'{key}|times', f'{conf} {nm}')
            for t in want[nm][0]:
                ctx.close(c[t], want[nm][0][t], f'{key}|cochain', 0, f'{conf} {nm}')
                x, v = rec[t]
                for e in d.elements:
                    ctx.close(x[:, e], want[nm][1][t][e][0], f'{key}|points', 1e-13, conf)
                    ctx.close(v[:, e], want[nm][1][t][e][1], f'{key}|field', 1e-11, conf, scale=max(1., np.max(np.abs(want[nm][1][t][e][1]))))
            ctx.close(no, want[nm][2], f'{key}|norm', 1e-11, conf)
            ctx.true(all(np.array_equal(gm[e], want[nm][3][e]) for e in d.elements), f'{key}|numbering', conf)

    o = ph.read(f)
    got = {}
    for k, F in o.items():
        ts = sorted(F.cochain._tcd)
        rec = {}
        for t in ts:
            x, v = F[t].reconstruct(*grid(n), ravel=True) if n > 1 else F[t].reconstruct(*grid(n))
            rec[t] = (np.array(x), np.array(v))
        got[k] = ({t: np.array(F[t].cochain.local) for t in ts}, rec, [float(F[t].norm()) for t in ts],
                  {e: np.array(F.cochain.gathering_matrix[e]) for e in d.elements})
    check(got, 'msepy save')
    if fresh_process:
        try:
            check(child.call('vm.checks.c15', 'child_msepy', file=f, load_n=n), 'msepy fresh process')
        except child.ChildFailed as ex:
            if not ex.in_repo:
                raise
            ctx.fail('msepy fresh process', str(ex))
    ctx.raises(lambda: ph.save(object(), filename=tmp('x')), 'refused|object')


# ------------------------------------------------------------------------------------------------ fields, pickles

def child_tsf(file, pts, t):
    ph.config.set_embedding_space_dim(3)
    f = ph.read_tsf(file)
    return np.array(f(t, *pts))


def tsf(ctx, conf, p, fresh_process):
    rng = ctx.rng
    d = C.build(conf, p, rng=rng)
    keep_all(d)
    ts = [0., .5]
    for key in d.F:
        for t in ts:
            d.random_global(key, t, rng)
    for key in d.F:
        t = ts[int(rng.integers(2))]
        f = tmp('tsf')
        ddf = float(rng.choice([.02, .1]))
        d.F[key][t].export.tsf(f, ddf=ddf)
        g = ph.read_tsf(f)
        ctx.case('tsf', conf, p, key, t)
        co = d.F[key].numeric._interpolate_(t, ddf=ddf, data_only=True)[1]
        m = round((len(co[0]) / len(d.elements)) ** (1 / 3))
        q = np.linspace(-1, 1, m + 1)
        q = (q[1:] + q[:-1]) / 2
        rc = d.recon(key, t, q, q, q)
        X = np.concatenate([rc[e][0] for e in d.elements], axis=1)
        V = np.concatenate([rc[e][1] for e in d.elements], axis=1)
        pick = rng.integers(X.shape[1], size=40)
        sc = max(1., np.max(np.abs(V)))
        for tt in (0., 3.3):
            got = np.array(g(tt, *X[:, pick])).reshape(len(V), -1)
            ctx.close(got, V[:, pick], 'tsf', 1e-9, f'{conf} {key}', scale=sc)
        if fresh_process:
            got = child.call('vm.checks.c15', 'child_tsf', file=f, pts=X[:, pick], t=1.)
            ctx.close(got.reshape(len(V), -1), V[:, pick], 'tsf fresh process', 1e-9, f'{conf} {key}', scale=sc)
            fresh_process = False
    bad = tmp('bad')
    with open(bad, 'wb') as o:
        pickle.dump({'a': 1}, o)
    ctx.raises(lambda: ph.read_tsf(bad), 'refused|tsf')


def same_obj(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_obj(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same_obj, a, b))
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and np.array_equal(a, b)
    return a == b


def pickles(ctx, rounds):
    from phyem.tools.miscellaneous import pickle_ as P
    rng = ctx.rng

    def rnd(depth):
        k = int(rng.integers(7 if depth else 4))
        if k == 0:
            return rng.standard_normal(tuple(rng.integers(0, 4, int(rng.integers(1, 3)))))
        if k == 1:
            return int(rng.integers(-9, 9))
        if k == 2:
            return float(rng.standard_normal())
        if k == 3:
            return ['a', None, True, 'x' * 50][int(rng.integers(4))]
        if k == 4:
            return [rnd(depth - 1) for _ in range(int(rng.integers(4)))]
        if k == 5:
            return {(i if rng.random() < .5 else f'k{i}'): rnd(depth - 1) for i in range(int(rng.integers(4)))}
        return tuple(rnd(depth - 1) for _ in range(int(rng.integers(4))))

    for i in range(rounds):
        o = rnd(3)
        f = tmp('p')
        ctx.case('pickle', i, type(o).__name__)
        P.ms(f, o)
        ctx.true(same_obj(P.mr(f), o), 'pickle|master')
        ctx.true(same_obj(P.r(f), o), 'pickle|all ranks')
        P.ms(f, {'again': o})                                                      # the file is replaced, not appended to
        ctx.true(same_obj(P.mr(f), {'again': o}), 'pickle|again')
    f = tmp('notdict')
    P.ms(f, [1, 2])
    ctx.raises(lambda: ph.read(f), 'refused|not a dict')
    P.ms(f, {'key': 'unknown thing'})
    ctx.raises(lambda: ph.read(f), 'refused|unknown key')


# ------------------------------------------------------------------------------------------------ vtk

def parse_vtu(path):
    raw = open(path, 'rb').read()
    i = raw.index(b'<AppendedData')
    j = raw.index(b'_', i) + 1
    k = raw.rindex(b'</AppendedData>')
    root = ET.fromstring(raw[:i] + b'</VTKFile>')
    blob = raw[j:k]
    hs = {'UInt64': 8, 'UInt32': 4}[root.attrib.get('header_type', 'UInt32')]

    def arr(el):
        o = int(el.attrib['offset'])
        n = struct.unpack('<Q' if hs == 8 else '<I', blob[o:o + hs])[0]
        a = np.frombuffer(blob[o + hs:o + hs + n], dtype=dict(Float64='<f8', Float32='<f4', Int64='<i8', Int32='<i4', Int8='i1', UInt8='u1')[el.attrib['type']])
        c = int(el.attrib.get('NumberOfComponents', 1))
        return a.reshape(-1, c) if c > 1 else a
    piece = root.find('.//Piece')
    pts = arr(piece.find('./Points/DataArray'))
    cells = {e.attrib['Name']: arr(e) for e in piece.findall('./Cells/DataArray')}
    data = {e.attrib['Name']: arr(e) for e in piece.findall('./PointData/DataArray')}
    return pts, cells, data, (int(piece.attrib['NumberOfPoints']), int(piece.attrib['NumberOfCells']))


def vtk(ctx, conf, p, single=False):
    rng = ctx.rng
    d = C.build(conf, p, rng=rng)
    keep_all(d)
    n = d.n
    for key in d.F:
        for t in (0., .5):
            d.random_global(key, t, rng)
    keys = list(d.F)
    for r in range(3):
        ks = [keys[i] for i in rng.permutation(len(keys))[:1 if r == 0 else int(rng.integers(1, 4))]]
        t = float(rng.choice([0., .5]))
        f = tmp('x')
        ddf = float(rng.choice([.5, 1., 1.5]))
        ext = ['', '.vtu', '.vtk'][int(rng.integers(3))]
        if r == 0:
            d.F[ks[0]][t].export.vtk(f, ddf=ddf)
        else:
            with_dir = os.getcwd()
            os.chdir(os.path.dirname(f))
            try:
                ph.vtk('x' + ext, *[d.F[k][t] for k in ks], ddf=ddf)
            finally:
                os.chdir(with_dir)
        ctx.case('vtk', conf, p, ks, t, ddf, ext)
        pts, cells, data, num = parse_vtu(f + '.vtu')
        ctx.eq((len(pts), len(cells['types'])), num, 'vtk points|number')
        ctx.eq(set(data), {d.F[k].abstract._pure_lin_repr for k in ks}, 'vtk values|names', conf)
        m = max(3, int(5 * ddf))
        g = np.linspace(-1, 1, m)
        from scipy.spatial import cKDTree
        for k in ks:
            rc = d.recon(k, t, *[g] * n)
            V = data[d.F[k].abstract._pure_lin_repr].reshape(len(pts), -1)
            if d.ncomp(k) == 1 or n == 3:
                V = V[:, :d.ncomp(k)]
            else:
                ctx.close(V[:, 2], 0 * V[:, 2], 'vtk values|third component', 0)
                V = V[:, :2]
            P = pts[:, :n]
            tree = cKDTree(P)
            best = np.full(len(P), np.inf)
            hits = np.zeros(len(P), int)
            for e in d.elements:
                x, v = rc[e]
                dist, at = tree.query(x.T)
                ctx.close(dist, 0 * dist, 'vtk points|of every element', 1e-6, f'{conf} e={e}')
                dev = np.max(np.abs(V[at] - v.T), axis=1)
                np.minimum.at(best, at, dev)
                np.add.at(hits, at, 1)
            ctx.true(np.all(hits > 0), 'vtk points|of no element', conf)
            sc = max(1., np.max([np.max(np.abs(rc[e][1])) for e in d.elements]))
            ctx.close(best, 0 * best, 'vtk values', 1e-9, f'{conf} {k} t={t}', scale=sc)
        if n == 2:
            ctx.close(pts[:, 2], 0 * pts[:, 2], 'vtk points|third coordinate', 0)
        # cells: they tile the domain
        off = np.concatenate([[0], cells['offsets']])
        ctx.eq(int(off[-1]), len(cells['connectivity']), 'vtk cells|offsets')
        tot, want = 0., 0.
        for i, ty in enumerate(cells['types']):
            x = pts[cells['connectivity'][off[i]:off[i + 1]], :n]
            if int(ty) in (9, 5, 7):
                a = .5 * np.sum(x[:, 0] * np.roll(x[:, 1], -1) - np.roll(x[:, 0], -1) * x[:, 1])
                tot += abs(a)
            elif int(ty) == 11:
                tot += hexvol(x[[0, 1, 3, 2, 4, 5, 7, 6]])
            elif int(ty) == 12:
                tot += hexvol(x)
            else:
                ctx.fail('vtk cells|type', str(ty))
        for e in d.elements:
            if n == 2:
                q = np.meshgrid(g, g, indexing='ij')
                X = d.mapping(e, *[a.ravel() for a in q]).reshape(2, m, m)
                c = [X[:, :-1, :-1], X[:, 1:, :-1], X[:, 1:, 1:], X[:, :-1, 1:]]
                a = sum(.5 * (c[i][0] * c[(i + 1) % 4][1] - c[(i + 1) % 4][0] * c[i][1]) for i in range(4))
                want += np.sum(np.abs(a))
            else:
                q = np.array([-1., 1.])
                b = d.mapping(e, *[a.ravel() for a in np.meshgrid(q, q, q, indexing='ij')])
                want += np.prod(np.ptp(b, axis=1))
        ctx.close(tot, want, 'vtk cells|area', 1e-6, conf)
    ctx.raises(lambda: ph.vtk(tmp('x') + '.png', d.F[keys[0]][0.]), 'refused|vtk extension')


def hexvol(x):
    """volume of a hexahedron with 8 ordered vertices (vtk order)"""
    o = x[0]
    tets = [(0, 1, 2, 6), (0, 2, 3, 6), (0, 3, 7, 6), (0, 7, 4, 6), (0, 4, 5, 6), (0, 5, 1, 6)]
    return abs(sum(np.dot(np.cross(x[b] - x[a], x[c] - x[a]), x[e] - x[a]) / 6 for a, b, c, e in tets)) + 0 * o[0]


def UNITS(tier):
    th = tier != 'quick'
    out = []
    ht = ['ht2', 'ht2o', 'ht2p', 'ht2m', 'ht2trf', 'ht2ts', 'ht2mp', 'rq', 'rqt', 'ht3o', 'ht3']
    if th:
        ht += ['ht2n', 'ht2op', 'ht2b', 'ht2c', 'ht2r', 'ht2q', 'ht2trfp', 'ht2bt', 'ht2mpt', 'rqn', 'rt', 'ht3n', 'ht3p', 'ht3b']
    for i, c in enumerate(ht):
        for p in ((2,) if not th else (1, 2, 3) if C.CONF[c]['n'] == 2 else (1, 2)):
            out.append((f'forms {c} p{p}', forms, dict(conf=c, p=p, fresh_process=th or i % 3 == 0)))
    for a, b in (('ht2o', 'ht2'), ('ht2', 'ht2o'), ('rq', 'rqn'), ('ht3o', 'ht3n'), ('rqt', 'rt'), ('ht2trf', 'ht2trfo')):
        out.append((f'other {a} {b}', other_mesh, dict(a=a, b=b, p=2)))
    for s in (1e-2, 1e-3, 1e-4, 1e-5, 1e-9):
        out.append((f'small 2d {s}', small, dict(scale=s, p=1, dim=2)))
        out.append((f'small 3d {s}', small, dict(scale=s, p=1, dim=3)))
    for tri in (0., .5, 1.):
        for p in ((2,) if not th else (1, 2, 3)):
            out.append((f'numbering {tri} p{p}', numbering, dict(tri=tri, p=p, rounds=2 if not th else 8)))
    for c in ['ht2', 'ht2o', 'ht2p', 'ht2op', 'ht2r', 'ht2b', 'ht2trfo', 'ht2ts', 'ht2mp', 'rq', 'rqt', 'ht3o', 'ht3p'] + (['ht2mpt', 'ht2bt', 'rt', 'ht3b', 'ht3n', 'ht2q'] if th else []):
        out.append((f'phm {c}', phm, dict(conf=c, p=2)))
    for i, c in enumerate(['py1', 'py1p', 'py2', 'py2o', 'py2m', 'py2p', 'py2b', 'py3', 'py3o'] + (['py1o', 'py2c', 'py2n', 'py2mp', 'py3m', 'py3p', 'py3b'] if th else [])):
        for p in ((2,) if not th else (1, 2, 3) if C.CONF[c]['n'] < 3 else (1, 2)):
            out.append((f'msepy {c} p{p}', msepy, dict(conf=c, p=p, fresh_process=th or i % 3 == 0)))
    for i, c in enumerate(['ht3o', 'ht3p'] + (['ht3n', 'ht3b'] if th else [])):
        out.append((f'tsf {c}', tsf, dict(conf=c, p=2 if i < 1 else 1, fresh_process=i == 0)))
    out.append(('pickles', pickles, dict(rounds=40 if not th else 300)))
    for c in ['ht2', 'ht2o', 'ht2n', 'ht2p', 'ht2b', 'ht2q', 'ht2r', 'rq', 'ht3o'] + (['ht2op', 'ht2m', 'ht2c', 'ht2ch', 'ht2ts', 'rqn', 'ht3n', 'ht3b'] if th else []):
        for p in ((2,) if not th else (1, 2, 3)):
            if C.CONF[c]['n'] == 3 and p == 3:
                continue
            out.append((f'vtk {c} p{p}', vtk, dict(conf=c, p=p)))
    return out
