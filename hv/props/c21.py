"""C21: the arrays handed to the output libraries are the fields of the model at the same cells."""
import z3
from hv.common import *
from hv.interp import PathV, OpaqueAttr
from hv.props.c07 import formats

OUT = 'hyvr.postprocess.output'
FIELDS = ('k_iso', 'anirat', 'dip', 'azim', 'poros', 'facies')


def zb(x):
    return x if is_z(x) else z3.BoolVal(bool(x))


def setup(I, fields=FIELDS, tensors=False):
    I.module(OUT)
    I.module('hyvr.geo.model')
    g = make_grid(I)
    for n, l, d in (('nx', 'lx', 'dx'), ('ny', 'ly', 'dy'), ('nz', 'lz', 'dz')):       # C08: cells fill the domain exactly
        I.assume(z3.ToReal(zint(g.attrs[n])) * zreal(g.attrs[d]) == zreal(g.attrs[l]))
    sh = tuple(g.attrs[x] for x in ('nx', 'ny', 'nz'))
    data = {f: ufarr('data_' + f, sh) for f in fields}
    if tensors:
        data['ktensors'] = ufarr('data_ktensors', sh + (3, 3))
    flow = D(dict(hin=L([real('hin')]), hout=L([real('hout')]), gradh=None, q_in=None))
    I.model = I.obj('hyvr.geo.model', 'Model', grid=g, data=D(dict(data)), flowtrans=flow)
    I.path = PathV((z3.String('realdir'), z3.String('runname')))
    I.calls = []
    I.opaque_calls['pathlib.Path'] = lambda I, a, k: a[0] if isinstance(a[0], PathV) else PathV((a[0],))
    I.path_calls = {'mkdir': lambda I, p, a, k: None}

    def rec(I, nm, a, k):
        I.calls.append((nm, a, k))
        return OpaqueAttr('made.' + nm.split('.')[-1])
    I.opaque_prefix = [(x, rec) for x in ('flopy.', 'made.', 'pyevtk', 'scipy.io', 'h5py', 'pickle')]
    return g, data


def same(I, v, want):
    """the field is written as it is (a copy is as good)"""
    if v is want:
        return z3.BoolVal(True)
    if v is None:
        return z3.BoolVal(False)
    if isinstance(v, D) and isinstance(want, D):
        if set(v.items) != set(want.items):
            return z3.BoolVal(False)
        return z3.And(*[same(I, v.items[k], want.items[k]) for k in want.items])
    if not isinstance(v, Arr) or len(v.shape) != len(want.shape):
        raise Unsupported('written value')
    ix = tuple(I.formals(len(v.shape), 'at'))
    return z3.And(*[zint(a) == zint(b) for a, b in zip(v.shape, want.shape)],
                  z3.Implies(I.in_shape(ix, want.shape), zreal(v.get(ix)) == zreal(want.get(ix))))


def call(I, *names):
    c = [x for x in I.calls if x[0].split('.')[-1] in names]
    if len(c) != 1:
        raise Unsupported('calls of %s' % '/'.join(names))
    return c[0]


def arg(c, name):
    if name not in c[2]:
        raise Unsupported('argument %s of %s' % (name, c[0]))
    return c[2][name]


def layers(I, what, A, fn, g):
    """A[layer, row, column] = fn(x, y, z), layer 0 at the top"""
    nx, ny, nz = (zint(g.attrs[x]) for x in ('nx', 'ny', 'nz'))
    if not isinstance(A, Arr) or len(A.shape) != 3:
        raise Unsupported(what)
    I.oblige(what + ': (layers, rows, columns)', z3.And(zint(A.shape[0]) == nz, zint(A.shape[1]) == ny, zint(A.shape[2]) == nx))
    l, r, c = I.formals(3, 'cell')
    I.assume(z3.And(l >= 0, l < nz, r >= 0, r < ny, c >= 0, c < nx))
    I.oblige(what + ': every cell', zreal(A.get((l, r, c))) == fn(c, r, nz - 1 - l))


def discretization(I, c, g, top='top', botm='botm'):
    nz = zint(g.attrs['nz'])
    I.oblige('top of the model', zreal(arg(c, top)) == zreal(g.attrs['zmax']))
    B = arg(c, botm)
    (k,) = I.formals(1, 'layer')
    I.assume(z3.And(k >= 0, k < nz))
    I.oblige('one bottom per layer', zint(B.shape[0]) == nz)
    I.oblige('bottoms from the top layer to the lowest', zreal(B.get((k,))) == zreal(g.attrs['zmax']) - zreal(g.attrs['dz']) * z3.ToReal(k + 1))
    I.oblige('cell sizes', z3.And(zreal(arg(c, 'delr')) == zreal(g.attrs['dx']), zreal(arg(c, 'delc')) == zreal(g.attrs['dy'])))


def modflow(I, aniso):
    g, data = setup(I, FIELDS if aniso else ('k_iso', 'poros', 'facies'))
    I.run(OUT, 'to_modflow', [I.model, I.path])
    f = lambda n: (lambda x, y, z: zreal(data[n].get((x, y, z))))
    c = call(I, 'ModflowLpf')
    layers(I, 'hk', arg(c, 'hk'), f('k_iso'), g)
    if aniso:
        layers(I, 'vka', arg(c, 'vka'), f('anirat'), g)
        I.oblige('vka is the ratio', zb(I.eq(arg(c, 'layvka'), 1) is True))
    d = call(I, 'ModflowDis')
    discretization(I, d, g)
    I.oblige('layers, rows, columns', z3.And(*[zint(a) == zint(g.attrs[b]) for a, b in zip(d[1][1:4], ('nz', 'ny', 'nx'))]))


def vtr(I):
    g, data = setup(I, FIELDS, True)
    I.run(OUT, 'to_vtr', [I.model, I.path])
    c = call(I, 'gridToVTK')
    (k,) = I.formals(1, 'edge')
    for A, o, n, d in zip(c[1][1:4], ('x0', 'y0', 'z0'), ('nx', 'ny', 'nz'), ('dx', 'dy', 'dz')):
        I.oblige('number of edges of ' + n, zint(A.shape[0]) == zint(g.attrs[n]) + 1)
        I.oblige('edges of ' + n, z3.Implies(z3.And(k >= 0, k <= zint(g.attrs[n])),
                                             zreal(A.get((k,))) == zreal(g.attrs[o]) + z3.ToReal(k) * zreal(g.attrs[d])))
    cells = arg(c, 'cellData')
    for f in FIELDS:
        I.oblige('field ' + f, same(I, cells.items.get(f), data[f]))


def savez(I):
    g, data = setup(I, FIELDS, True)
    I.run(OUT, 'to_mat', [I.model, I.path])
    c = call(I, 'savemat')
    I.oblige('the data of the model', same(I, c[1][1], I.attr(I.model)('data')))


def h5(I):
    g, data = setup(I, FIELDS, True)
    I.run(OUT, 'to_hdf5', [I.model, I.path])
    made = [c for c in I.calls if c[0].endswith('.create_dataset')]
    I.oblige('one dataset per field', zb(sorted(str(c[1][0]) for c in made) == sorted(data)))
    for c in made:
        v = c[2]['data'] if 'data' in c[2] else c[1][-1]
        I.oblige('dataset ' + str(c[1][0]), same(I, v, data[c[1][0]]))


def pickled(I):
    g, data = setup(I, FIELDS, True)
    I.builtins = dict(I.builtins, open=Builtin('open', lambda I, a, k: OpaqueAttr('made.file')))
    I.run(OUT, 'to_pickle', [I.model, I.path])
    c = call(I, 'dump')
    I.oblige('the data of the model', same(I, c[1][0], I.attr(I.model)('data')))


def mf6(I, aniso):
    g, data = setup(I, FIELDS if aniso else ('k_iso', 'poros', 'facies'))
    I.run(OUT, 'to_mf6', [I.model, I.path])
    f = lambda n: (lambda x, y, z: zreal(data[n].get((x, y, z))))
    c = call(I, 'ModflowGwfnpf')
    layers(I, 'k', arg(c, 'k'), f('k_iso'), g)
    if aniso:
        layers(I, 'k33', arg(c, 'k33'), lambda x, y, z: f('k_iso')(x, y, z) / f('anirat')(x, y, z), g)
        layers(I, 'angle1', arg(c, 'angle1'), f('azim'), g)
        layers(I, 'angle2', arg(c, 'angle2'), f('dip'), g)
        layers(I, 'angle3', arg(c, 'angle3'), lambda x, y, z: z3.RealVal(0), g)
    d = call(I, 'ModflowGwfdis')
    discretization(I, d, g)
    I.oblige('layers, rows, columns', z3.And(*[zint(arg(d, a)) == zint(g.attrs[b]) for a, b in (('nlay', 'nz'), ('nrow', 'ny'), ('ncol', 'nx'))]))


def hgs(I):
    """one row per cell, cells in array order: number, then the components xx yy zz xy xz yz / the porosity"""
    from hv.npmodel import np_flatten
    g, data = setup(I, FIELDS, True)
    np = I.models['numpy']
    tables = {}

    def savetxt(I, a, k):
        if not isinstance(a[0], PathV) or not isinstance(a[0].parts[-1], str):
            raise Unsupported('savetxt')
        tables[a[0].parts[-1]] = (a[1], k.get('fmt', a[2] if len(a) > 2 else None))
    np.env['savetxt'] = Builtin('np.savetxt', savetxt)
    I.run(OUT, 'to_hgs', [I.model, I.path])
    kt = data['ktensors']
    sh = data['poros'].shape
    comp = lambda a, b: np_flatten(I, Arr(sh, 'real', lambda ix: kt.get(tuple(ix) + (a, b))))
    want = {'ktensors.txt': [comp(0, 0), comp(1, 1), comp(2, 2), comp(0, 1), comp(0, 2), comp(1, 2)],
            'porosity.txt': [np_flatten(I, data['poros'])]}
    (r,) = I.formals(1, 'row')
    N = zint(comp(0, 0).shape[0])
    I.assume(z3.And(r >= 0, r < N))
    for f, cols in want.items():
        if f not in tables:
            raise Unsupported('file ' + f)
        T = tables[f][0]
        if not isinstance(T, Arr) or len(T.shape) != 2:
            raise Unsupported('table of ' + f)
        I.oblige(f + ': one row per cell', zint(T.shape[0]) == N)
        I.oblige(f + ': number and values', zint(T.shape[1]) == len(cols) + 1)
        I.oblige(f + ': cells are numbered from 1', zreal(T.get((r, 0))) == z3.ToReal(r + 1))
        for c, w in enumerate(cols):
            I.oblige('%s: column %d' % (f, c + 1), zreal(T.get((r, c + 1))) == zreal(w.get((r,))))


def npz(I):
    g, data = setup(I, FIELDS, True)
    np = I.models['numpy']
    for n in ('savez', 'savez_compressed'):
        np.env[n] = Builtin('np.' + n, lambda I, a, k: I.calls.append(('np.savez', a, k)))
    I.run(OUT, 'to_npz', [I.model, I.path])
    c = call(I, 'savez')
    I.oblige('one array per field', zb(set(c[2]) == set(data)))
    for f in data:
        I.oblige('field ' + f, same(I, c[2].get(f), data[f]))


PROOFS = [('dispatch', formats), ('modflow', lambda I: modflow(I, False)), ('modflow, anisotropic', lambda I: modflow(I, True)), ('vtr', vtr), ('mat', savez),
          ('h5', h5), ('pickle', pickled), ('mf6', lambda I: mf6(I, False)), ('mf6, anisotropic', lambda I: mf6(I, True)), ('hgs', hgs), ('npz', npz)]
TRUSTED = ['numpy, scipy.io, pickle, h5py, pyevtk and flopy store the arrays they are given (bounded: files are read back by the oracle)',
           'the grid satisfies its class invariant (C08)']
