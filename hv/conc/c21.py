"""output files carry the model"""
import os
import pickle
import re
import struct
import sys
import warnings
from unittest import mock

import numpy as np

from hv.conc import gen, guard

RULE = 'random models with filled data arrays, every output format, read back with independent readers; non-trivial: grid with different numbers of cells in x, y and z'


def model(ctx):
    m, h = gen.hydro_model(ctx)
    r = ctx.rng
    m.flowtrans = dict(hin=[r.uniform(1, 9), 0., 0.], hout=[r.uniform(0, 1), 0., 0.], gradh=None, q_in=None, kw_gradh=None, kw_q_in=None)
    res = ctx.call(m.generate_hydraulic_parameters, h)
    return m if res[0] == 'ok' else None


def read_vtr(path):
    b = open(path, 'rb').read()
    i = b.index(b'<AppendedData')
    head = b[:i].decode()
    j = b.index(b'_', i) + 1
    out = {}
    little = 'LittleEndian' in head
    types = dict(Float64='f8', Float32='f4', Int32='i4', Int64='i8', UInt8='u1', Int8='i1')
    m = re.search(r'WholeExtent="([^"]*)"', head)
    ext = [int(x) for x in m.group(1).split()]
    sect = None
    for t in re.finditer(r'<(CellData|PointData|Coordinates)[ >]|<DataArray ([^>]*)/?>', head):
        if t.group(1):
            sect = t.group(1)
            continue
        at = dict(re.findall(r'(\w+)\s*=\s*"([^"]*)"', t.group(2)))
        off = j + int(at['offset'])
        n = struct.unpack('<Q' if little else '>Q', b[off:off+8])[0]
        out.setdefault(sect, {})[at['Name']] = np.frombuffer(b[off+8:off+8+n], dtype=('<' if little else '>') + types[at['type']])
    return ext, out


def eq(a, b):
    return np.shape(a) == np.shape(b) and np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)


def one(ctx, m, fmts, d, name='rn'):
    f = ctx.get('hyvr.postprocess.output', 'create_outputs')
    return ctx.call(f, m, d, name, fmts)


def data(ctx):
    import scipy.io as sio
    for it in ctx.iter(60):
        m = model(ctx)
        if m is None:
            continue
        g = m.grid
        r = ctx.rng
        name = r.choice(['rn', 'a.b', 'run 1'])
        fm = ['npz', 'py', 'mat', 'vtr']
        try:
            import h5py
            fm.append('h5')
        except ImportError:
            h5py = None
        r.shuffle(fm)
        want = {k: np.array(v) for k, v in m.data.items()}
        inp = dict(shape=(g.nx, g.ny, g.nz), origin=(g.x0, g.y0, g.z0), d=(g.dx, g.dy, g.dz), formats=fm, name=name)
        ctx.case((it, g.nx, g.ny, g.nz), trivial=len({g.nx, g.ny, g.nz}) < 3, sample=inp)
        with guard.scratch() as d:
            res = one(ctx, m, fm, d, name)
            if res[0] == 'exc':
                ctx.must(res, 'writing', inp)
                continue
            for k, v in want.items():
                ctx.expect(eq(v, m.data[k]), 'the model stays as it is', inp)
            p = os.path.join(d, name)
            have = set(os.listdir(d))
            ext = dict(npz='.npz', py='.pickle', mat='.mat', vtr='.vtr', h5='.h5')
            ctx.expect(have == {name + ext[q] for q in fm}, 'exactly the requested files', inp, sorted(name + ext[q] for q in fm), sorted(have))
            if have != {name + ext[q] for q in fm}:
                continue
            z = np.load(p + '.npz')
            ctx.expect(set(z.files) == set(want) and all(eq(z[k], want[k]) for k in want), 'npz output', inp, sorted(want), sorted(z.files))
            with open(p + '.pickle', 'rb') as fh:
                q = pickle.load(fh)
            ctx.expect(set(q) == set(want) and all(eq(q[k], want[k]) for k in want), 'pickle output', inp)
            q = sio.loadmat(p + '.mat')
            for k in want:
                # matlab has no arrays with fewer than two dimensions and drops trailing ones
                a = q.get(k)
                ctx.expect(a is not None and np.array_equal(np.reshape(a, want[k].shape), want[k], equal_nan=True), 'mat output: ' + k, inp)
            if h5py:
                with h5py.File(p + '.h5', 'r') as fh:
                    ctx.expect(set(fh) == set(want) and all(eq(fh[k][()], want[k]) for k in want), 'hdf5 output', inp)
            e, o = read_vtr(p + '.vtr')
            ctx.expect(e == [0, g.nx, 0, g.ny, 0, g.nz], 'vtr extent', inp, None, e)
            for c, n, x0, dx in zip(o['Coordinates'].values(), (g.nx, g.ny, g.nz), (g.x0, g.y0, g.z0), (g.dx, g.dy, g.dz)):
                w = x0 + dx * np.arange(n + 1)
                ctx.expect(np.shape(c) == w.shape and np.allclose(c, w, rtol=1e-9, atol=1e-9), 'cell edges in the vtr file', inp, w, c)
            cd = o.get('CellData', {})
            ctx.expect(set(cd) == set(want) - {'ktensors'}, 'variables of the vtr file', inp, sorted(set(want) - {'ktensors'}), sorted(cd))
            for k in set(cd) & set(want):
                ctx.expect(np.array_equal(cd[k], np.ravel(want[k], order='F'), equal_nan=True), 'vtr output: ' + k, inp)


def hgs(ctx):
    for it in ctx.iter(60):
        m = model(ctx)
        if m is None:
            continue
        g = m.grid
        inp = dict(shape=(g.nx, g.ny, g.nz))
        ctx.case((it, g.nx, g.ny, g.nz), trivial=len({g.nx, g.ny, g.nz}) < 3, sample=inp)
        with guard.scratch() as d:
            res = one(ctx, m, ['hgs'], d)
            if res[0] == 'exc':
                ctx.must(res, 'writing hgs', inp)
                continue
            kt = m.data['ktensors']
            lines = open(os.path.join(d, 'HGS', 'ktensors.txt')).read().split('\n')
            rows = [l.split() for l in lines if l.strip()]
            n = g.nx * g.ny * g.nz
            ctx.expect(len(rows) == n, 'one line per element', inp, n, len(rows))
            q = 0
            for i in range(g.nx):
                for j in range(g.ny):
                    for k in range(g.nz):
                        w = [kt[i, j, k, 0, 0], kt[i, j, k, 1, 1], kt[i, j, k, 2, 2], kt[i, j, k, 0, 1], kt[i, j, k, 0, 2], kt[i, j, k, 1, 2]]
                        if q < len(rows):
                            ctx.expect(int(rows[q][0]) == q + 1 and np.allclose([float(x) for x in rows[q][1:]], w, rtol=1e-3, atol=1e-300), 'tensor of an element', (inp, (i, j, k)), w, rows[q])
                        q += 1
            rows = [l.split() for l in open(os.path.join(d, 'HGS', 'porosity.txt')).read().split('\n') if l.strip()]
            w = np.ravel(m.data['poros'])
            ctx.expect(len(rows) == n and [int(x[0]) for x in rows] == list(range(1, n + 1)) and np.allclose([float(x[1]) for x in rows], w, atol=6e-4), 'porosity', inp, w, rows)


def expected_layers(a):
    """[layer from the top][row = y index][column = x index]"""
    nx, ny, nz = a.shape[:3]
    return np.array([[[a[i, j, nz - 1 - l] for i in range(nx)] for j in range(ny)] for l in range(nz)])


def common(ctx, m, inp, get, tol=1e-5):
    g = m.grid
    ctx.expect(np.allclose(get['delr'], g.dx, rtol=1e-5) and np.size(get['delr']) in (1, g.nx), 'column widths', inp, g.dx, get['delr'])
    ctx.expect(np.allclose(get['delc'], g.dy, rtol=1e-5) and np.size(get['delc']) in (1, g.ny), 'row widths', inp, g.dy, get['delc'])
    ctx.expect(get['dims'] == (g.nz, g.ny, g.nx), 'layers, rows, columns', inp, (g.nz, g.ny, g.nx), get['dims'])
    ctx.expect(np.allclose(get['top'], g.z0 + g.lz, rtol=1e-5, atol=1e-5), 'top of the model', inp, g.z0 + g.lz, get['top'])
    bot = [g.z0 + g.lz - (l + 1) * g.dz for l in range(g.nz)]
    ctx.expect(all(np.allclose(get['botm'][l], bot[l], rtol=1e-5, atol=1e-4) for l in range(g.nz)), 'bottoms of the layers', inp, bot, get['botm'])
    w = expected_layers(m.data['k_iso'])
    ctx.expect(np.shape(get['k']) == w.shape and np.allclose(get['k'], w, rtol=1e-4), 'conductivity of the cells', inp, w, get['k'])


def mf(ctx):
    try:
        import flopy
    except ImportError:
        return
    for it in ctx.iter(14):
        m = model(ctx)
        if m is None:
            continue
        g = m.grid
        inp = dict(shape=(g.nx, g.ny, g.nz), origin=(g.x0, g.y0, g.z0), d=(g.dx, g.dy, g.dz), flow=m.flowtrans)
        ctx.case((it, g.nx, g.ny, g.nz), trivial=len({g.nx, g.ny, g.nz}) < 3, sample=inp)
        with guard.scratch() as d:
            res = one(ctx, m, ['mf'], d)
            if res[0] == 'exc':
                ctx.must(res, 'writing modflow', inp)
                continue
            dd = os.path.join(d, 'MODFLOW')
            q = flopy.modflow.Modflow.load('rn.nam', model_ws=dd, check=False, verbose=False, load_only=['dis', 'bas6', 'lpf'])
            common(ctx, m, inp, dict(delr=q.dis.delr.array, delc=q.dis.delc.array, dims=(q.dis.nlay, q.dis.nrow, q.dis.ncol), top=q.dis.top.array,
                                     botm=q.dis.botm.array, k=q.lpf.hk.array))
            w = expected_layers(m.data['anirat'])
            ctx.expect(np.allclose(q.lpf.vka.array, w, rtol=1e-4) and np.all(q.lpf.layvka.array != 0), 'anisotropy ratios', inp, w, q.lpf.vka.array)
            ib, st = q.bas6.ibound.array, q.bas6.strt.array
            ctx.expect(np.all(ib[:, :, 0] == -1) and np.all(ib[:, :, -1] == -1) and np.all(ib[:, :, 1:-1] == 1), 'constant heads at inlet and outlet', inp, None, ib)
            if g.nx > 1:
                ctx.expect(np.allclose(st[:, :, 0], m.flowtrans['hin'][0], rtol=1e-4), 'head at the inlet', inp, m.flowtrans['hin'], st)
            ctx.expect(np.allclose(st[:, :, -1], m.flowtrans['hout'][0], rtol=1e-4), 'head at the outlet', inp, m.flowtrans['hout'], st)


def mf6(ctx):
    try:
        import flopy
    except ImportError:
        return
    for it in ctx.iter(14):
        m = model(ctx)
        if m is None:
            continue
        g = m.grid
        if ctx.rng.random() < .3:
            m.flowtrans.update(hin=None, hout=None, gradh=ctx.rng.uniform(.01, .1))
        ft = m.flowtrans
        hin, hout = (ft['hin'][0], ft['hout'][0]) if ft['hin'] is not None else (1 + g.lx * ft['gradh'], 1.)
        inp = dict(shape=(g.nx, g.ny, g.nz), origin=(g.x0, g.y0, g.z0), d=(g.dx, g.dy, g.dz), flow=ft)
        ctx.case((it, g.nx, g.ny, g.nz), trivial=len({g.nx, g.ny, g.nz}) < 3, sample=inp)
        with guard.scratch() as d:
            res = one(ctx, m, ['mf6'], d)
            if res[0] == 'exc':
                ctx.must(res, 'writing mf6', inp)
                continue
            dd = os.path.join(d, 'mf6')
            sim = flopy.mf6.MFSimulation.load(sim_ws=dd, verbosity_level=0)
            q = sim.get_model()
            common(ctx, m, inp, dict(delr=q.dis.delr.array, delc=q.dis.delc.array, dims=(q.dis.nlay.data, q.dis.nrow.data, q.dis.ncol.data), top=q.dis.top.array,
                                     botm=q.dis.botm.array, k=q.npf.k.array))
            d_ = m.data
            for nm, arr in (('k33', d_['k_iso'] / d_['anirat']), ('angle1', d_['azim']), ('angle2', d_['dip']), ('angle3', 0 * d_['dip'])):
                w = expected_layers(arr)
                ctx.expect(np.allclose(getattr(q.npf, nm).array, w, rtol=1e-4, atol=1e-12), nm, inp, w, getattr(q.npf, nm).array)
            rec = q.chd.stress_period_data.get_data(0)
            got = {}
            for x in rec:
                got.setdefault(tuple(int(v) for v in x[0]), []).append(float(x[1]))
            w = {}
            for l in range(g.nz):
                for row in range(g.ny):
                    w.setdefault((l, row, 0), []).append(hin)
                    w.setdefault((l, row, g.nx - 1), []).append(hout)
            ctx.expect(set(w) == set(got) and all(np.allclose(sorted(w[c]), sorted(got[c]), rtol=1e-4) for c in w), 'constant heads', inp, w, got)
            st = q.ic.strt.array
            if g.nx > 1:
                ctx.expect(np.allclose(st, np.broadcast_to(np.linspace(hin, hout, g.nx), (g.nz, g.ny, g.nx)), rtol=1e-4), 'starting heads', inp, None, st)


def refuse(ctx):
    """unknown formats are refused, missing libraries only produce a warning"""
    for it in ctx.iter(20):
        m = model(ctx)
        if m is None:
            continue
        r = ctx.rng
        bad = r.choice(['xyz', 'NPZ', '', 'vtk', 'npz '])
        fm = r.choice([[bad], ['npz', bad], [bad, 'npz']])
        ctx.case((it, tuple(fm)), sample=fm)
        with guard.scratch() as d:
            res = one(ctx, m, fm, d)
            ctx.expect(res[0] == 'exc' and isinstance(res[1], ValueError), 'unknown output format', fm, 'ValueError', res)
        lib, fmt = r.choice([('h5py', 'h5'), ('pyevtk.hl', 'vtr'), ('flopy', 'mf'), ('flopy', 'mf6')])
        with guard.scratch() as d, mock.patch.dict(sys.modules, {lib: None}):
            f = ctx.get('hyvr.postprocess.output', 'create_outputs')
            with warnings.catch_warnings(record=True) as wl:
                warnings.simplefilter('always')
                try:
                    f(m, d, 'rn', [fmt, 'npz'])
                    err = None
                except Exception as e:
                    err = e
            ctx.expect(err is None, 'a missing library does not stop the output', (lib, fmt), None, err)
            ctx.expect(len(wl) > 0, 'a missing library is reported', (lib, fmt))
            ctx.expect(os.path.exists(os.path.join(d, 'rn.npz')), 'the other formats are still written', (lib, fmt), None, os.listdir(d))


PARTS = [('data formats', data), ('hgs', hgs), ('modflow', mf), ('mf6', mf6), ('refuse', refuse)]
