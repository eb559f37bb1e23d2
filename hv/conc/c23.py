"""numbers of AEs and objects; the property arrays hold the properties of the objects"""
import numpy as np

from hv.conc import inigen

RULE = 'random whole models, generated twice in a row; non-trivial: objects in more than one AE'

TROUGH = ['x', 'y', 'z', 'a', 'b', 'c', 'max_ab', 'alpha', 'sinalpha', 'cosalpha', 'lag', 'shift', 'layer_dist', 'normvec_x', 'normvec_y', 'normvec_z', 'lag_facies', 'structure']
SHEET = ['shift', 'layer_dist', 'normvec_x', 'normvec_y', 'normvec_z', 'dipsets']
CHANNEL = ['a', 'width', 'depth', 'min_dx_dy', 'len_centerline', 'ztop', 'sin_dip', 'cos_dip', 'shift', 'layer_dist', 'lag_height', 'lag_facies', 'dipsets']
COMMON = ['azim', 'dip', 'facies', 'num_ha', 'num_facies']


def eq(a, b):
    return np.array_equal(np.asarray(a, float), np.asarray(b, float), equal_nan=True)


def arrays(ctx, ae, inp):
    from hv.conc.c12 import kind
    ol = ae.object_list
    ctx.expect(ae.n_objects == len(ol), 'number of objects', inp, len(ol), ae.n_objects)
    ctx.expect(eq(ae.object_zmins, [o.zmin for o in ol]) and eq(ae.object_zmaxs, [o.zmax for o in ol]), 'vertical extents of the objects', inp)
    names = COMMON + {'TroughAE': TROUGH, 'SheetAE': SHEET, 'ChannelAE': CHANNEL}.get(kind(ae), [])
    for n in names:
        arr = getattr(ae, 'object_' + n, None)
        if arr is None:
            continue
        for q, o in enumerate(ol):
            ctx.expect(len(arr) == len(ol) and eq(arr[q], getattr(o, n)), 'array of %s' % n, (inp, q), getattr(o, n), arr[q] if q < len(arr) else None)
    for q, o in enumerate(ol):
        for j in range(o.num_facies):
            ctx.expect(ae.object_facies_array[q, j] == o.facies_array[j], 'facies of the layers', (inp, q))
        if kind(ae) == 'ChannelAE':
            for n in ('x_center', 'y_center', 'vx', 'vy'):
                ctx.expect(eq(getattr(ae, 'object_' + n)[q, :o.len_centerline], getattr(o, n)), 'centre line of a channel', (inp, q, n))
            ctx.expect(np.all(np.asarray(ae.object_dont_check)[q] == 0), 'nothing is excluded before the first query', (inp, q))
        if kind(ae) == 'SheetAE':
            ctx.expect(eq(ae.object_top_surface[q], o.top_surface.surface) and eq(ae.object_bottom_surface[q], o.bottom_surface.surface), 'surfaces of a sheet', (inp, q))
            ctx.expect(eq(ae.object_bottom_surface_zmean[q], o.bottom_surface.zmean), 'mean of the bottom of a sheet', (inp, q))
    zm = [o.zmax for o in ol]
    ctx.expect(all(a >= b for a, b in zip(zm, zm[1:])), 'objects are ordered from top to bottom', inp, None, zm)


def numbering(ctx):
    for it in ctx.iter(200):
        res = ctx.call(inigen.make_model, ctx, ctx.rng)
        if res[0] == 'exc':
            ctx.must(res, 'model construction')
            continue
        m, E, S = res[1]
        for rep in range(ctx.rng.choice([1, 2])):
            res = ctx.call(m.generate_model)
            if res[0] == 'exc':
                ctx.must(res, 'generating the model', S)
                break
            aes = [ae for st in m.strata for ae in st.aes]
            ctx.case((repr(S)[:200], rep), trivial=sum(1 for ae in aes if ae.object_list) < 2, sample=[len(ae.object_list) for ae in aes])
            ctx.expect([ae.num for ae in aes] == list(range(len(aes))), 'AEs are numbered from the top', S, None, [ae.num for ae in aes])
            obj = [o.num_ha for ae in aes for o in ae.object_list]
            ctx.expect(obj == list(range(len(obj))), 'objects are numbered from the top', S, None, obj)
            for ae in aes:
                arrays(ctx, ae, S)


PARTS = [('numbering', numbering)]
