"""C23: numbers of elements and objects; object arrays."""
import z3
from hv.common import *
from hv.props import c10, c13, c14

PROOFS = [('numbering', c10.generate_model, c10.PROOFS[0][2]), ('trough_arrays', c14.arrays)]
IS, RS = z3.IntSort(), z3.RealSort()


def add_object(I):
    """AERealization._add_object keeps the list of objects and their bounds in step"""
    M = 'hyvr.geo.ae_realization'
    I.module(M), I.module('hyvr.geo.sheet')
    n = I.size('n', 0)
    objs = Table(I, 'o', 'hyvr.geo.sheet', 'Sheet', 1)
    zl, zu = z3.Function('lo', IS, RS), z3.Function('hi', IS, RS)
    a0 = z3.Real('ae_zmin'), z3.Real('ae_zmax')
    ae = I.obj(M, 'AERealization', object_list=L(n=n, get=lambda i: objs.get(i)), zmin=a0[0], zmax=a0[1],
               object_zmin_list=L(n=n, get=lambda i: zl(zint(i))), object_zmax_list=L(n=n, get=lambda i: zu(zint(i))))
    lo, hi = z3.Reals('obj_zmin obj_zmax')
    new = I.obj('hyvr.geo.sheet', 'Sheet', zmin=lo, zmax=hi)
    I.meth(ae, '_add_object', [new])
    a = I.attr(ae)
    for f in ('object_list', 'object_zmin_list', 'object_zmax_list'):
        I.oblige(f + ' is longer by one', zint(a(f).length()) == n + 1)
    I.oblige('appended at the end', z3.And(z3.BoolVal(I.list_getitem(a('object_list'), n) is new),
                                           zreal(I.list_getitem(a('object_zmin_list'), n)) == lo,
                                           zreal(I.list_getitem(a('object_zmax_list'), n)) == hi))
    (i,) = I.formals(1, 'old')
    I.assume(z3.And(i >= 0, i < n))
    I.oblige('the other objects are unchanged', z3.And(
        zint(I.list_getitem(a('object_list'), i).ref[1][0]) == i,
        zreal(I.list_getitem(a('object_zmin_list'), i)) == zl(i), zreal(I.list_getitem(a('object_zmax_list'), i)) == zu(i)))
    I.oblige('the element encloses the object', z3.And(zreal(a('zmin')) == z3.If(lo < a0[0], lo, a0[0]),
                                                       zreal(a('zmax')) == z3.If(hi > a0[1], hi, a0[1])))


COMMON = ['azim', 'dip'], ['facies', 'num_ha', 'num_facies']


def arrays(I, kind):
    mod, cls, omod, ocls, reals, ints, bools = kind
    g = make_grid(I)
    n = I.size('n_objects', 0)
    FA = z3.Function('facies_arr', IS, IS, IS)
    nf = z3.Function('nf', IS, IS)
    q = z3.Int('q')
    I.assume(z3.ForAll([q], nf(q) >= 0, patterns=[nf(q)]))
    V = {f: z3.Function('o_' + f, IS, RS) for f in COMMON[0] + reals}
    V.update({f: z3.Function('o_' + f, IS, IS) for f in COMMON[1] + ints if f != 'num_facies'})
    V.update({f: z3.Function('o_' + f, IS, z3.BoolSort()) for f in bools})
    V['num_facies'] = nf
    fields = {f: (lambda i, F=F: F(i)) for f, F in V.items()}
    fields['facies_array'] = lambda i: Arr((nf(i),), 'int', lambda ix: FA(i, zint(ix[0])))
    extra = {}
    if ocls == 'Sheet':
        S = [z3.Function(s, IS, IS, IS, RS) for s in ('tops', 'bots')]
        G = g.attrs
        zm = z3.Function('bzmean', IS, RS)
        surf = lambda F, i: I.obj('hyvr.geo.contact_surface', 'ContactSurface', nx=G['nx'], ny=G['ny'], zmean=zm(i),
                                  surface=Arr((G['nx'], G['ny']), 'real', lambda ix: F(i, zint(ix[0]), zint(ix[1]))))
        fields.update(top_surface=lambda i: surf(S[0], i), bottom_surface=lambda i: surf(S[1], i))
    if ocls == 'Channel':
        ln = z3.Function('len_centerline', IS, IS)
        I.assume(z3.ForAll([q], ln(q) >= 0, patterns=[ln(q)]))
        C = {f: z3.Function('c_' + f, IS, IS, RS) for f in ('x_center', 'y_center', 'vx', 'vy')}
        fields['len_centerline'] = lambda i: ln(i)
        for f, F in C.items():
            fields[f] = lambda i, F=F: Arr((ln(i),), 'real', lambda ix: F(i, zint(ix[0])))
        nx, ny = I.size('m_nx'), I.size('m_ny')
        DC = z3.Function('dont_check', IS, IS, IS, IS)
        fields['dont_check'] = lambda i: Arr((nx, ny), 'int', lambda ix: DC(i, zint(ix[0]), zint(ix[1])))
    I.module(mod), I.module(omod)
    objs = I.records('o', n, omod, ocls, fields)
    zl, zu = uflist('o_zmin', n), uflist('o_zmax', n)
    ae = I.obj(mod, cls, object_list=objs, n_objects=n, object_zmin_list=zl, object_zmax_list=zu,
               **({'nx': nx, 'ny': ny} if ocls == 'Channel' else {}))
    I.meth(ae, '_create_common_object_arrays', [])
    I.meth(ae, 'create_object_arrays', [])
    (i,) = I.formals(1, 'obj')
    I.assume(z3.And(i >= 0, i < n))
    at = I.attr(ae)
    for f, F in V.items():
        v = at('object_' + f).get((i,))
        s = F(i).sort()
        if s == z3.BoolSort():
            c = zbool(v if is_z(v) and z3.is_bool(v) else zint(v) != 0) == F(i)
        else:
            c = (zint(v) if s == IS else zreal(v)) == F(i)
        I.oblige('object_%s' % f, c)
    I.oblige('object_zmins', zreal(at('object_zmins').get((i,))) == zl.get(i))
    I.oblige('object_zmaxs', zreal(at('object_zmaxs').get((i,))) == zu.get(i))
    (j,) = I.formals(1, 'layer')
    fa = at('object_facies_array')
    I.oblige('object_facies_array', z3.Implies(z3.And(j >= 0, j < nf(i)), z3.And(zint(fa.get((i, j))) == FA(i, j), zint(fa.shape[1]) >= nf(i))))
    x, y = I.formals(2, 'col')
    if ocls == 'Sheet':
        c = z3.And(x >= 0, x < G['nx'], y >= 0, y < G['ny'])
        for f, F in zip(('top', 'bottom'), S):
            I.oblige('object_%s_surface' % f, z3.Implies(c, zreal(at('object_%s_surface' % f).get((i, x, y))) == F(i, x, y)))
        I.oblige('object_bottom_surface_zmean', zreal(at('object_bottom_surface_zmean').get((i,))) == zm(i))
    if ocls == 'Channel':
        c = z3.And(x >= 0, x < nx, y >= 0, y < ny)
        I.oblige('object_dont_check', z3.Implies(c, zint(at('object_dont_check').get((i, x, y))) == DC(i, x, y)))
        I.oblige('object_len_centerline', zint(at('object_len_centerline').get((i,))) == ln(i))
        for f, F in C.items():
            A = at('object_' + f)
            I.oblige('object_' + f, z3.Implies(z3.And(j >= 0, j < ln(i)), z3.And(zreal(A.get((i, j))) == F(i, j), zint(A.shape[1]) >= ln(i))))


KINDS = {
    'sheet': ('hyvr.geo.sheet_ae', 'SheetAE', 'hyvr.geo.sheet', 'Sheet',
              'shift layer_dist normvec_x normvec_y normvec_z'.split(), [], ['dipsets']),
    'channel': ('hyvr.geo.channel_ae', 'ChannelAE', 'hyvr.geo.channel', 'Channel',
                'a width depth min_dx_dy ztop sin_dip cos_dip shift layer_dist lag_height'.split(), ['lag_facies'], ['dipsets']),
}
for _k in KINDS:
    PROOFS.append((_k + '_arrays', lambda I, k=_k: arrays(I, KINDS[k])))
PROOFS.append(('add_object', add_object))
TRUSTED = ['objects of one element have surfaces / masks of the shape of the grid (C09, C15)']
