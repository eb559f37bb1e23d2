"""C09: contact surfaces."""
import z3
from hv.common import *

CS = 'hyvr.geo.contact_surface'


def truthy(v):
    return v if isinstance(v, bool) else (v is not None and v != 0 if isinstance(v, (int, type(None))) else zbool(v))


def column(I, g):
    q = z3.Ints('ci cj')
    I.assume(z3.And(q[0] >= 0, q[1] >= 0, q[0] < g.attrs['nx'], q[1] < g.attrs['ny']))
    return tuple(q)


def bounds(I, s, q, nx, ny):
    a = I.attr(s)
    v = zreal(a('surface').get(q))
    I.oblige('one value per column', z3.And(len(a('surface').shape) == 2, zint(a('surface').shape[0]) == nx, zint(a('surface').shape[1]) == ny,
                                            zint(a('nx')) == nx, zint(a('ny')) == ny))
    I.oblige('reported bounds enclose the values', z3.And(zreal(a('zmin')) <= v, v <= zreal(a('zmax'))))


def flat(I):
    g = make_grid(I)
    z = real('depth')
    extra = [{}, dict(var=real('var'), corlx=real('corlx'), corly=real('corly'))][I.choose(2)]
    s = I.new(CS, 'ContactSurface', [g], dict(mode=['flat', 'Flat', 'FLAT'][I.choose(3)], z=z, **extra))
    q = column(I, g)
    a = I.attr(s)
    I.oblige('the given elevation in every column', zreal(a('surface').get(q)) == z)
    bounds(I, s, q, g.attrs['nx'], g.attrs['ny'])
    I.oblige('mean', z3.And(zreal(a('zmean')) == z, zreal(a('z')) == z))
    I.oblige('bounds are tight', z3.And(zreal(a('zmin')) == z, zreal(a('zmax')) == z))


def specsim(I, v):
    """contract of hyvr.utils.specsim (C20): one value per column of the grid for two_dim"""
    g = I.spec_grid
    F = ufarr('field', (g.attrs['nx'], g.attrs['ny']))
    I.calls.append(dict(v))
    return F


def random(I):
    g = I.spec_grid = make_grid(I)
    I.calls = []
    z, var, cx, cy = [real(s) for s in ('depth', 'var', 'corlx', 'corly')]
    I.assume(z3.And(var > 0, cx > 0, cy > 0))
    kw = dict(mode=['random', 'Random', 'RANDOM'][I.choose(3)], z=z, var=var, corlx=cx, corly=cy)
    s = I.new(CS, 'ContactSurface', [g], kw)
    I.oblige('one random field', z3.BoolVal(len(I.calls) == 1))
    c = I.calls[0]
    I.oblige('on this grid', z3.BoolVal(c['grid'] is g))
    I.oblige('two-dimensional', zbool(truthy(c['two_dim'])))
    I.oblige('no selection of cells', z3.BoolVal(c['selection_mask'] is None))
    I.oblige('Gaussian covariance', z3.BoolVal(isinstance(c['covmod'], str) and c['covmod'] == 'gaussian'))
    I.oblige('variance', zreal(c['var']) == var)
    co = I.np_array(c['corl'])
    I.oblige('correlation lengths', z3.And(zint(co.shape[0]) == 2, zreal(co.get((0,))) == cx, zreal(co.get((1,))) == cy))
    q = column(I, g)
    a = I.attr(s)
    F = ufarr('field', (g.attrs['nx'], g.attrs['ny']))
    I.oblige('mean plus random field', zreal(a('surface').get(q)) == z + F.get(q))
    bounds(I, s, q, g.attrs['nx'], g.attrs['ny'])
    I.oblige('z', zreal(a('z')) == z)


def clip(I, low):
    g = make_grid(I)
    s, o = make_surface(I, 's', g), make_surface(I, 'o', g)
    S, O = s.attrs['surface'].get, o.attrs['surface'].get
    oz = {k: o.attrs[k] for k in ('z', 'zmin', 'zmax', 'zmean')}
    q = column(I, g)
    q0 = S(q), O(q)
    I.meth(s, 'use_lower_surface_value' if low else 'use_higher_surface_value', [o])
    x, y = q0
    a = I.attr(s)
    I.oblige('smaller of both values' if low else 'larger of both values',
             zreal(a('surface').get(q)) == (z3.If(x < y, x, y) if low else z3.If(x > y, x, y)))
    bounds(I, s, q, g.attrs['nx'], g.attrs['ny'])
    I.oblige('the other surface is unchanged', z3.And(zreal(I.attr(o)('surface').get(q)) == y, *[zreal(I.attr(o)(k)) == v for k, v in oz.items()]))


    I.setitem(I.attr(s)('surface'), L(list(q), tup=True), real('later_value'))
    I.oblige('the other surface is not shared', zreal(I.attr(o)('surface').get(q)) == y)


def lower(I):
    clip(I, True)


def higher(I):
    clip(I, False)


def itself(I):
    """clipping a surface with itself changes nothing"""
    g = make_grid(I)
    s = make_surface(I, 's', g)
    q = column(I, g)
    v = s.attrs['surface'].get(q)
    I.meth(s, ['use_lower_surface_value', 'use_higher_surface_value'][I.choose(2)], [s])
    I.oblige('unchanged', zreal(I.attr(s)('surface').get(q)) == v)
    bounds(I, s, q, g.attrs['nx'], g.attrs['ny'])


PROOFS = [('flat', flat), ('random', random, dict(contracts={'hyvr.utils.specsim': specsim})), ('lower', lower), ('higher', higher), ('itself', itself)]
TRUSTED = ['the random field itself is the contract of specsim, decided in C20']
