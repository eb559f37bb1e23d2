"""Symbolic arguments and callee contracts shared by the property files."""
import z3
from hv.spec import *          # noqa: F401,F403


def real(name):
    return z3.Real(name)


def make_grid(I, name='g'):
    """an arbitrary grid: its class invariant is the postcondition proved in C08"""
    R = lambda s: z3.Real(name + '_' + s)
    x0, y0, z0, lx, ly, lz, dx, dy, dz = [R(s) for s in 'x0 y0 z0 lx ly lz dx dy dz'.split()]
    nx, ny, nz = [I.size(name + '_' + s) for s in ('nx', 'ny', 'nz')]
    for v in (lx, ly, lz, dx, dy, dz):
        I.assume(v > 0)
    ax = lambda o, d, n: Arr((n,), 'real', lambda ix: o + d / 2 + z3.ToReal(zint(ix[0])) * d)
    X = ax(x0, dx, nx), ax(y0, dy, ny), ax(z0, dz, nz)
    full = lambda q: Arr((nx, ny, nz), 'real', lambda ix: X[q].get((ix[q],)))
    return I.obj('hyvr.geo.grid', 'Grid', x0=x0, y0=y0, z0=z0, lx=lx, ly=ly, lz=lz, dx=dx, dy=dy, dz=dz,
                 xmax=x0 + lx, ymax=y0 + ly, zmax=z0 + lz, nx=nx, ny=ny, nz=nz, x=X[0], y=X[1], z=X[2],
                 X=full(0), Y=full(1), Z=full(2), periodic=z3.Bool(name + '_periodic'))


def bounded(I, s):
    """class invariant of ContactSurface: zmin <= values <= zmax"""
    i, j = z3.Ints('bi bj')
    a = s.attrs
    v = a['surface'].get((i, j))
    I.assume(z3.ForAll([i, j], z3.Implies(I.in_shape((i, j), a['surface'].shape),
                                          z3.And(a['zmin'] <= v, v <= a['zmax'])), patterns=[v]))
    I.assume(zreal(a['zmin']) <= zreal(a['zmax']))


def make_surface(I, name, g, inv=True):
    nx, ny = g.attrs['nx'], g.attrs['ny']
    s = I.obj('hyvr.geo.contact_surface', 'ContactSurface', surface=ufarr(name + '_surf', (nx, ny)), nx=nx, ny=ny,
              z=real(name + '_z'), zmin=real(name + '_zmin'), zmax=real(name + '_zmax'), zmean=real(name + '_zmean'))
    if inv:
        bounded(I, s)
    return s


def interval(name):
    """[lo, hi] option value"""
    return L([real(name + '_lo'), real(name + '_hi')])


def between(I, iv, v):
    """v lies in the interval (given in either order)"""
    lo, hi = [zreal(x) for x in iv.items]
    v = zreal(v)
    return z3.Or(z3.And(lo <= v, v <= hi), z3.And(hi <= v, v <= lo))


ISF = z3.Function('is_facies', z3.IntSort(), z3.BoolSort())


def facies_list(I, name='facies'):
    f = uflist(name, I.size(name + '_n'), 'int')
    q = z3.Int('fq')
    I.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < f.n), ISF(f.get(q))), patterns=[f.get(q)]))
    return f


def alt_facies(I, vars):
    """contract of hyvr.utils.get_alternating_facies (proved in C16): num_facies entries, all of them facies"""
    n = list(vars.values())[0]
    I.oblige('precondition of get_alternating_facies: positive length', zint(n) >= 1, 'pre')
    a = ufarr('altfac', (n,), 'int', unique=True)
    g = a.get

    def get(ix):
        v = g(ix)
        I.assume(z3.Implies(I.in_shape(ix, (n,)), ISF(v)))
        return v
    a.get = get
    a.is_alt = True
    return a


ALT = {'hyvr.utils.get_alternating_facies': alt_facies}
