"""C08: grid geometry."""
import z3
from hv.common import *


def grid(I):
    """Grid.__init__ for all origins, extents and spacings with at least one cell per direction"""
    o = dict(zip('xyz', [real(s) for s in ('x0', 'y0', 'z0')]))
    d = dict(zip('xyz', [real(s) for s in ('dx', 'dy', 'dz')]))
    l = dict(zip('xyz', [real(s) for s in ('lx', 'ly', 'lz')]))
    for a in 'xyz':
        I.assume(z3.And(d[a] > 0, 2 * l[a] > d[a]))
    per = z3.Bool('periodic')
    g = I.new('hyvr.geo.grid', 'Grid', [o['x'], o['y'], o['z'], d['x'], d['y'], d['z'], l['x'], l['y'], l['z'], per])
    at = I.attr(g)
    n = {}
    for a in 'xyz':
        n[a] = zint(at('n' + a))
        nr = z3.ToReal(n[a])
        I.oblige('%s: origin, spacing, size' % a, z3.And(zreal(at(a + '0')) == o[a], zreal(at('d' + a)) == d[a], zreal(at('l' + a)) == l[a]))
        I.oblige('%s: upper end' % a, zreal(at(a + 'max')) == o[a] + l[a])
        I.oblige('%s: at least one cell' % a, n[a] >= 1)
        I.oblige('%s: number of cells is the rounded quotient of length and spacing' % a,
                 z3.And(nr * d[a] <= l[a] + d[a] / 2, nr * d[a] >= l[a] - d[a] / 2))
        k = z3.Int('cells_' + a)
        m = I.mark()
        I.assume(l[a] == z3.ToReal(k) * d[a])
        I.lemma_gen('%s: quotient' % a, [nr, z3.ToReal(k), d[a]], lambda n, k, d: (
            [d > 0, n * d <= k * d + d / 2, n * d >= k * d - d / 2], z3.And(n < k + 1, n > k - 1)))
        I.oblige('%s: a whole number of cells fills the domain exactly' % a, n[a] == k)
        I.undo(m)
        v = at(a)
        I.oblige('%s: one coordinate per cell' % a, z3.And(len(v.shape) == 1, zint(v.shape[0]) == n[a]))
        i = z3.Int('i' + a)
        I.assume(z3.And(i >= 0, i < n[a]))
        I.oblige('%s: cell centres' % a, zreal(v.get((i,))) == o[a] + d[a] / 2 + z3.ToReal(i) * d[a])
        I.oblige('%s: increasing' % a, z3.Implies(i + 1 < n[a], zreal(v.get((i,))) < zreal(v.get((i + 1,)))))
    I.oblige('periodic flag', at('periodic') == per)
    q = tuple(z3.Int('i' + a) for a in 'xyz')
    for k, a in enumerate('xyz'):
        for nm in (a.upper(), a.upper() + '_centered'):
            A = at(nm)
            I.oblige('%s: one value per cell' % nm, z3.And(len(A.shape) == 3, *[zint(s) == n[b] for s, b in zip(A.shape, 'xyz')]))
        c = o[a] + d[a] / 2 + z3.ToReal(q[k]) * d[a]
        I.oblige('%s: three-dimensional coordinates' % a, zreal(at(a.upper()).get(q)) == c)
        mid = o[a] + z3.ToReal(n[a]) * d[a] / 2
        I.oblige('%s: centred coordinates' % a, zreal(at(a.upper() + '_centered').get(q)) == c - mid)


PROOFS = [('grid', grid)]
