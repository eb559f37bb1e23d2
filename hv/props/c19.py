"""C19: anisotropic conductivity tensors."""
import z3
from hv.spec import *


def ktensor(I):
    nx, ny, nz = I.size('nx'), I.size('ny'), I.size('nz')
    sh = (nx, ny, nz)
    kt = ufarr('kt', sh + (3, 3))
    k, az, dp, an = ufarr('kiso', sh), ufarr('azim', sh), ufarr('dip', sh), ufarr('anirat', sh)
    q = I.formals(3, 'q')
    I.assume(z3.ForAll(list(q), an.get(q) > 0))
    old = kt.get
    I.run('hyvr.optimized', 'set_anisotropic_ktensor', [kt, k, az, dp, an])
    f = I.formals(3, 'cell')
    I.assume(I.in_shape(f, sh))
    s, c = (lambda t: I.trig('sin', t)), (lambda t: I.trig('cos', t))
    K, P = az.get(f), dp.get(f)
    n = [s(P) * c(K), -s(P) * s(K), c(P)]
    a = 1 / an.get(f)
    I.assume(an.get(f) > 0)
    for i in range(3):
        for j in range(3):
            want = k.get(f) * ((1 if i == j else 0) - (1 - a) * n[i] * n[j])
            I.oblige('K[%d,%d] = k*(delta - (1-1/anirat) n n^T)' % (i, j),
                     zreal(kt.get(f + (i, j))) == want)
    g = I.formals(5, 'out')
    I.assume(z3.Not(I.in_shape(g[:3], sh)))
    I.oblige('frame: nothing outside the grid is written', kt.get(g) == old(g))


PROOFS = [('ktensor', ktensor)]
