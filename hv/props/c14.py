"""C14: membership in troughs and their internal structure."""
import z3
from hv.common import *

STRUCT = ['massive', 'dip', 'bulb', 'bulb_sets', 'random']


def zmax3(*v):
    r = v[0]
    for x in v[1:]:
        r = z3.If(x > r, x, r)
    return r


def trough_init(I):
    si = I.choose(5)
    R = {k: real(k) for k in 'x y z a b c alpha'.split()}
    for k in 'abc':
        I.assume(R[k] > 0)
    dd, bd = real('dipset_dist'), real('bulbset_dist')
    I.assume(z3.And(dd > 0, bd > 0))
    lf = z3.Int('lag_facies')
    tp = D(dict(structure=STRUCT[si], dipset_dist=dd, bulbset_dist=bd, azimuth=interval('az'), dip=interval('dip'),
                lag_height=real('lag'), lag_facies=lf, facies=facies_list(I)))
    o = I.new('hyvr.geo.trough', 'Trough', [tp], R)
    a = I.attr(o)
    for k in R:
        I.oblige('parameter %s is kept' % k, zreal(a(k)) == R[k])
    I.oblige('vertical extent', z3.And(zreal(a('zmax')) == R['z'], zreal(a('zmin')) == R['z'] - R['c']))
    I.oblige('lag', z3.And(zreal(a('lag')) == real('lag'), zint(a('lag_facies')) == lf))
    I.oblige('largest horizontal semi-axis', zreal(a('max_ab')) == zmax3(R['a'], R['b']))
    al = R['alpha'] * PI / 180
    I.oblige('rotation', z3.And(zreal(a('sinalpha')) == I.trig('sin', al), zreal(a('cosalpha')) == I.trig('cos', al)))
    st = zint(a('structure'))
    I.oblige('structure', st == si if si < 4 else z3.And(st >= 0, st < 4))
    st = conc(st)
    k = st if isinstance(st, int) else [q for q in range(4) if I.entails(st == q)][0]
    dip = tp.items['dip']
    if k == 0:
        I.oblige('massive: facies', ISF(zint(a('facies'))))
        I.oblige('massive: azimuth', between(I, tp.items['azimuth'], zreal(a('azim')) - R['alpha']))
        I.oblige('massive: dip', between(I, dip, a('dip')))
    elif k == 1:
        I.oblige('dip: azimuth', between(I, tp.items['azimuth'], zreal(a('azim')) - R['alpha']))
        I.oblige('dip: dip', between(I, dip, a('dip')))
        K, P = zreal(a('azim')) * PI / 180, zreal(a('dip')) * PI / 180
        s, c = (lambda t: I.trig('sin', t)), (lambda t: I.trig('cos', t))
        I.oblige('dip: normal vector', z3.And(zreal(a('normvec_x')) == s(P) * c(K), zreal(a('normvec_y')) == -s(P) * s(K),
                                              zreal(a('normvec_z')) == c(P)))
        I.oblige('dip: layer distance and shift', z3.And(zreal(a('layer_dist')) == dd, zreal(a('shift')) >= 0, zreal(a('shift')) <= dd))
        I.oblige('dip: enough layers', z3.ToReal(zint(a('num_facies'))) >= (2 * zmax3(R['a'], R['b'], R['c']) + zreal(a('shift'))) / dd + 2)
    elif k == 2:
        I.oblige('bulb: facies', ISF(zint(a('facies'))))
        I.oblige('bulb: largest dip', between(I, dip, a('dip')))
    else:
        I.oblige('bulb sets: layer distance and shift', z3.And(zreal(a('layer_dist')) == bd, zreal(a('shift')) >= 0, zreal(a('shift')) <= 1))
        I.oblige('bulb sets: enough layers', z3.ToReal(zint(a('num_facies'))) >= (1 + zreal(a('shift'))) * R['c'] / bd + 1)
        I.oblige('bulb sets: largest dip', between(I, dip, a('dip')))
    if k in (1, 3):
        I.oblige('alternating facies of this length', zint(a('facies_array').shape[0]) == zint(a('num_facies')))
        i = z3.Int('layer')
        I.assume(z3.And(i >= 0, i < zint(a('num_facies'))))
        I.oblige('layers have facies of the element', ISF(a('facies_array').get((i,))))


REAL = 'x y z a b c max_ab alpha sinalpha cosalpha lag shift cosdip layer_dist normvec_x normvec_y normvec_z azim dip zmin zmax'.split()
INT = 'lag_facies structure facies num_ha num_facies'.split()


def setup(I):
    g = make_grid(I)
    n = I.size('n_objects')
    IS = z3.IntSort()
    FA = z3.Function('facies_arr', IS, IS, IS)
    nf = z3.Function('t_num_facies', IS, IS)
    fields = {f: 'real' for f in REAL}
    fields.update({f: 'int' for f in INT})
    fields.update(facies_array=lambda i: Arr((nf(i),), 'int', lambda ix: FA(i, zint(ix[0]))))
    objs = I.records('t', n, 'hyvr.geo.trough', 'Trough', fields)
    q = z3.Int('q')
    I.assume(z3.ForAll([q], nf(q) >= 0))
    ae = I.obj('hyvr.geo.trough_ae', 'TroughAE', object_list=objs, n_objects=n,
               object_zmin_list=uflist('t_zmin', n), object_zmax_list=uflist('t_zmax', n))
    return g, n, objs, ae, FA, nf


def arrays(I):
    """the object arrays hold the values of the objects"""
    g, n, objs, ae, FA, nf = setup(I)
    I.meth(ae, '_create_common_object_arrays', [])
    I.meth(ae, 'create_object_arrays', [])
    (i,) = I.formals(1, 'obj')
    I.assume(z3.And(i >= 0, i < n))
    for f in REAL + INT:
        if f in ('zmin', 'zmax'):
            continue
        arr = I.attr(ae)('object_' + f)
        v = arr.get((i,))
        want = objs.get(i).attrs[f]
        I.oblige('object_%s' % f, (zint(v) if f in INT else zreal(v)) == want)
    for f in ('zmin', 'zmax'):
        I.oblige('object_%ss' % f, zreal(I.attr(ae)('object_%ss' % f).get((i,))) == objs.get(i).attrs[f])
    (j,) = I.formals(1, 'layer')
    I.assume(z3.And(j >= 0, j < nf(i)))
    fa = I.attr(ae)('object_facies_array')
    I.oblige('object_facies_array', zint(fa.get((i, j))) == FA(i, j))
    I.oblige('room for all layers', zint(fa.shape[1]) >= nf(i))


def membership(I, st, kx=None):
    """arrays as established by `arrays`; objects as established by `trough_init`"""
    g = make_grid(I)
    G = g.attrs
    n = I.size('n_objects')
    A = {}
    for f in REAL:
        A['object_' + f] = ufarr('t_' + f, (n,))
    for f in INT:
        A['object_' + f] = ufarr('t_' + f, (n,), 'int')
    mf = I.size('max_facies', 0)
    fa = A['object_facies_array'] = ufarr('facies_arr', (n, mf), 'int')
    ae = I.obj('hyvr.geo.trough_ae', 'TroughAE', n_objects=n, object_zmins=A['object_zmin'], object_zmaxs=A['object_zmax'], **A)
    (oi,) = I.formals(1, 'oi')
    I.assume(z3.And(oi >= 0, oi < n))
    at = lambda f: A['object_' + f].get((oi,))
    ix, iy = z3.Ints('ix iy')
    I.assume(z3.And(ix >= 0, iy >= 0, ix < G['nx'], iy < G['ny']))
    a, b, c, M = at('a'), at('b'), at('c'), at('max_ab')
    S, C = at('sinalpha'), at('cosalpha')
    I.assume(z3.And(a > 0, b > 0, c > 0, M == z3.If(a > b, a, b), S * S + C * C == 1, at('dip') >= 0))
    per = G['periodic']
    I.assume(at('structure') == st)
    # oracle -----------------------------------------------------------------------------------------------------
    # the point is given by its distance (dx, dy, dz) from the nearest periodic image of the trough
    dx, dy, dz = real('dx'), real('dy'), real('dz')

    if kx is not None:
        I.assume(per if kx < 3 else z3.Not(per))

    def image(d, l, kx=None):
        if not I.decide(per):
            return d
        k = (0, 1, -1)[I.choose(3) if kx is None else kx]
        I.assume([z3.And(d <= l / 2, d >= -l / 2), d + l > l / 2, d - l < -l / 2][k])
        return d + k * l
    x, y, z = at('x') + image(dx, G['lx'], kx), at('y') + image(dy, G['ly']), at('z') + dz
    u, v, w = (dx * C + dy * S) / a, (-dx * S + dy * C) / b, dz / c
    l2 = u * u + v * v + w * w
    inside = z3.And(dz <= 0, l2 <= 1)
    # lemma: the box prefilter never excludes a point of the ellipsoid
    ex, ey, ez = dx, dy, dz
    au, bv, cw = a * u, b * v, c * w

    def scaled():
        I.lemma_gen('lemma: normalised distances', [ex, ey, ez, a, b, c, S, C, u, v, w],
                    lambda ex, ey, ez, a, b, c, S, C, u, v, w: (
                        [a > 0, b > 0, c > 0, u == (ex * C + ey * S) / a, v == (-ex * S + ey * C) / b, w == ez / c],
                        z3.And(a * u == ex * C + ey * S, b * v == -ex * S + ey * C, c * w == ez)))
        I.lemma_gen('lemma: rotation keeps the distance', [ex, ey, S, C, au, bv], lambda ex, ey, S, C, au, bv: (
            [S * S + C * C == 1, au == ex * C + ey * S, bv == -ex * S + ey * C], ex * ex + ey * ey == au * au + bv * bv))

    def box():
        I.derive('lemma: distance from normalised distances', ex * ex + ey * ey == au * au + bv * bv, scaled)
        I.lemma_gen('lemma: bounding box', [ex, ey, a, b, M, u, v, w],
                    lambda ex, ey, a, b, M, u, v, w: (
                        [a > 0, b > 0, a <= M, b <= M],
                        z3.And(a * u * (a * u) <= M * M * (u * u), b * v * (b * v) <= M * M * (v * v))))
        I.lemma_gen('lemma: box', [ex, ey, M, u, v, w, au, bv],
                    lambda ex, ey, M, u, v, w, au, bv: (
                        [M > 0, ex * ex + ey * ey == au * au + bv * bv, au * au <= M * M * (u * u), bv * bv <= M * M * (v * v)],
                        z3.Implies(u * u + v * v + w * w <= 1, z3.And(ex <= M, ex >= -M, ey <= M, ey >= -M))))
    I.derive('lemma: the bounding box contains the ellipsoid',
             z3.Implies(l2 <= 1, z3.And(ex <= M, ex >= -M, ey <= M, ey >= -M)), box)
    lag = z < at('z') - c + at('lag')
    if st == 1:
        # invariant of a trough with dipping layers (trough_init)
        ld, shift, nf = at('layer_dist'), at('shift'), at('num_facies')
        N = [at('normvec_' + k) for k in 'xyz']
        m3 = zmax3(a, b, c)
        I.assume(z3.And(ld > 0, shift >= 0, shift <= ld, N[0] * N[0] + N[1] * N[1] + N[2] * N[2] == 1,
                        z3.ToReal(nf) >= (2 * m3 + shift) / ld + 2, nf <= mf))
        Q = real('Q')
        I.assume(Q == m3)
        pd = ex * N[0] + ey * N[1] + ez * N[2]

        def layers():
            def dist3():
                scaled()
                I.lemma_gen('lemma: distance', [ex, ey, ez, au, bv, cw], lambda ex, ey, ez, p, q, r: (
                    [ex * ex + ey * ey == p * p + q * q, r == ez], ex * ex + ey * ey + ez * ez == p * p + q * q + r * r))
            I.derive('lemma: distance from normalised distances', ex * ex + ey * ey + ez * ez == au * au + bv * bv + cw * cw, dist3)
            I.lemma_gen('lemma: distance to the centre', [ex, ey, ez, a, b, c, Q, u, v, w],
                        lambda ex, ey, ez, a, b, c, Q, u, v, w: (
                            [a > 0, b > 0, c > 0, Q >= a, Q >= b, Q >= c],
                            z3.And(a * u * (a * u) <= Q * Q * (u * u), b * v * (b * v) <= Q * Q * (v * v), c * w * (c * w) <= Q * Q * (w * w))))
            I.oblige('lemma: radius', z3.Implies(l2 <= 1, ex * ex + ey * ey + ez * ez <= Q * Q * l2), 'lemma')
            I.lemma_gen('lemma: radius 2', [Q, l2, ex * ex + ey * ey + ez * ez], lambda Q, l, e: (
                [z3.Implies(l <= 1, e <= Q * Q * l), Q > 0], z3.Implies(l <= 1, e <= Q * Q)))
            I.lemma_gen('lemma: Cauchy-Schwarz', [ex, ey, ez] + N, lambda e0, e1, e2, n0, n1, n2: (
                [n0 * n0 + n1 * n1 + n2 * n2 == 1],
                (e0 * n0 + e1 * n1 + e2 * n2) * (e0 * n0 + e1 * n1 + e2 * n2)
                + (e0 * n1 - e1 * n0) * (e0 * n1 - e1 * n0) + (e0 * n2 - e2 * n0) * (e0 * n2 - e2 * n0) + (e1 * n2 - e2 * n1) * (e1 * n2 - e2 * n1)
                == (e0 * e0 + e1 * e1 + e2 * e2)))
            I.lemma_gen('lemma: plane distance', [pd, Q, ex * N[0] + ey * N[1] + ez * N[2],
                                                  ex * N[1] - ey * N[0], ex * N[2] - ez * N[0], ey * N[2] - ez * N[1],
                                                  ex * ex + ey * ey + ez * ez, l2],
                        lambda p, Q, t, c1, c2, c3, r, l: (
                            [p == t, t * t + c1 * c1 + c2 * c2 + c3 * c3 == r, Q > 0, z3.Implies(l <= 1, r <= Q * Q)],
                            z3.Implies(l <= 1, z3.And(p <= Q, p >= -Q))))
            I.lemma_gen('lemma: layer number', [pd, Q, ld, shift, l2, t, z3.ToReal(nf)], lambda p, Q, ld, s, l, t, nf: (
                [ld > 0, s >= 0, s <= ld, z3.Implies(l <= 1, z3.And(p <= Q, p >= -Q)), t == Q / ld, nf >= (2 * Q + s) / ld + 2],
                z3.And(nf >= 2 * t + s / ld + 2, s / ld <= 1, s / ld >= 0,
                       z3.Implies(l <= 1, z3.And((p + s) / ld <= t + s / ld, (p + s) / ld >= -t)))))
            I.oblige('lemma: layer index (inside)', z3.Implies(l2 <= 1, z3.And(layer >= 0, layer < nf)), 'lemma')
        t = real('t_layers')
        I.assume(t == Q / ld)
        layer = trunc((pd + shift) / ld) + nf / 2
        I.derive('lemma: layer index', z3.Implies(l2 <= 1, z3.And(layer >= 0, layer < nf)), layers)
        facies, az, dip = fa.get((oi, layer)), at('azim'), at('dip')
    elif st == 0:
        facies, az, dip = at('facies'), at('azim'), at('dip')
    else:
        # gradient of the quadratic form whose iso-surfaces are the nested ellipsoids
        p, q, r = u / a, v / b, w / c
        ln = I.sqrt(p * p + q * q + r * r)
        gx, gy, gz = p * C - q * S, p * S + q * C, r
        I.oblige('lemma: length of the gradient', p * p + q * q + r * r == gx * gx + gy * gy + gz * gz, 'lemma')
        I.lemma_gen('lemma: slope of the horizontal projection', [gx, gy, ln], lambda gx, gy, ln: (
            [ln >= 0], z3.Implies(z3.And(ln != 0, gx != 0), z3.And(
                gy / ln / (gx / ln) == gy / gx, (-(gy / ln)) / (-(gx / ln)) == gy / gx, (gy / ln) / (-(gx / ln)) == -(gy / gx)))))
        I.lemma_gen('lemma: sign of the gradient', [gx, gz, ln], lambda gx, gz, ln: (
            [ln >= 0], z3.Implies(ln != 0, z3.And((gx / ln == 0) == (gx == 0), (gx / ln > 0) == (gx > 0), (gz / ln == 0) == (gz == 0),
                                                  (gx / ln * (gz / ln) >= 0) == (gx * gz >= 0)))))
        I.lemma_gen('lemma: length of the projection', [gx, gy, ln], lambda gx, gy, ln: (
            [ln >= 0], z3.Implies(ln != 0, z3.And((gx / ln * (gx / ln) + gy / ln * (gy / ln) == 0) == z3.And(gx == 0, gy == 0),
                                                  gx / ln * (gx / ln) + gy / ln * (gy / ln) >= 0))))
        slope = ACOS(z3.If(gz / ln >= 0, gz / ln, -(gz / ln))) / PI * 180
        raw = z3.If(z3.And(gx == 0, gy == 0), 0,
                    z3.If(z3.If(gz == 0, gx >= 0, gx * gz >= 0), -slope, slope))
        dm = at('dip')
        dip = z3.If(raw > dm, dm, z3.If(raw < -dm, -dm, raw))
        az = z3.If(gx == 0, z3.If(gy == 0, 0, z3.If(gy > 0, z3.RealVal(-90), z3.RealVal(90))), -ATAN(gy / gx) / PI * 180)
        facies = at('facies')
        I.BULB = (p, q, r, ln, gx, gy, gz)
        if st == 3:
            ld, shift, nf = at('layer_dist'), at('shift'), at('num_facies')
            I.assume(z3.And(ld > 0, shift >= 0, shift <= 1, z3.ToReal(nf) >= (1 + shift) * c / ld + 1, nf <= mf))
            h = (I.sqrt(l2) + shift) * c / ld
            I.lemma_gen('lemma: shell', [I.sqrt(l2), l2, shift, c, ld, z3.ToReal(nf)], lambda s, l, sh, c, ld, nf: (
                [s >= 0, s * s == l, sh >= 0, c > 0, ld > 0, nf >= (1 + sh) * c / ld + 1],
                z3.Implies(l <= 1, z3.And((s + sh) * c / ld <= nf - 1, (s + sh) * c / ld >= 0))))
            facies = fa.get((oi, -z3.ToInt(-h)))
    ids, ang = ufarr('ids', (4,), 'int'), ufarr('ang', (2,))
    id0 = [ids.get((k,)) for k in range(4)]
    I.meth(ae, 'maybe_assign_points_to_object', [oi, ids, ang, x, y, z, ix, iy, g])
    f, A0, A1 = zint(ids.get((0,))), zreal(ang.get((0,))), zreal(ang.get((1,)))
    I.oblige('outside: not assigned', z3.Implies(z3.Not(inside), f == -1))
    inl, ins = z3.And(inside, lag), z3.And(inside, z3.Not(lag))
    I.oblige('lag: facies', z3.Implies(inl, f == at('lag_facies')))
    I.oblige('lag: no orientation', z3.Implies(inl, z3.And(A0 == 0, A1 == 0)))
    I.oblige('inside: facies', z3.Implies(ins, f == facies))
    I.oblige('inside: azimuth', z3.Implies(ins, A0 == az))
    I.oblige('inside: dip', z3.Implies(ins, A1 == dip))
    I.oblige('inside: object number', z3.Implies(inside, zint(ids.get((2,))) == at('num_ha')))
    I.oblige('frame: other entries', z3.And(zint(ids.get((1,))) == id0[1], zint(ids.get((3,))) == id0[3]))


PROOFS = [('trough_init', trough_init, dict(contracts=ALT)), ('arrays', arrays)] + [
    ('membership_' + STRUCT[k], lambda I, k=k: membership(I, k), dict(lazy_branch=True)) for k in range(2)] + [
    # split by the periodic image in x (3: not periodic) to run in parallel
    ('membership_%s_%s' % (STRUCT[k], ['image0', 'image+', 'image-', 'nonperiodic'][kx]),
     lambda I, k=k, kx=kx: membership(I, k, kx), dict(lazy_branch=True)) for k in (2, 3) for kx in range(4)]
