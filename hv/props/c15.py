"""C15: membership in channels, their internal structure and the shortcut for far away cells."""
import z3
from hv.common import *
from hv.loops import And_

CH, CA = 'hyvr.geo.channel', 'hyvr.geo.channel_ae'
IS, RS = z3.IntSort(), z3.RealSort()


def channel_init(I):
    dip = I.choose(2)
    g = make_grid(I)
    G = g.attrs
    n = I.size('n_points', 0)
    X, Y, VX, VY = [ufarr(k, (n,)) for k in ('xc', 'yc', 'vx', 'vy')]
    z, width, depth = real('z'), real('width'), real('depth')
    ld = real('dipset_dist')
    I.assume(z3.And(width > 0, depth > 0, ld > 0))
    tp = D(dict(structure='dip' if dip else 'massive', dipset_dist=ld, dip=interval('dip'), azimuth=interval('az'),
                lag_height=real('lag'), lag_facies=z3.Int('lagf'), facies=facies_list(I)))
    # length of the centre line up to point k
    T = z3.Function('curve_length', IS, RS)
    seg = lambda k: I.sqrt((X.get((k,)) - X.get((k - 1,))) * (X.get((k,)) - X.get((k - 1,)))
                           + (Y.get((k,)) - Y.get((k - 1,))) * (Y.get((k,)) - Y.get((k - 1,))))
    I.assume(z3.And(T(0) == 0, T(1) == 0))
    # dip angles are between 0 and 90 degrees, so their sine is not negative
    d0, d1 = [zreal(v) for v in tp.items['dip'].items]
    I.assume(z3.And(d0 >= 0, d1 >= 0, d0 <= 90, d1 <= 90))
    t = z3.Real('t')
    I.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t <= PI / 2), I.trig('sin', t) >= 0), patterns=[I.trig('sin', t)]))

    def cand(I, ctx):
        for i, loc in ctx.locs.items():
            for off in (0, 1):
                def at(ctx, kk, loc=loc, off=off):
                    v = loc.get()
                    if kind_of(v) not in ('int', 'real'):
                        return None
                    k = zint(kk) + off
                    I.assume(z3.Implies(k >= 1, T(k + 1) == T(k) + seg(k)))
                    return zreal(v) == T(k)
                yield '%s is the length so far %d' % (loc, off), at

        def pos(ctx, kk):
            k = zint(kk)
            I.assume(z3.And(*[z3.Implies(k + o >= 1, T(k + o + 1) == T(k + o) + seg(k + o)) for o in (0, 1)]))
            return z3.And(T(k) >= 0, T(k + 1) >= 0)
        yield 'the length is not negative', pos
    I.loop_cands = [cand]
    o = I.new(CH, 'Channel', [tp, X, Y, VX, VY, z, width, depth, g])
    a = I.attr(o)
    (i,) = I.formals(1, 'i')
    I.assume(z3.And(i >= 0, i < n))
    for f, w in (('x_center', X), ('y_center', Y), ('vx', VX), ('vy', VY)):
        I.oblige('%s is kept' % f, z3.And(zint(a(f).shape[0]) == n, zreal(a(f).get((i,))) == w.get((i,))))
    I.oblige('number of points', zint(a('len_centerline')) == n)
    I.oblige('size', z3.And(zreal(a('width')) == width, zreal(a('depth')) == depth))
    I.oblige('vertical extent', z3.And(zreal(a('ztop')) == z, zreal(a('zmax')) == z, zreal(a('zmin')) == z - depth))
    I.oblige('parabola through the banks', zreal(a('a')) * width * width == 4 * depth)
    I.oblige('lag', z3.And(zreal(a('lag_height')) == real('lag'), zint(a('lag_facies')) == z3.Int('lagf')))
    c = I.formals(2, 'cell')
    dc = a('dont_check')
    I.oblige('all cells have to be checked', z3.And(*[zint(dc.shape[q]) == G['nx ny'.split()[q]] for q in range(2)],
                                                   z3.Implies(I.in_shape(c, dc.shape), zint(dc.get(c)) == 0)))
    m = zreal(a('min_dx_dy'))
    I.oblige('smallest cell size', z3.And(m <= G['dx'], m <= G['dy'], z3.Or(m == G['dx'], m == G['dy'])))
    I.oblige('structure', (zint(a('dipsets')) != 0) if dip else (zint(a('dipsets')) == 0))
    I.oblige('dip', between(I, tp.items['dip'], a('dip')))
    if not dip:
        I.oblige('facies', ISF(zint(a('facies'))))
        I.oblige('azimuth', between(I, tp.items['azimuth'], a('azim')))
        return
    P = zreal(a('dip')) * PI / 180
    I.oblige('inclination', z3.And(zreal(a('sin_dip')) == I.trig('sin', P), zreal(a('cos_dip')) == I.trig('cos', P)))
    sh, nf = zreal(a('shift')), zint(a('num_facies'))
    I.oblige('layer distance and shift', z3.And(zreal(a('layer_dist')) == ld, sh >= 0, sh <= ld))
    Lc = T(n) if I.decide(n >= 1) else z3.RealVal(0)
    I.oblige('enough layers', z3.ToReal(nf) >= Lc * zreal(a('sin_dip')) / ld + depth / ld + 2)
    I.oblige('facies of all layers', zint(a('facies_array').shape[0]) == nf)
    (j,) = I.formals(1, 'layer')
    I.assume(z3.And(j >= 0, j < nf))
    I.oblige('layers have facies of the element', ISF(a('facies_array').get((j,))))


REAL = 'ztop a depth width lag_height min_dx_dy azim dip sin_dip cos_dip layer_dist shift'.split()
INT = 'len_centerline num_ha lag_facies dipsets facies num_facies'.split()


def sqrts(t):
    """applications of the square root in a term"""
    out, seen = [], set()

    def walk(t):
        if t.get_id() in seen:
            return
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().name() == 'sqrt' and t.num_args() == 1:
            out.append(t)
        for c in t.children():
            walk(c)
    walk(t)
    return out


def query(I, dips):
    """one query; arrays as established by create_object_arrays (C23), objects as established by channel_init"""
    g = make_grid(I)
    G = g.attrs
    n, mp, mf = I.size('n_objects'), I.size('max_points', 0), I.size('max_facies', 0)
    A = {'object_' + f: ufarr('c_' + f, (n,)) for f in REAL}
    A.update({'object_' + f: ufarr('c_' + f, (n,), 'int') for f in INT})
    for f in ('x_center', 'y_center', 'vx', 'vy'):
        A['object_' + f] = ufarr('c_' + f, (n, mp))
    fa = A['object_facies_array'] = ufarr('c_facies_array', (n, mf), 'int')
    dc = A['object_dont_check'] = ufarr('c_dont_check', (n, G['nx'], G['ny']), 'int')
    ae = I.obj(CA, 'ChannelAE', n_objects=n, **A)
    (oi,) = I.formals(1, 'oi')
    ix, iy = z3.Ints('ix iy')
    x, y, z = real('x'), real('y'), real('z')
    at = lambda f: A['object_' + f].get((oi,))
    I.assume(z3.And(oi >= 0, oi < n, ix >= 0, iy >= 0, ix < G['nx'], iy < G['ny']))
    N, W, depth, a, zt = at('len_centerline'), at('width'), at('depth'), at('a'), at('ztop')
    mn = at('min_dx_dy')
    I.assume(z3.And(N >= 0, N <= mp, W > 0, depth > 0, a * (W * W) == 4 * depth, a > 0, mn > 0, mn <= G['dx'], mn <= G['dy']))
    I.assume(at('dipsets') != 0 if dips else at('dipsets') == 0)
    dz = z - zt
    XC, YC = [lambda i, f=f: A['object_' + f].get((oi, i)) for f in ('x_center', 'y_center')]
    # the cell (p, q) of the grid relative to the queried one
    cx = lambda p: x + z3.ToReal(p - ix) * G['dx']
    cy = lambda q: y + z3.ToReal(q - iy) * G['dy']
    D2 = lambda X, Y, i: (X - XC(i)) * (X - XC(i)) + (Y - YC(i)) * (Y - YC(i))
    i = z3.Int('ci')
    BIG = z3.RealVal(10) ** 100
    # closest point of the centre line to the queried cell (the first of them), at distance R
    C, R, R2 = z3.Int('closest'), real('distance'), real('distance2')
    rng = z3.And(i >= 0, i < N)
    I.assume(z3.ForAll([i], z3.Implies(rng, D2(x, y, i) >= R2), patterns=[XC(i)]))
    I.assume(z3.ForAll([i], z3.Implies(z3.And(rng, i < C), D2(x, y, i) > R2), patterns=[XC(i)]))
    I.assume(z3.ForAll([i], z3.Implies(rng, D2(x, y, i) < BIG), patterns=[XC(i)]))
    I.assume(z3.Implies(N > 0, z3.And(C >= 0, C < N, R2 == D2(x, y, C))))
    I.assume(z3.And(R >= 0, R * R == R2, R2 >= 0, R < BIG, R2 < BIG))
    # a generic cell and the closest point of the centre line to it
    P, Q, CP = z3.Int('P'), z3.Int('Q'), z3.Int('closestP')
    M2 = real('distance2P')
    I.assume(z3.And(P >= 0, Q >= 0, P < G['nx'], Q < G['ny'], z3.Implies(N > 0, z3.And(CP >= 0, CP < N, M2 == D2(cx(P), cy(Q), CP)))))
    I.assume(D2(x, y, CP) >= R2) if I.decide(N > 0) else None
    # invariant of the shortcut: a skipped cell is outside at and below the lowest elevation queried in its column
    low, lowP = real('low'), real('lowP')
    I.assume(z3.And(low <= 0, lowP <= 0))
    here = z3.And(P == ix, Q == iy)
    I.assume(z3.Implies(here, z3.And(lowP == low, M2 == R2)))
    I.assume(z3.Implies(zint(dc.get((oi, ix, iy))) != 0, z3.And(N > 0, a * R2 - depth > low)))
    I.assume(z3.Implies(zint(dc.get((oi, P, Q))) != 0, z3.And(N > 0, a * M2 - depth > lowP)))
    I.assume(z3.Or(dz > 0, dz <= low))        # columns are visited from top to bottom
    if dips:
        I.assume(z3.And(at('layer_dist') > 0, at('sin_dip') >= 0, at('cos_dip') >= 0, at('cos_dip') <= 1, at('sin_dip') <= 1,
                        at('shift') >= 0, at('shift') <= at('layer_dist')))
    # another cell of another channel
    o2, P2, Q2 = z3.Ints('oj P2 Q2')
    I.assume(z3.And(o2 >= 0, o2 < n, o2 != oi, P2 >= 0, P2 < G['nx'], Q2 >= 0, Q2 < G['ny']))
    other = zint(dc.get((o2, P2, Q2)))
    far = M2 >= W * W
    old = zint(dc.get((oi, P, Q)))

    if dips:
        # length of the centre line and sums of inverse distance weights of the first k points
        T, SW, SX, SY = [z3.Function(nm, IS, RS) for nm in ('curve_length', 'sum_weights', 'sum_vx', 'sum_vy')]
        GHOST = {'length': T, 'sum of weights': SW, 'sum of x velocities': SX, 'sum of y velocities': SY}
        I.assume(z3.And(*[f(0) == 0 for f in GHOST.values()]))
        D_ = lambda i: I.sqrt(D2(x, y, i))
        V = [lambda i, f=f: A['object_' + f].get((oi, i)) for f in ('vx', 'vy')]

        def unfold(k):
            d = (XC(k) - XC(k - 1)) * (XC(k) - XC(k - 1)) + (YC(k) - YC(k - 1)) * (YC(k) - YC(k - 1))
            w = 1 / (D_(k) + z3.RealVal('1e-20'))
            I.assume(z3.Implies(k >= 0, z3.And(T(k + 1) == T(k) + z3.If(k > 0, I.sqrt(d), 0), SW(k + 1) == SW(k) + w,
                                               SX(k + 1) == SX(k) + V[0](k) * w, SY(k + 1) == SY(k) + V[1](k) * w)))
            w3(D_(k), R, D2(x, y, k), R2), w4(D_(k), D2(x, y, k))
            w1(D_(k)), w2(x - XC(k), y - YC(k)), w2(XC(k) - XC(k - 1), YC(k) - YC(k - 1))


    def rule(name, n, fn):
        """a fact proved for all values of n real variables; returns its instances"""
        vs = [z3.Real('v%d' % k) for k in range(n)]
        hyps, con = fn(*vs)
        with I.context(hyps):
            I.oblige(name, con, 'lemma')

        def use(*terms):
            hyps, con = fn(*[zreal(t) for t in terms])
            I.assume(z3.Implies(And_(hyps), con))
        return use

    if dips:
        w1 = rule('lemma: weight', 1, lambda d: ([d >= 0], z3.And(1 / (d + z3.RealVal('1e-20')) > 0, d + z3.RealVal('1e-20') > 0)))
        w3 = rule('lemma: order of roots', 4, lambda s, R, v, R2: ([s >= 0, R >= 0, s * s == v, R * R == R2], z3.And(
            z3.Implies(v >= R2, s >= R), z3.Implies(v > R2, s > R), z3.Implies(v == R2, s == R))))
        w4 = rule('lemma: large roots', 2, lambda s, v: ([s >= 0, s * s == v, v < BIG], s < BIG))
        w2 = rule('lemma: sum of squares', 2, lambda a, b: ([], a * a + b * b >= 0))
    # |s| <= R - W and |u| >= R: |u + s| >= W
    r1 = rule('lemma: product of lengths', 3, lambda p, U, n: ([U >= 0, n >= 0, p * p <= (U * n) * (U * n)], p >= -(U * n)))
    r2 = rule('lemma: length of the sum', 4, lambda p, U, n, W: (
        [p >= -(U * n), U >= n + W, n >= 0, W > 0], U * U + 2 * p + n * n >= W * W))
    r3 = rule('lemma: Cauchy-Schwarz', 4, lambda a, b, c, d: ([], (a * c + b * d) * (a * c + b * d) <= (a * a + b * b) * (c * c + d * d)))
    r4 = rule('lemma: order of squares', 2, lambda a, b: ([a >= 0, b >= 0, a * a <= b * b], a <= b))
    r5 = rule('lemma: product of squares', 4, lambda U, n, u, s: ([U * U == u, n * n == s], (U * n) * (U * n) == u * s))

    def triangle(u1, u2, s1, s2, R, W):
        return [R >= W, W > 0, s1 * s1 + s2 * s2 <= (R - W) * (R - W), u1 * u1 + u2 * u2 >= R * R], (
            (u1 + s1) * (u1 + s1) + (u2 + s2) * (u2 + s2) >= W * W)
    vs = [z3.Real('v%d' % k) for k in range(6)]
    u1, u2, s1, s2, R_, W_ = vs
    hyps, con = triangle(*vs)
    U, L_ = z3.Reals('U L')
    with I.context(hyps + [U >= 0, L_ >= 0, U * U == u1 * u1 + u2 * u2, L_ * L_ == s1 * s1 + s2 * s2]):
        r4(L_, R_ - W_), r4(R_, U), r3(u1, u2, s1, s2), r5(U, L_, u1 * u1 + u2 * u2, s1 * s1 + s2 * s2)
        p = u1 * s1 + u2 * s2
        I.oblige('lemma: lengths', z3.And(L_ <= R_ - W_, U >= R_), 'lemma')
        I.oblige('lemma: product', p * p <= (U * L_) * (U * L_), 'lemma')
        r1(p, U, L_), r2(p, U, L_, W_)
        I.oblige('lemma: triangle inequality', con, 'lemma')
    g1 = rule('lemma: cells in a length', 4, lambda k, t, S, d: ([d > 0, k >= 0, k < t, t <= S / d], z3.And(k * d <= S, k * d >= 0)))
    g2 = rule('lemma: point of the circle', 5, lambda p, q, S, g, r: (
        [p >= 0, q >= 0, q <= S, S * S == g, g == r * r - p * p], p * p + q * q <= r * r))
    g3 = rule('lemma: sign of an offset', 3, lambda p, k, d: ([z3.Or(p == k, p == -k)], (p * d) * (p * d) == (k * d) * (k * d)))

    g4 = rule('lemma: not beyond the circle', 2, lambda p, r: ([p >= 0, p <= r], r * r - p * p >= 0))
    g5 = rule('lemma: distance squared', 3, lambda t, R, R2: ([t == R, R * R == R2], t * t == R2))
    g6 = rule('lemma: same root', 4, lambda s, R, v, R2: ([s >= 0, R >= 0, s * s == v, R * R == R2, v == R2], s == R))

    g7 = rule('lemma: outside the parabola', 4, lambda a, M2, W, d: ([a > 0, M2 >= W * W, a * (W * W) == 4 * d], a * M2 >= 4 * d))
    g8 = rule('lemma: same parabola', 3, lambda a, M2, R2: ([M2 == R2], a * M2 == a * R2))
    g7(a, M2, W, depth), g8(a, M2, R2)

    def tri(*terms):
        hyps, con = triangle(*terms)
        I.assume(z3.Implies(And_(hyps), con))

    def geometry(ctx):
        """the cells within sqrt((R - W)^2) of the queried one are farther than W from the centre line"""
        if len(I.counters) < 2 or ctx.k is not I.counters[-1]:
            return
        i1, j1 = [z3.ToReal(k) for k in I.counters[-2:]]
        dx, dy = G['dx'], G['dy']
        tr = lambda t: z3.ToReal(trunc(t))
        px, py = z3.ToReal(P - ix), z3.ToReal(Q - iy)
        u = x - XC(CP), y - YC(CP)
        for S in sqrts(ctx.rng(ctx.k)):
            arg = S.arg(0)
            for t in sqrts(arg) + [v for v in z3.z3util.get_vars(arg) if v.sort() == RS]:
                if t.num_args():
                    g6(t, R, t.arg(0), R2)
                if not I.entails(t == R):
                    continue
                r = t - W
                g1(i1, tr(r / dx), r, dx), g4(i1 * dx, r), g1(j1, tr(S / dy), S, dy)
                g2(i1 * dx, j1 * dy, S, arg, r), g3(px, i1, dx), g3(py, j1, dy), g5(t, R, R2)
                s = px * dx, py * dy
                tri(*u, *s, t, W)
                for f in (i1 * dx <= r, j1 * dy <= S, S * S == arg, arg == r * r - i1 * dx * (i1 * dx),
                          i1 * dx * (i1 * dx) + j1 * dy * (j1 * dy) <= r * r, u[0] * u[0] + u[1] * u[1] >= t * t,
                          M2 == (u[0] + s[0]) * (u[0] + s[0]) + (u[1] + s[1]) * (u[1] + s[1]),
                          z3.Implies(z3.And(z3.Or(px == i1, px == -i1), z3.Or(py == j1, py == -j1)), s[0] * s[0] + s[1] * s[1] <= r * r),
                          z3.Implies(z3.And(z3.Or(px == i1, px == -i1), z3.Or(py == j1, py == -j1)), far)):
                    if I.entails(f):
                        I.assume(f)

    def cand(I, ctx):
        for li, loc in ctx.locs.items():
            v = lambda: loc.get()
            for nm, r in (('distance', R), ('squared distance', R2)):
                yield '%s is at least the %s' % (loc, nm), lambda ctx, kk, loc=loc, r=r: (
                    zreal(loc.get()) >= r if kind_of(loc.get()) in ('int', 'real') else None)
                yield '%s is the %s after the closest point' % (loc, nm), lambda ctx, kk, loc=loc, r=r: (
                    z3.Implies(zint(kk) > C, zreal(loc.get()) == r) if kind_of(loc.get()) in ('int', 'real') else None)
        if dips:
            for li, loc in ctx.locs.items():
                num = lambda loc: kind_of(loc.get()) in ('int', 'real')
                def larger(ctx, kk, loc=loc):
                    unfold(zint(kk))
                    return z3.Implies(zint(kk) <= C, zreal(loc.get()) > R) if num(loc) else None
                yield '%s is larger than the distance before the closest point' % loc, larger
                yield '%s is the length up to the closest point' % loc, lambda ctx, kk, loc=loc: (
                    z3.Implies(zint(kk) > C, zreal(loc.get()) == T(C + 1)) if num(loc) else None)
                for gn, gf in GHOST.items():
                    def at(ctx, kk, gf=gf, loc=loc):
                        unfold(zint(kk))
                        return zreal(loc.get()) == gf(zint(kk)) if num(loc) else None
                    yield '%s is the %s so far' % (loc, gn), at

            def fact(f):
                def at(ctx, kk):
                    unfold(zint(kk))
                    return f(zint(kk))
                return at
            yield 'length is not negative', fact(lambda k: T(k) >= 0)
            yield 'weights are not negative', fact(lambda k: SW(k) >= 0)
            yield 'weights are positive', fact(lambda k: z3.Implies(k > 0, SW(k) > 0))
            yield 'length after the closest point', fact(lambda k: z3.Implies(k > C, z3.And(T(k) >= T(C + 1), T(C + 1) >= 0)))
        yield 'other channels are not touched', lambda ctx, kk: zint(dc.get((o2, P2, Q2))) == other

        def skipped(ctx, kk):
            geometry(ctx)
            return z3.Or(zint(dc.get((oi, P, Q))) == old, far)
        yield 'skipped cells are far away', skipped
    I.loop_cands = [cand]
    inside = z3.And(dz <= 0, N > 0, dz >= a * R2 - depth)
    if dips:
        ld, nf = at('layer_dist'), at('num_facies')
        sn, cs, sh = at('sin_dip'), at('cos_dip'), at('shift')
        along = T(C + 1)
        layer = trunc((along * sn + dz * cs + sh) / ld) + -z3.ToInt(-(depth / ld))
        I.assume(z3.And(z3.ToReal(nf) >= T(N) * sn / ld + depth / ld + 2, nf <= mf))
        l1 = rule('lemma: position in the layers', 8, lambda al, L_, sn, cs, sh, ld, dz, depth: (
            [al >= 0, al <= L_, sn >= 0, cs >= 0, cs <= 1, sh >= 0, sh <= ld, ld > 0, dz <= 0, dz >= -depth], z3.And(
                al * sn + dz * cs + sh <= L_ * sn + ld, al * sn + dz * cs + sh >= -depth)))
        l2 = rule('lemma: number of layers', 4, lambda d, D_, ld, depth: (
            [ld > 0, d <= D_ + ld, d >= -depth], z3.And(d / ld <= D_ / ld + 1, d / ld >= -(depth / ld))))
        l3 = rule('lemma: above the bottom', 4, lambda a, R2, dz, depth: ([a > 0, R2 >= 0, dz >= a * R2 - depth], dz >= -depth))
        ok = z3.And(layer >= 0, layer < mf)
        known = z3.And(along >= 0, along <= T(N))

        def layers():
            l1(along, T(N), sn, cs, sh, ld, dz, depth), l2(along * sn + dz * cs + sh, T(N) * sn, ld, depth), l3(a, R2, dz, depth)
        I.derive('lemma: layer index', z3.Implies(z3.And(inside, known), ok), layers)
    ids, ang = ufarr('ids', (4,), 'int'), ufarr('ang', (2,))
    id0 = [ids.get((k,)) for k in range(4)]
    I.meth(ae, 'maybe_assign_points_to_object', [oi, ids, ang, x, y, z, ix, iy, g])
    lag = z < zt - depth + at('lag_height')
    f, A0, A1 = zint(ids.get((0,))), zreal(ang.get((0,))), zreal(ang.get((1,)))
    I.oblige('outside: not assigned', z3.Implies(z3.Not(inside), f == -1))
    inl, ins = z3.And(inside, lag), z3.And(inside, z3.Not(lag))
    I.oblige('lag: facies', z3.Implies(inl, f == at('lag_facies')))
    I.oblige('lag: no orientation', z3.Implies(inl, z3.And(A0 == 0, A1 == 0)))
    if not dips:
        I.oblige('inside: facies', z3.Implies(ins, f == at('facies')))
        I.oblige('inside: azimuth', z3.Implies(ins, A0 == at('azim')))
    else:
        vel = SX(N) / SW(N), SY(N) / SW(N)
        I.oblige('inside: azimuth', z3.Implies(ins, A0 == ATAN2(vel[1], vel[0]) / PI * 180))
        I.oblige('inside: facies', z3.Implies(ins, f == fa.get((oi, layer))))
    I.oblige('inside: dip', z3.Implies(ins, A1 == at('dip')))
    I.oblige('inside: object number', z3.Implies(inside, zint(ids.get((2,))) == at('num_ha')))
    I.oblige('frame: other entries', z3.And(zint(ids.get((1,))) == id0[1], zint(ids.get((3,))) == id0[3]))
    low2 = z3.If(z3.And(here, dz <= 0), dz, lowP)
    I.oblige('skipped cells are outside for the rest of their column', z3.Implies(
        zint(dc.get((oi, P, Q))) != 0, z3.And(N > 0, a * M2 - depth > low2)))
    I.oblige('other channels are not touched', zint(dc.get((o2, P2, Q2))) == other)


PROOFS = [('channel_init', channel_init, dict(contracts=ALT)),
          ('query_dip', lambda I: query(I, True), dict(lazy_branch=True, quick_ms=400)),
          ('query_massive', lambda I: query(I, False), dict(lazy_branch=True, quick_ms=400))]
