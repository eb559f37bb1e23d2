"""random fields"""
import numpy as np

from hv.conc import gen

RULE = 'random grids, masks, correlation lengths and both covariance models; non-trivial: more than one cell in every direction'


def draw(ctx, f, seed, *a, **k):
    np.random.seed(seed)
    return ctx.call(f, *a, **k)


def args(ctx, g):
    r = ctx.rng
    return r.uniform(.01, 4), [r.uniform(.3, 2) * q for q in (g.lx, g.ly, g.lz)], r.choice(['gaussian', 'exp'])


def boxes(m):
    w = np.where(m)
    return tuple(slice(int(a.min()), int(a.max()) + 1) for a in w)


def shapes(ctx):
    f = ctx.get('hyvr.utils', 'specsim')
    for it in ctx.iter(250):
        r = ctx.rng
        g = gen.make_grid(ctx, 7)
        var, corl, cov = args(ctx, g)
        two = r.random() < .4
        full = (g.nx, g.ny) if two else (g.nx, g.ny, g.nz)
        c = corl[:2] if two else corl
        seed = r.randrange(2**31)
        inp = dict(shape=full, var=var, corl=c, covmod=cov, seed=seed)
        kw = dict(two_dim=two, covmod=cov)
        res = draw(ctx, f, seed, g, var, c, **kw)
        ctx.case((it, full, cov), trivial=min(full) < 2, sample=inp)
        Y = ctx.must(res, 'random field', inp)
        if Y is None:
            continue
        ctx.expect(np.shape(Y) == full and np.all(np.isfinite(Y)) and not np.iscomplexobj(Y), 'real finite values, one per cell', inp, full, np.shape(Y))
        ctx.expect(abs(np.mean(Y)) <= 1e-9 * np.sqrt(var) * 10, 'mean of the field is zero', inp, 0, np.mean(Y))
        # scaling with the standard deviation
        s = r.uniform(.2, 5)
        Y2 = ctx.must(draw(ctx, f, seed, g, var * s * s, c, **kw), 'random field', inp)
        if Y2 is not None:
            ctx.expect(np.allclose(Y2, Y * s, rtol=1e-5, atol=1e-5 * s), 'field is proportional to the standard deviation', (inp, s), Y * s, Y2)
        Y0 = ctx.must(draw(ctx, f, seed, g, 0., c, **kw), 'random field', inp)
        if Y0 is not None:
            ctx.expect(np.all(Y0 == 0), 'no variance, no variation', inp, 0, Y0)
        # reproducible
        Y3 = ctx.must(draw(ctx, f, seed, g, var, c, **kw), 'random field', inp)
        if Y3 is not None:
            ctx.expect(np.array_equal(Y, Y3), 'the same seed gives the same field', inp)
        # masks
        m = np.random.RandomState(seed).rand(*full) < r.choice([.1, .5, 1.])
        if not m.any():
            m[tuple(r.randrange(q) for q in full)] = True
        m0 = m.copy()
        V = ctx.must(draw(ctx, f, seed, g, var, c, selection_mask=m, **kw), 'random field of a selection', (inp, m0))
        if V is None:
            continue
        ctx.expect(np.array_equal(m, m0), 'the mask stays as it is', inp)
        ctx.expect(np.shape(V) == (int(m.sum()),), 'one value per selected cell', (inp, m0), int(m.sum()), np.shape(V))
        bx = np.zeros(full, bool)
        bx[boxes(m)] = True
        B = ctx.must(draw(ctx, f, seed, g, var, c, selection_mask=bx, **kw), 'random field of a box', (inp, bx))
        if B is None or np.shape(V) != (int(m.sum()),) or np.shape(B) != (int(bx.sum()),):
            continue
        F = np.full(full, np.nan)
        F[bx] = B
        ctx.expect(np.allclose(F[m], V, rtol=1e-5, atol=1e-5), 'values belong to the selected cells in the order of boolean indexing', (inp, m0), F[m], V)
        if bx.all():
            ctx.expect(np.allclose(F, Y, rtol=1e-5, atol=1e-5), 'selecting everything is the same as no mask', inp, Y, F)
    g = gen.make_grid(ctx, 4)
    res = ctx.call(f, g, 1., [1., 1., 1.], covmod='nonsense')
    ctx.expect(res[0] == 'exc' and isinstance(res[1], ValueError), 'an unknown covariance model is refused', 'nonsense', 'ValueError', res)


def theory(g, full, var, corl, cov):
    """covariance between cell 0 and every other cell: the periodic covariance whose spectrum is that of the model, without the mean"""
    ax = []
    for n, d in zip(full, (g.dx, g.dy, g.dz)):
        ax.append((np.arange(n) - (n - 1) / 2) * d)
    M = np.meshgrid(*ax, indexing='ij')
    h2 = sum((a / c)**2 for a, c in zip(M, corl))
    ryy = var * (np.exp(-h2) if cov == 'gaussian' else np.exp(-np.sqrt(h2)))
    S = np.zeros(full, complex)
    ks = np.indices(full).reshape(len(full), -1).T
    pos = np.indices(full).reshape(len(full), -1).T
    r = np.ravel(ryy)
    s = []
    for k in ks:
        ph = np.exp(-2j * np.pi * sum(k[a] * pos[:, a] / full[a] for a in range(len(full))))
        s.append(abs(np.sum(r * ph)) / r.size)
    s[0] = 0
    s = np.array(s)
    cov_ = np.array([np.sum(s * np.cos(2 * np.pi * sum(ks[:, a] * p[a] / full[a] for a in range(len(full))))) for p in pos])
    return cov_.reshape(full), s.sum()


def covariance(ctx):
    """variances and covariances over many draws (6 standard errors: a false alarm has a probability below 1e-8 per value)"""
    f = ctx.get('hyvr.utils', 'specsim')
    N = 1500
    for it in ctx.iter(14):
        r = ctx.rng
        while True:
            g = gen.make_grid(ctx, 4)
            if g.nx * g.ny * g.nz <= 40:
                break
        var, corl, cov = args(ctx, g)
        two = r.random() < .4
        full = (g.nx, g.ny) if two else (g.nx, g.ny, g.nz)
        c = corl[:2] if two else corl
        inp = dict(shape=full, d=(g.dx, g.dy, g.dz), var=var, corl=c, covmod=cov)
        if g.nx == 1 and g.ny == 1 and (two or g.nz == 1):
            continue
        mask = np.ones(full, bool) if r.random() < .5 else None
        Ys = []
        for q in range(N):
            res = ctx.call(f, g, var, c, two_dim=two, covmod=cov, selection_mask=mask)
            Y = ctx.must(res, 'random field', inp)
            if Y is None:
                return
            Ys.append(np.reshape(Y, full))
        Ys = np.array(Ys)
        ctx.case((it, full, cov), sample=inp)
        want, v0 = theory(g, full, var, c, cov)
        base = Ys[(slice(None),) + (0,) * len(full)]
        got = np.mean(base.reshape((N,) + (1,) * len(full)) * Ys, axis=0)
        se = np.sqrt((v0 * v0 + want**2) / N)
        bad = np.abs(got - want) > 7 * se + 1e-9
        ctx.expect(not bad.any(), 'covariance of the field (from %d draws)' % N, inp, want, got)
        gv = np.mean(Ys**2, axis=0)
        bad = np.abs(gv - v0) > 7 * v0 * np.sqrt(2 / N) + 1e-9
        ctx.expect(not bad.any(), 'variance of the field (from %d draws)' % N, inp, v0, gv)


PARTS = [('shapes', shapes), ('covariance', covariance)]
