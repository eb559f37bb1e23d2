"""grid geometry"""
import numpy as np

from hv.conc import gen

RULE = 'random origins, spacings and cell numbers (1-40 per direction); non-trivial: more than one cell'


def grid(ctx):
    G = ctx.get('hyvr.geo.grid', 'Grid')
    for i in ctx.iter(800):
        a, n = gen.grid_args(ctx, 40 if i % 10 == 0 else 9)
        g = ctx.must(ctx.call(G, *a), 'grid', a)
        ctx.case(a, trivial=n == [1, 1, 1])
        if g is None:
            continue
        x0, y0, z0, dx, dy, dz, lx, ly, lz, per = a
        ctx.expect([g.nx, g.ny, g.nz] == n, 'number of cells', a, n, (g.nx, g.ny, g.nz))
        ctx.expect((g.xmax, g.ymax, g.zmax) == (x0 + lx, y0 + ly, z0 + lz), 'upper limits', a, None, (g.xmax, g.ymax, g.zmax))
        ctx.expect((g.x0, g.y0, g.z0, g.dx, g.dy, g.dz, g.lx, g.ly, g.lz, g.periodic) == a, 'stored parameters', a)
        if [g.nx, g.ny, g.nz] != n:
            continue
        for v, o, d, k, nm in ((g.x, x0, dx, n[0], 'x'), (g.y, y0, dy, n[1], 'y'), (g.z, z0, dz, n[2], 'z')):
            want = o + (np.arange(k) + .5) * d
            ctx.expect(np.allclose(v, want, rtol=1e-9, atol=1e-9), nm + ' of the cell centres', a, want, v)
        for M, v, ax, nm in ((g.X, g.x, 0, 'X'), (g.Y, g.y, 1, 'Y'), (g.Z, g.z, 2, 'Z')):
            ctx.expect(M.shape == tuple(n), nm + ' shape', a, n, M.shape)
            if M.shape == tuple(n):
                sh = [1, 1, 1]
                sh[ax] = n[ax]
                want = np.broadcast_to(np.asarray(v).reshape(sh), n)
                ctx.expect(np.array_equal(M, want), nm + ' holds the coordinate of every cell', a, want, M)
        for M, C, nm in ((g.X, g.X_centered, 'X'), (g.Y, g.Y_centered, 'Y'), (g.Z, g.Z_centered, 'Z')):
            s = max(1., np.abs(M).max())
            ctx.expect(C.shape == M.shape and np.allclose(np.diff(C.ravel()), np.diff(M.ravel()), atol=1e-9 * s), nm + '_centered is a shift', a)
            ctx.expect(abs(C.max() + C.min()) < 1e-8 * s, nm + '_centered is symmetric', a, 0, C.max() + C.min())


PARTS = [('grid', grid)]
