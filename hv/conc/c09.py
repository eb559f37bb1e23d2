"""contact surfaces"""
import numpy as np

from hv.conc import gen

RULE = 'random grids, surfaces (flat and random), chains of clipping operations; non-trivial: surfaces that cross'


def mk(ctx, g):
    C = ctx.get('hyvr.geo.contact_surface', 'ContactSurface')
    r = ctx.rng
    z = g.z0 + r.uniform(-.2, 1.2) * g.lz
    mode = r.choice(['flat', 'Flat', 'random', 'RANDOM'])
    kw = dict(z=z, mode=mode)
    if mode.lower() == 'random':
        kw.update(var=r.uniform(.01, 1), corlx=r.uniform(.5, 5), corly=r.uniform(.5, 5))
    return ctx.must(ctx.call(lambda: C(g, **kw)), 'contact surface', kw), kw


def ok(ctx, s, inp):
    a = np.asarray(s.surface)
    ctx.expect(s.zmin <= a.min() and s.zmax >= a.max(), 'zmin and zmax bound the surface', inp, (a.min(), a.max()), (s.zmin, s.zmax))


def make(ctx):
    for i in ctx.iter(300):
        g = gen.make_grid(ctx)
        s, kw = mk(ctx, g)
        if s is None:
            continue
        ctx.case((kw, g.nx, g.ny), trivial=kw['mode'].lower() == 'flat')
        inp = (kw, g.nx, g.ny)
        a = np.asarray(s.surface)
        ctx.expect(a.shape == (g.nx, g.ny), 'one value per column', inp, (g.nx, g.ny), a.shape)
        ok(ctx, s, inp)
        sc = 1e-9 * max(1, np.abs(a).max())
        ctx.expect(abs(s.zmean - a.mean()) <= sc, 'mean', inp, a.mean(), s.zmean)
        if kw['mode'].lower() == 'flat':
            ctx.expect(np.all(a == kw['z']), 'flat surface', inp, kw['z'], a)
        else:
            ctx.expect(abs(s.zmin - a.min()) <= sc and abs(s.zmax - a.max()) <= sc, 'limits', inp, (a.min(), a.max()), (s.zmin, s.zmax))


def field(ctx):
    """a random surface is the mean depth plus a random field of the requested parameters"""
    hu = ctx.load('hyvr.utils')
    if not hasattr(hu, 'specsim'):
        return
    for i in ctx.iter(100):
        g = gen.make_grid(ctx)
        r = ctx.rng
        C = ctx.get('hyvr.geo.contact_surface', 'ContactSurface')
        kw = dict(z=r.uniform(-5, 5), mode='random', var=r.uniform(.01, 1), corlx=r.uniform(.5, 5), corly=r.uniform(.5, 5))
        seed = r.randrange(2**31)
        np.random.seed(seed)
        s = ctx.must(ctx.call(lambda: C(g, **kw)), 'surface', kw)
        np.random.seed(seed)
        f = ctx.must(ctx.call(lambda: hu.specsim(g, kw['var'], [kw['corlx'], kw['corly']], two_dim=True, covmod='gaussian')), 'field', kw)
        ctx.case((kw, g.nx, g.ny))
        if s is not None and f is not None:
            ctx.expect(np.allclose(s.surface, f + kw['z']), 'random surface', kw, f + kw['z'], s.surface)


def clip(ctx):
    for i in ctx.iter(400):
        g = gen.make_grid(ctx)
        r = ctx.rng
        a, ka = mk(ctx, g)
        others = [mk(ctx, g) for _ in range(r.randint(1, 4))]
        if a is None or any(o[0] is None for o in others):
            continue
        seq = []
        for o, ko in others:
            op = r.choice(['use_lower_surface_value', 'use_higher_surface_value'])
            before, ob = np.array(a.surface), np.array(o.surface)
            oz = (o.zmin, o.zmax, o.zmean)
            seq.append((op, ko))
            res = ctx.call(getattr(a, op), o)
            inp = dict(grid=(g.nx, g.ny), surface=before, other=ob, ops=seq)
            ctx.case((ka, seq), trivial=bool(np.all(before <= ob) or np.all(before >= ob)))
            ctx.must(res, op, inp)
            want = np.minimum(before, ob) if 'lower' in op else np.maximum(before, ob)
            ctx.expect(np.array_equal(a.surface, want), op, inp, want, a.surface)
            ctx.expect(np.array_equal(o.surface, ob) and (o.zmin, o.zmax, o.zmean) == oz, 'the other surface stays as it is', inp)
            ok(ctx, a, inp)
            ok(ctx, o, inp)


PARTS = [('creation', make), ('random field', field), ('clipping', clip)]
