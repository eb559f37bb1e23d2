"""sheets tile their AE"""
import numpy as np

from hv.conc import gen

RULE = 'random sheet AEs (flat/random bounding surfaces, lens thickness -1 or random, with/without size trend); non-trivial: more than one sheet'


def make_surfaces(ctx, g):
    C = ctx.get('hyvr.geo.contact_surface', 'ContactSurface')
    r = ctx.rng

    def mk(z):
        if r.random() < .5:
            return C(g, mode='flat', z=z)
        return C(g, mode='random', z=z, var=r.uniform(.001, .3), corlx=r.uniform(.5, 5), corly=r.uniform(.5, 5))
    zt = g.z0 + g.lz * r.uniform(.4, 1)
    zb = g.z0 + g.lz * r.uniform(0, .6)
    t, b = mk(zt), mk(zb)
    b.use_lower_surface_value(t)
    return b, t


def sheet_params(ctx, g, nf=3):
    r = ctx.rng
    fac = r.sample(range(nf + 2), nf)
    st = r.choice(['massive', 'dip'])
    return dict(ae_id=r.randint(0, 5), bg_facies=-1, bg_azim=float('nan'), bg_dip=float('nan'), structure=st,
                lens_thickness=r.choice([-1, -1.0, r.uniform(.15, 1) * g.lz]), size_ztrend=[r.uniform(.5, 2), r.uniform(.5, 2)] if r.random() < .5 else None,
                dipset_dist=r.uniform(.1, 2), azimuth=sorted([r.uniform(-90, 90), r.uniform(-90, 90)]), dip=sorted([r.uniform(0, 60), r.uniform(0, 60)]),
                facies=fac, altfacies=[[r.choice(fac) for _ in range(r.randint(1, 2))] for _ in fac] if r.random() < .5 else None)


def sheets(ctx):
    A = ctx.get('hyvr.geo.sheet_ae', 'SheetAE')
    for i in ctx.iter(300):
        g = gen.make_grid(ctx, 6)
        b, t = make_surfaces(ctx, g)
        p = sheet_params(ctx, g)
        bs, ts = np.array(b.surface), np.array(t.surface)
        zmin, zmax = b.zmin, t.zmax
        stratum = gen.NS(bg_facies=0, bg_azim=1., bg_dip=2.)
        inp = dict(params=p, bottom=bs, top=ts)
        res = ctx.call(lambda: A(b, t, 'nm', p, stratum, g))
        if res[0] == 'exc':
            ctx.case(i)
            ctx.must(res, 'sheet AE', inp)
            continue
        ae = res[1]
        ol = ae.object_list
        ctx.case((p['lens_thickness'], p['size_ztrend'], len(ol), i), trivial=len(ol) < 2, sample=dict(sheets=len(ol), thickness=p['lens_thickness']))
        ctx.expect(len(ol) >= 1, 'at least one sheet', inp)
        ctx.expect(np.array_equal(ol[0].top_surface.surface, ts) and np.array_equal(ol[-1].bottom_surface.surface, bs),
                   'the sheets reach from the top to the bottom of the AE', inp)
        for a, o in enumerate(ol):
            ot, ob = np.asarray(o.top_surface.surface), np.asarray(o.bottom_surface.surface)
            ctx.expect(np.all(ob <= ot), 'bottom of a sheet is not above its top', inp)
            ctx.expect(np.all(ob >= bs) and np.all(ot <= ts), 'sheets lie inside the AE', inp)
            if a + 1 < len(ol):
                ctx.expect(np.array_equal(ob, ol[a+1].top_surface.surface), 'bottom of a sheet is the top of the next', inp)
            ctx.expect(o.zmin <= ob.min() and o.zmax >= ot.max(), 'extent of a sheet', inp, (ob.min(), ot.max()), (o.zmin, o.zmax))
            if p['structure'] == 'massive':
                ctx.expect(o.facies in p['facies'], 'facies of a massive sheet', inp, p['facies'], o.facies)
            ctx.expect(p['azimuth'][0] <= o.azim <= p['azimuth'][1] and p['dip'][0] <= o.dip <= p['dip'][1], 'orientation of a sheet', inp)
        # thickness
        th = p['lens_thickness']
        if th == -1:
            ctx.expect(len(ol) == 1, 'one massive sheet', inp, 1, len(ol))
        else:
            if p['size_ztrend'] is not None:
                q = ((zmin + zmax) / 2 - g.z0) / g.lz
                q = min(max(q, 0), 1)
                th = th * (p['size_ztrend'][0] * (1 - q) + p['size_ztrend'][1] * q)
            for a, o in enumerate(ol[:-1]):
                want = np.maximum(np.minimum(zmax - (a + 1) * th, ts), bs)
                ctx.expect(np.allclose(o.bottom_surface.surface, want, atol=1e-8), 'the sheets have the requested thickness', inp, want, o.bottom_surface.surface)
            left = zmax - len(ol) * th
            ctx.expect(left <= zmin + 1e-8, 'lowest sheet is not thicker than requested', inp, zmin, left)
            ctx.expect(zmax - (len(ol) - 1) * th > zmin - 1e-8, 'no more sheets than needed', inp)
        ctx.expect(np.array_equal(b.surface, bs) and np.array_equal(t.surface, ts), 'the surfaces of the AE stay as they are', inp)


PARTS = [('sheets', sheets)]
