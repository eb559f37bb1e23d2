"""membership in sheets and their dipping layers"""
import math

import numpy as np

from hv.conc import c11, gen, geom

RULE = 'random sheet AEs, all grid points and random points on the bounding surfaces; non-trivial: a point inside a sheet with dipping layers'


def ask(ae, oi, x, y, z, i, j, g):
    ids = np.array([-1, -7, -7, -7], dtype=np.int32)
    ang = np.array([np.nan, np.nan])
    ae.maybe_assign_points_to_object(oi, ids, ang, x, y, z, i, j, g)
    return ids, ang


def sheets(ctx):
    A = ctx.get('hyvr.geo.sheet_ae', 'SheetAE')
    for it in ctx.iter(150):
        r = ctx.rng
        g = gen.make_grid(ctx, 6)
        b, t = c11.make_surfaces(ctx, g)
        p = c11.sheet_params(ctx, g)
        res = ctx.call(lambda: A(b, t, 'nm', p, gen.NS(bg_facies=0, bg_azim=1., bg_dip=2.), g))
        if res[0] == 'exc':
            ctx.must(res, 'sheet AE', p)
            continue
        ae = res[1]
        for oi, o in enumerate(ae.object_list):
            ae.object_num_ha[oi] = o.num_ha = 100 + oi
        inside = 0
        for _ in range(60):
            oi = r.randrange(len(ae.object_list))
            o = ae.object_list[oi]
            i, j = r.randrange(g.nx), r.randrange(g.ny)
            x, y = g.x[i], g.y[j]
            top, bot = float(o.top_surface.surface[i, j]), float(o.bottom_surface.surface[i, j])
            z = r.choice([top, bot, g.z[r.randrange(g.nz)], bot + (top - bot) * r.random(), top + .1, bot - .1])
            # precondition of the method: the point lies in the domain
            z = min(max(z, g.z0), g.zmax)
            inp = dict(params=p, sheet=oi, point=(x, y, z), idx=(i, j), top=top, bottom=bot, dip=o.dip, azim=o.azim, shift=o.shift)
            want = geom.sheet_at(o, g, x, y, z, i, j)
            res = ctx.call(ask, ae, oi, x, y, z, i, j, g)
            if res[0] == 'exc':
                ctx.must(res, 'sheet membership', inp)
                continue
            ids, ang = res[1]
            if want == geom.AMBIG:
                continue
            if want is None:
                ctx.expect(ids[0] == -1, 'a point outside the sheet is not assigned', inp, -1, ids)
                continue
            inside += 1
            ctx.expect(geom.same(want, (ids[0], ang[0], ang[1])) and ids[2] == 100 + oi, 'facies, azimuth, dip and number inside the sheet', inp, want, (ids, ang))
            ctx.expect(int(ids[0]) in p['facies'], 'facies is one of the element', inp, p['facies'], ids[0])
        ctx.case((p['structure'], p['dipset_dist'], it), trivial=not inside or p['structure'] != 'dip', sample=dict(structure=p['structure'], inside=inside))


def layers(ctx):
    """one layer to the next: moving by the layer distance along the normal moves by exactly one layer"""
    A = ctx.get('hyvr.geo.sheet_ae', 'SheetAE')
    for it in ctx.iter(60):
        r = ctx.rng
        g = gen.make_grid(ctx, 6)
        C = ctx.get('hyvr.geo.contact_surface', 'ContactSurface')
        t, b = C(g, mode='flat', z=g.zmax), C(g, mode='flat', z=g.z0)
        p = c11.sheet_params(ctx, g)
        p.update(structure='dip', lens_thickness=-1, dipset_dist=g.lz / r.uniform(3, 9))
        fc = p['facies']
        p['altfacies'] = [[fc[(q + 1) % len(fc)]] for q in range(len(fc))]
        res = ctx.call(lambda: A(b, t, 'nm', p, gen.NS(bg_facies=0, bg_azim=1., bg_dip=2.), g))
        if res[0] == 'exc':
            ctx.must(res, 'sheet AE', p)
            continue
        ae = res[1]
        o = ae.object_list[0]
        cd = math.cos(math.radians(o.dip))
        xs = [(r.randrange(g.nx), r.randrange(g.ny)) for _ in range(3)]
        ctx.case((it, p['dipset_dist']), sample=p['dipset_dist'])
        for i, j in xs:
            n = 400
            zs = np.linspace(g.z0, g.zmax, n)
            f = []
            for z in zs:
                res = ctx.call(ask, ae, 0, g.x[i], g.y[j], z, i, j, g)
                f.append(ctx.must(res, 'sheet membership', (p, z))[0][0])
            # number of planes crossed by the vertical line, the layers around the zero plane are merged by int()
            d = [(-math.sin(math.radians(o.dip)) * math.cos(math.radians(o.azim)) * g.x[i] + math.sin(math.radians(o.dip)) * math.sin(math.radians(o.azim)) * g.y[j] + cd * z - o.shift) / o.layer_dist for z in zs]
            for a in range(n - 1):
                if geom.near(d[a], round(d[a])) or geom.near(d[a+1], round(d[a+1])):
                    continue
                same_layer = math.trunc(d[a]) == math.trunc(d[a+1])
                ctx.expect(not same_layer or f[a] == f[a+1], 'one facies per layer', (p, i, j, zs[a], zs[a+1]), f[a], f[a+1])
                if abs(math.trunc(d[a]) - math.trunc(d[a+1])) == 1:
                    ctx.expect(f[a+1] == fc[(fc.index(f[a]) + 1) % len(fc)], 'facies alternates between neighbouring layers', (p, i, j, zs[a], zs[a+1]), None, f[a])


PARTS = [('points', sheets), ('layers', layers)]
