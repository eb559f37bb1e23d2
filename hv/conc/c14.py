"""membership in troughs and their inner structure"""
import numpy as np

from hv.conc import gen, geom
from hv.conc.c13 import ask

RULE = ('random trough AEs (given centres, all structures, periodic or not, lag, size trend), points inside, outside and near the rim; '
        'non-trivial: at least one point inside')


def params(ctx, g, st=None):
    r = ctx.rng
    nf = r.randint(1, 4)
    fac = r.sample(range(nf + 2), nf)
    n = r.randint(1, 3)
    return dict(ae_id=r.randint(0, 5), bg_facies=-1, bg_azim=float('nan'), bg_dip=float('nan'),
                structure=st or r.choice(['massive', 'dip', 'bulb', 'bulb_sets', 'random']),
                lag_height=r.choice([0., 0., r.uniform(.05, .5)]), lag_facies=r.randint(0, 5),
                dipset_dist=r.uniform(.05, 2), bulbset_dist=r.uniform(.05, 1), azimuth=sorted([r.uniform(-90, 90), r.uniform(-90, 90)]),
                dip=r.choice([[0., 0.], [90., 90.], sorted([r.uniform(0, 90), r.uniform(0, 90)])]), paleoflow=r.choice([[0., 0.], sorted([r.uniform(-180, 180), r.uniform(-180, 180)])]),
                length=r.uniform(.3, 2) * g.lx, width=r.uniform(.3, 2) * g.ly, depth=r.uniform(.2, 1) * g.lz,
                size_ztrend=[r.uniform(.5, 2), r.uniform(.5, 2)] if r.random() < .4 else None, agg=.5, buffer=.1, trough_density=.1, migrate=None,
                te_xyz=[[g.x0 + g.lx * r.random(), g.y0 + g.ly * r.random(), g.z0 + g.lz * r.random()] for _ in range(n)],
                facies=fac, altfacies=[[r.choice(fac) for _ in range(r.randint(1, 2))] for _ in fac] if r.random() < .5 else None)


def build(ctx, g, p):
    A = ctx.get('hyvr.geo.trough_ae', 'TroughAE')
    C = ctx.get('hyvr.geo.contact_surface', 'ContactSurface')
    b, t = C(g, mode='flat', z=g.z0), C(g, mode='flat', z=g.zmax)
    return A(b, t, 'nm', p, gen.NS(bg_facies=0, bg_azim=1., bg_dip=2.), g)


def points(ctx):
    for it in ctx.iter(600):
        r = ctx.rng
        g = gen.make_grid(ctx, 6)
        p = params(ctx, g)
        res = ctx.call(build, ctx, g, p)
        if res[0] == 'exc':
            ctx.must(res, 'trough AE', p)
            continue
        ae = res[1]
        for oi in range(len(ae.object_list)):
            ae.object_list[oi].num_ha = ae.object_num_ha[oi] = 50 + oi
        inside = 0
        for _ in range(40):
            oi = r.randrange(len(ae.object_list))
            o = ae.object_list[oi]
            i, j, k = r.randrange(g.nx), r.randrange(g.ny), r.randrange(g.nz)
            x, y, z = g.x[i], g.y[j], g.z[k]
            if r.random() < .6:
                f = r.choice([.1, .5, .9, .99, 1.])
                z = o.z - o.c * f * r.random()
                x, y = o.x + f * r.uniform(-1, 1) * o.a, o.y + f * r.uniform(-1, 1) * o.b
                if g.periodic:
                    x, y = g.x0 + (x - g.x0) % g.lx, g.y0 + (y - g.y0) % g.ly
            if r.random() < .05:
                x, y = o.x, o.y
            inp = dict(params=p, trough=oi, point=(x, y, z), periodic=g.periodic, lx=g.lx, ly=g.ly,
                       attrs={a: getattr(o, a) for a in ('x', 'y', 'z', 'a', 'b', 'c', 'alpha', 'structure', 'dip', 'azim', 'shift', 'layer_dist', 'num_facies')})
            try:
                want = geom.trough_at(o, g, x, y, z)
            except IndexError as e:
                ctx.fail('there is a layer for every point of the trough', inp, None, str(e))
                continue
            res = ctx.call(ask, ae, oi, x, y, z, i, j, g)
            if res[0] == 'exc':
                ctx.must(res, 'trough membership', inp)
                continue
            ids, ang = res[1]
            if want == geom.AMBIG:
                continue
            if want is None:
                ctx.expect(ids[0] == -1, 'a point outside the trough is not assigned', inp, -1, ids)
                continue
            inside += 1
            ctx.expect(geom.same(want, (ids[0], ang[0], ang[1])) and ids[2] == 50 + oi, 'facies, azimuth, dip and number inside the trough', inp, want, (ids, ang))
            ctx.expect(int(ids[0]) in p['facies'] + [p['lag_facies']], 'facies is one of the element', inp, p['facies'], ids[0])
        ctx.case((p['structure'], it), trivial=not inside, sample=dict(structure=p['structure'], inside=inside, periodic=g.periodic))


def attributes(ctx):
    """what the constructor draws lies in the ranges of the element"""
    T = ctx.get('hyvr.geo.trough', 'Trough')
    names = ['massive', 'dip', 'bulb', 'bulb_sets']
    for it in ctx.iter(300):
        r = ctx.rng
        g = gen.make_grid(ctx, 6)
        p = params(ctx, g)
        kw = dict(x=r.uniform(-5, 5), y=r.uniform(-5, 5), z=r.uniform(-5, 5), a=r.uniform(.1, 5), b=r.uniform(.1, 5), c=r.uniform(.1, 5), alpha=r.uniform(-180, 180))
        res = ctx.call(lambda: T(p, **kw))
        inp = (p, kw)
        ctx.case(repr(inp)[:100], sample=p['structure'])
        if res[0] == 'exc':
            ctx.must(res, 'trough', inp)
            continue
        o = res[1]
        for k, v in kw.items():
            ctx.expect(getattr(o, k) == v, k, inp, v, getattr(o, k))
        ctx.expect(o.zmax == o.z and abs(o.zmin - (o.z - o.c)) < 1e-12, 'vertical extent', inp)
        ctx.expect(o.structure in range(4) and (p['structure'] == 'random' or names[o.structure] == p['structure']), 'structure', inp, p['structure'], o.structure)
        ctx.expect(p['dip'][0] <= o.dip <= p['dip'][1], 'dip', inp, p['dip'], o.dip)
        if o.structure in (0, 1):
            ctx.expect(p['azimuth'][0] - 1e-9 <= o.azim - o.alpha <= p['azimuth'][1] + 1e-9, 'azimuth relative to the trough', inp)
        if o.structure in (0, 2):
            ctx.expect(int(o.facies) in p['facies'], 'facies', inp)
        else:
            ctx.expect(o.num_facies == len(o.facies_array) >= 1 and all(int(f) in p['facies'] for f in o.facies_array), 'facies of the layers', inp)
            ctx.expect(o.layer_dist == p['dipset_dist' if o.structure == 1 else 'bulbset_dist'], 'layer distance', inp)
        ctx.expect(o.lag == p['lag_height'] and o.lag_facies == p['lag_facies'], 'lag', inp)


PARTS = [('points', points), ('attributes', attributes)]
