"""membership in channels; the search shortcut does not change the result"""
import math

import numpy as np

from hv.conc import gen, geom
from hv.conc.c13 import ask

RULE = ('random channels (random polylines and generated centre lines); grids of points asked top-down in random column order; non-trivial: points inside and outside')


def params(ctx, g):
    r = ctx.rng
    nf = r.randint(1, 4)
    fac = r.sample(range(nf + 2), nf)
    return dict(ae_id=1, bg_facies=-1, bg_azim=float('nan'), bg_dip=float('nan'), structure=r.choice(['massive', 'dip']),
                lag_height=r.choice([0., r.uniform(.05, .5)]), lag_facies=r.randint(0, 5), dipset_dist=r.uniform(.1, 2),
                dip=r.choice([[0., 0.], [90., 90.], sorted([r.uniform(0, 90), r.uniform(0, 90)])]), azimuth=r.choice([[0., 0.], [r.uniform(-90, 90), r.uniform(-90, 90)]]),
                channel_no=r.randint(1, 2), flow_angle=r.uniform(-180, 180), agg=g.lz * r.uniform(.3, 1.2), size_ztrend=None, depth=r.uniform(.2, 1) * g.lz, width=r.uniform(.05, 1) * g.ly,
                buffer=0., h=.4, k=.5, ds=r.uniform(.5, 1), eps_factor=r.uniform(.01, .3), mig=None,
                facies=fac, altfacies=[[r.choice(fac) for _ in range(r.randint(1, 2))] for _ in fac] if r.random() < .5 else None)


def replace_line(ctx, o, g):
    """another centre line: a random polyline"""
    r = ctx.rng
    n = r.randint(1, 12)
    q = lambda l0, l: np.array([l0 + l * r.uniform(-.5, 1.5) for _ in range(n)])
    return q(g.x0, g.lx), q(g.y0, g.ly), q(0, 1), q(0, 1)


def points(ctx):
    A = ctx.get('hyvr.geo.channel_ae', 'ChannelAE')
    C = ctx.get('hyvr.geo.contact_surface', 'ContactSurface')
    Ch = ctx.get('hyvr.geo.channel', 'Channel')
    for it in ctx.iter(300):
        r = ctx.rng
        g = gen.make_grid(ctx, 9)
        p = params(ctx, g)
        b, t = C(g, mode='flat', z=g.z0), C(g, mode='flat', z=g.zmax)

        class Drawn(A):
            def generate_objects(self, grid):
                z = grid.zmax
                for q in range(r.randint(1, 3)):
                    z -= grid.lz * r.uniform(0, .3)
                    xc, yc, vx, vy = replace_line(ctx, None, grid)
                    self._add_object(Ch(self.type_params, xc, yc, vx, vy, z, self.type_params['width'], self.type_params['depth'], grid))
        cls = r.choice([A, Drawn, Drawn])
        res = ctx.call(lambda: cls(b, t, 'nm', p, gen.NS(bg_facies=0, bg_azim=1., bg_dip=2.), g))
        if res[0] == 'exc':
            ctx.must(res, 'channel AE', p)
            continue
        ae = res[1]
        for o in ae.object_list:
            if p['structure'] == 'massive':
                ctx.expect(min(p['azimuth']) <= o.azim <= max(p['azimuth']) and min(p['dip']) <= o.dip <= max(p['dip']),
                           'orientation of a massive channel', p, (p['azimuth'], p['dip']), (o.azim, o.dip))
        for oi in range(len(ae.object_list)):
            ae.object_list[oi].num_ha = ae.object_num_ha[oi] = 50 + oi
        inside = outside = 0
        cols = [(i, j) for i in range(g.nx) for j in range(g.ny)]
        r.shuffle(cols)
        for oi, o in enumerate(ae.object_list):
            asked = []
            dead = set()
            for i, j in cols:
                for k in range(g.nz - 1, -1, -1):
                    x, y, z = g.x[i], g.y[j], g.z[k]
                    inp = dict(params=p, point=(x, y, z), idx=(i, j, k), grid=(g.x0, g.y0, g.z0, g.dx, g.dy, g.dz, g.nx, g.ny, g.nz), x_center=list(o.x_center), y_center=list(o.y_center), ztop=o.ztop,
                               width=o.width, depth=o.depth, shift=getattr(o, 'shift', None), order=asked[-8:])
                    if not len(o.x_center):
                        want = None
                    else:
                        try:
                            want = geom.channel_at(o, g, x, y, z)
                        except IndexError as e:
                            ctx.fail('there is a layer for every point of the channel', inp, None, str(e))
                            continue
                    asked.append((i, j, k))
                    res = ctx.call(ask, ae, oi, x, y, z, i, j, g)
                    if res[0] == 'exc':
                        ctx.must(res, 'channel membership', inp)
                        continue
                    ids, ang = res[1]
                    if want == geom.AMBIG:
                        break
                    if want is None:
                        outside += 1
                        ctx.expect(ids[0] == -1, 'a point outside the channel is not assigned', inp, -1, ids)
                        continue
                    inside += 1
                    if p['structure'] == 'massive':
                        ok = ids[0] == want[0] and (geom.same((0, ang[0], ang[1]), (0,) + want[1:]))
                    else:
                        ok = ids[0] == want[0] and abs(ang[1] - want[2]) < 1e-7 and abs((ang[0] - want[1] + 180) % 360 - 180) < 1e-6
                    ctx.expect(ok and ids[2] == 50 + oi, 'facies, azimuth, dip and number inside the channel', inp, want, (ids, ang))
        ctx.case((p['structure'], it, cls.__name__), trivial=not (inside and outside), sample=dict(structure=p['structure'], inside=inside, outside=outside))


PARTS = [('points', points)]
