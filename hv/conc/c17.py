"""placement and size of troughs and channels"""
import math
from unittest import mock

import numpy as np

from hv.conc import c11, c14, c15, gen

RULE = 'random AEs with flat/random bounding surfaces, with and without migration / size trend / buffer; non-trivial: at least one object'


def trend(p, g, z, clip):
    if p['size_ztrend'] is None:
        return 1.
    q = (z - g.z0) / g.lz
    if clip:
        q = min(max(q, 0.), 1.)
    return p['size_ztrend'][0] * (1 - q) + p['size_ztrend'][1] * q


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1., abs(a), abs(b))


def trough_ae(ctx):
    A = ctx.get('hyvr.geo.trough_ae', 'TroughAE')
    for it in ctx.iter(300):
        r = ctx.rng
        g = gen.make_grid(ctx, 6)
        b, t = c11.make_surfaces(ctx, g)
        p = c14.params(ctx, g)
        mig = None
        if r.random() < .5:
            mig = [r.uniform(0, 2), r.choice([0., .3]), r.uniform(0, 2), r.choice([0., .3])]
        given = r.random() < .25
        p.update(agg=g.lz / r.uniform(1.5, 6), buffer=r.choice([0., r.uniform(0, 1)]), migrate=mig,
                 trough_density=r.uniform(0, 6) / (g.lx * g.ly))
        xyz0 = [list(q) for q in p['te_xyz']]
        if not given:
            p['te_xyz'] = None
        inp = dict(params=p, top=np.array(t.surface), bottom=np.array(b.surface), grid=(g.x0, g.y0, g.z0, g.lx, g.ly, g.lz))
        res = ctx.call(lambda: A(b, t, 'nm', p, gen.NS(bg_facies=0, bg_azim=1., bg_dip=2.), g))
        if res[0] == 'exc':
            ctx.case(it)
            ctx.must(res, 'trough AE', inp)
            continue
        ol = res[1].object_list
        ctx.case((it, len(ol)), trivial=not ol, sample=dict(n=len(ol), given=given, migrate=bool(mig)))
        zs = [o.z for o in ol]
        ctx.expect(all(a >= b_ for a, b_ in zip(zs, zs[1:])), 'troughs are ordered from top to bottom', inp, None, zs)
        for o in ol:
            f = trend(p, g, o.z, False)
            ctx.expect(close(o.a, p['length'] / 2 * f) and close(o.b, p['width'] / 2 * f) and close(o.c, p['depth'] * f), 'size of the trough', inp,
                       (p['length'] / 2 * f, p['width'] / 2 * f, p['depth'] * f), (o.a, o.b, o.c))
            ctx.expect(p['paleoflow'][0] <= o.alpha <= p['paleoflow'][1], 'orientation of the trough', inp, p['paleoflow'], o.alpha)
        if given:
            want = sorted(xyz0)
            got = sorted([o.x, o.y, o.z] for o in ol)
            ctx.expect(len(want) == len(got) and all(all(close(u, v) for u, v in zip(a, c)) for a, c in zip(want, got)), 'troughs are where the file puts them', inp, want, got)
            continue
        # planes from the mean of the top surface down to (excluding) the highest point of the bottom plus the buffer
        zt, zb = float(t.zmean), float(b.zmax) + p['depth'] * p['buffer']
        levels = sorted(set(zs), reverse=True)
        for z in levels:
            q = (zt - z) / p['agg']
            ctx.expect(abs(q - round(q)) < 1e-6 and q > -1e-6, 'troughs lie on planes of distance agg', inp, None, (zt, z))
            ctx.expect(z > zb - 1e-6 * p['agg'], 'troughs lie above the bottom and the buffer', inp, zb, z)
        nplanes = 0
        while zt - nplanes * p['agg'] > zb + 1e-9:
            nplanes += 1
        rows = {}
        for o in ol:
            rows.setdefault(round((zt - o.z) / p['agg']), []).append(o)
        if mig is None:
            for o in ol:
                ctx.expect(g.x0 <= o.x <= g.xmax and g.y0 <= o.y <= g.ymax, 'centres of troughs lie in the domain', inp, None, (o.x, o.y))
        elif ol:
            if 0 not in rows:
                ctx.fail('troughs in the top plane', inp, None, sorted(rows))
                continue
            n0 = len(rows[0])
            for q in range(nplanes):
                if abs(zt - q * p['agg'] - zb) > 1e-6:
                    ctx.expect(len(rows.get(q, [])) == n0, 'number of migrating troughs stays the same', inp, n0, len(rows.get(q, [])))
            for q in range(1, nplanes):
                if len(rows.get(q, [])) != n0:
                    continue
                for u, v in zip(rows[q-1], rows[q]):
                    if mig[1] == 0:
                        ctx.expect(close(v.x - u.x, mig[0]), 'migration in x', inp, mig[0], v.x - u.x)
                    if mig[3] == 0:
                        ctx.expect(close(v.y - u.y, mig[2]), 'migration in y', inp, mig[2], v.y - u.y)


def poisson(ctx):
    """number of troughs per plane: density times area (the draw itself is replaced by its mean)"""
    f = ctx.get('hyvr.geo.trough_utils', 'generate_trough_positions')
    for it in ctx.iter(150):
        r = ctx.rng
        g = gen.make_grid(ctx, 6)
        b, t = c11.make_surfaces(ctx, g)
        p = c14.params(ctx, g)
        p.update(agg=g.lz / r.uniform(1.5, 6), buffer=r.choice([0., .5]), te_xyz=None, trough_density=r.uniform(0, 3) / (g.lx * g.ly),
                 migrate=r.choice([None, [1., .1, 1., .1]]))
        asked = []

        def fake(lam=1.0, size=None):
            asked.append(float(lam))
            return 3
        with mock.patch('numpy.random.poisson', fake):
            res = ctx.call(f, b, t, p, g)
        ctx.case((it,), trivial=not asked, sample=asked[:3])
        if res[0] == 'exc':
            ctx.must(res, 'trough positions', p)
            continue
        want = p['trough_density'] * g.lx * g.ly
        if asked:
            ctx.expect(all(close(a, want) for a in asked), 'expected number of troughs in a plane', p, want, asked)
            ctx.expect(len(res[1]) % 3 == 0, 'three troughs per plane', p, None, len(res[1]))


def channel_ae(ctx):
    A = ctx.get('hyvr.geo.channel_ae', 'ChannelAE')
    for it in ctx.iter(250):
        r = ctx.rng
        g = gen.make_grid(ctx, 6)
        b, t = c11.make_surfaces(ctx, g)
        p = c15.params(ctx, g)
        p.update(agg=g.lz / r.uniform(1.5, 6), buffer=r.choice([0., r.uniform(0, 1)]), mig=r.choice([None, 0., r.uniform(0, 2)]),
                 size_ztrend=[r.uniform(.5, 2), r.uniform(.5, 2)] if r.random() < .5 else None, channel_no=r.randint(1, 3))
        inp = dict(params=p, top=np.array(t.surface), bottom=np.array(b.surface), grid=(g.x0, g.y0, g.z0, g.lx, g.ly, g.lz))
        res = ctx.call(lambda: A(b, t, 'nm', p, gen.NS(bg_facies=0, bg_azim=1., bg_dip=2.), g))
        if res[0] == 'exc':
            ctx.case(it)
            ctx.must(res, 'channel AE', inp)
            continue
        ol = res[1].object_list
        ctx.case((it, len(ol)), trivial=not ol, sample=dict(n=len(ol)))
        zt, zb0 = float(t.zmean), float(b.zmean)
        zb = zb0 + p['depth'] * trend(p, g, (zt + zb0) / 2, True) * p['buffer']
        n = 0
        tie = False
        while True:
            z = zt - (n + 1) * p['agg']
            if abs(z - zb) < 1e-9:
                tie = True
            if z <= zb:
                break
            n += 1
        if not tie:
            ctx.expect(len(ol) == n * p['channel_no'], 'number of channels', inp, n * p['channel_no'], len(ol))
        for q, o in enumerate(ol):
            z = zt - (q // p['channel_no'] + 1) * p['agg']
            f = trend(p, g, z, True)
            ctx.expect(close(o.ztop, z), 'channels lie on levels of distance agg, from top to bottom', inp, z, o.ztop)
            ctx.expect(close(o.width, p['width'] * f) and close(o.depth, p['depth'] * f), 'size of the channel', inp, (p['width'] * f, p['depth'] * f), (o.width, o.depth))
            ctx.expect(close(o.zmax, z) and close(o.zmin, z - p['depth'] * f), 'vertical extent of the channel', inp)
            w = o.width
            ctx.expect(all(g.x0 - w - 1e-9 <= x <= g.xmax + w + 1e-9 for x in o.x_center), 'centre line near the domain', inp)
            ctx.expect(len(o.x_center) == len(o.y_center) == len(o.vx) == len(o.vy) == o.len_centerline, 'lengths of the centre line arrays', inp)
            if p['structure'] == 'dip':
                ctx.expect(o.num_facies == len(o.facies_array) and all(int(v) in p['facies'] for v in o.facies_array), 'facies of the layers', inp)
            else:
                ctx.expect(int(o.facies) in p['facies'], 'facies', inp)
            ctx.expect(p['dip'][0] <= o.dip <= p['dip'][1], 'dip', inp)


def straight(ctx):
    """without noise the channel is a straight line along the flow angle, through the domain"""
    f = ctx.get('hyvr.geo.channel_utils', 'ferguson_curve')
    for it in ctx.iter(150):
        r = ctx.rng
        g = gen.make_grid(ctx, 6)
        ang = math.radians(r.uniform(-180, 180))
        dl = abs(g.lx * math.cos(ang)) + abs(g.ly * math.sin(ang))
        w = r.uniform(.1, 3)
        xs, ys = g.x0 + g.lx * r.uniform(-1, 1), g.y0 + g.ly * r.uniform(-1, 1)
        ds = dl / r.uniform(3, 20)
        a = (.4, .5, ds, 0., ang, dl, xs, ys, w)
        res = ctx.call(f, g, *a)
        if res[0] == 'exc':
            ctx.case(it)
            ctx.must(res, 'centre line', a)
            continue
        o = np.asarray(res[1])
        ctx.case((it,), trivial=not len(o), sample=(math.degrees(ang), len(o)))
        d = math.hypot(0, 0)
        for q in range(len(o)):
            x, y, vx, vy = o[q]
            off = -(x - xs) * math.sin(ang) + (y - ys) * math.cos(ang)
            ctx.expect(abs(off) < 1e-6 * (1 + dl), 'centre line runs along the flow angle from the starting point', a, 0, off)
            ctx.expect((x - xs) * math.cos(ang) + (y - ys) * math.sin(ang) > -1e-9, 'centre line runs downstream', a)
            ctx.expect(abs(vx * math.sin(ang) - vy * math.cos(ang)) < 1e-9 and vx * math.cos(ang) + vy * math.sin(ang) > 0, 'flow direction', a, ang, (vx, vy))
            ctx.expect(g.x0 - w <= x <= g.xmax + w, 'only points near the domain', a)


PARTS = [('troughs', trough_ae), ('density', poisson), ('channels', channel_ae), ('straight', straight)]
