"""every cell belongs to the first stratum / AE / object (from the top) that contains it"""
import numpy as np

from hv.conc import geom, inigen

RULE = ('random whole models (2-3 strata, sheets, troughs, channels, flat and random contacts); each cell is compared with independent membership '
        'formulas, columns are cut at floating point ties; non-trivial: a model with objects')


def kind(ae):
    for c in type(ae).__mro__:
        if c.__name__ in ('TroughAE', 'ChannelAE', 'SheetAE'):
            return c.__name__
    return None


def in_ae(ae, g, x, y, z, i, j):
    """None | AMBIG | (facies, azim, dip, ha)"""
    k = kind(ae)
    for o in ae.object_list:
        if k == 'TroughAE':
            v = geom.trough_at(o, g, x, y, z)
        elif k == 'ChannelAE':
            v = geom.channel_at(o, g, x, y, z)
        else:
            v = geom.sheet_at(o, g, x, y, z, i, j)
        if v == geom.AMBIG:
            return v
        if v is not None:
            return v + (o.num_ha,)
    if k == 'SheetAE':
        return None
    t, b = ae.top_surface.surface[i, j], ae.bottom_surface.surface[i, j]
    if b <= z <= t:
        return int(ae.bg_facies), ae.bg_azim, ae.bg_dip, -1
    return None


def cells(ctx):
    assign = ctx.get('hyvr.assign_points', 'assign_points')
    for it in ctx.iter(500):
        res = ctx.call(inigen.make_model, ctx, ctx.rng)
        if res[0] == 'exc':
            ctx.must(res, 'model construction')
            continue
        m, E, S = res[1]
        res = ctx.call(m.generate_model)
        if res[0] == 'exc':
            ctx.must(res, 'generating the model', S)
            continue
        res = ctx.call(assign, m)
        nobj = sum(len(ae.object_list) for st in m.strata for ae in st.aes)
        ctx.case(repr(S)[:300], trivial=not nobj, sample=(nobj, [kind(ae) for st in m.strata for ae in st.aes]))
        if res[0] == 'exc':
            ctx.must(res, 'assigning the points', S)
            continue
        g, d = m.grid, m.data
        flat = [(si, ae) for si, st in enumerate(m.strata) for ae in st.aes]
        for nm in ('facies', 'azim', 'dip', 'strata', 'ae', 'ha', 'hat'):
            ctx.expect(np.shape(d[nm]) == (g.nx, g.ny, g.nz), 'shape of ' + nm, S, (g.nx, g.ny, g.nz), np.shape(d[nm]))
        for i in range(g.nx):
            for j in range(g.ny):
                cur = 0
                x, y = g.x[i], g.y[j]
                for k in range(g.nz - 1, -1, -1):
                    z = g.z[k]
                    found = None
                    for q in range(cur, len(flat)):
                        v = in_ae(flat[q][1], g, x, y, z, i, j)
                        if v is not None:
                            found = v
                            break
                    if found == geom.AMBIG:
                        break
                    got = tuple(d[n][i, j, k] for n in ('facies', 'azim', 'dip', 'ha', 'ae', 'hat', 'strata'))
                    where = dict(ini=S, cell=(i, j, k), xyz=(x, y, z))
                    if found is None:
                        ctx.expect(got[4] == -1 and got[3] == -1, 'cell outside all AEs', where, None, got)
                        break
                    cur = q
                    si, ae = flat[q]
                    want = found + (ae.num, ae.type_id, si)
                    ok = geom.same(found[:3], got[:3]) and tuple(got[3:]) == want[3:]
                    ctx.expect(ok, 'values of the cell (facies, azim, dip, ha, ae, hat, stratum)', where, want, got)


PARTS = [('cells', cells)]
