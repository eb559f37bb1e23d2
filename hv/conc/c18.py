"""hydraulic parameters of every cell"""
import inspect
import math
from unittest import mock

import numpy as np

from hv.conc import gen

RULE = 'random assignments of facies/objects/AEs to small grids, all heterogeneity levels; random fields zero or replaced by a known field; non-trivial: more than one facies'


def lin(t, n):
    if t is None:
        return np.ones(n)
    return np.array([t[0] + (t[1] - t[0]) * q / (n - 1) if n > 1 else t[0] for q in range(n)])


def expected(m, h, fieldk, fieldn):
    g = m.grid
    d = m.data
    sh = (g.nx, g.ny, g.nz)
    k, n, a = np.zeros(sh), np.zeros(sh), np.zeros(sh)
    internal = m.generate_heterogeneity and m.heterogeneity_level == 'internal'
    aes = {ae.num: ae for s in m.strata for ae in s.aes}
    for i in range(g.nx):
        for j in range(g.ny):
            for q in range(g.nz):
                f = d['facies'][i, j, q]
                k[i, j, q], n[i, j, q], a[i, j, q] = h['k_h'][f], h['n'][f], h['k_ratio'][f]
                if internal:
                    k[i, j, q] *= math.exp(fieldk(f, i, j, q))
                    n[i, j, q] += fieldn(f, i, j, q)
                    tp = aes[d['ae'][i, j, q]].type_params
                    for src in (tp, h):
                        k[i, j, q] *= lin(src['k_ztrend'], g.nz)[q] * lin(src['k_xtrend'], g.nx)[i]
                        n[i, j, q] *= lin(src['n_ztrend'], g.nz)[q] * lin(src['n_xtrend'], g.nx)[i]
    return k, n, a


def compare(ctx, m, h, inp, want):
    d = m.data
    k, n, a = want
    ctx.expect(np.allclose(d['anirat'], a, rtol=1e-12), 'anisotropy ratio', inp, a, d.get('anirat'))
    ctx.expect(np.allclose(d['k_iso'], k, rtol=1e-9, atol=0), 'hydraulic conductivity', inp, k, d['k_iso'])
    ctx.expect(np.allclose(d['poros'], n, rtol=1e-9, atol=1e-14), 'porosity', inp, n, d['poros'])


def check(ctx, m, h, fk, fn):
    keep = {q: np.array(v) for q, v in m.data.items()}
    inp = dict(hydraulics=h, het=m.generate_heterogeneity, level=m.heterogeneity_level, data=keep,
               aes=[(ae.num, ae.bg_facies, ae.type_params) for s in m.strata for ae in s.aes])
    h0 = repr(h)
    res = ctx.call(m.generate_hydraulic_parameters, h)
    ctx.case((ctx.i, m.heterogeneity_level, m.generate_heterogeneity), trivial=len(np.unique(keep['facies'])) < 2,
             sample=dict(level=m.heterogeneity_level, het=m.generate_heterogeneity, shape=keep['facies'].shape))
    if res[0] == 'exc':
        ctx.must(res, 'hydraulic parameters', inp)
        return
    for q, v in keep.items():
        ctx.expect(np.array_equal(v, m.data[q]), 'the geometry (%s) stays as it is' % q, inp)
    compare(ctx, m, h, inp, expected(m, h, fk, fn))
    ctx.expect(repr(h) == h0, 'the parameters stay as they are', inp)


def zero(ctx):
    """without variance: exactly the values of the file times the trends"""
    for i in ctx.iter(250):
        m, h = gen.hydro_model(ctx, het=ctx.rng.random() < .8)
        nf = len(h['k_h'])
        h['sig_y'] = [0.] * nf
        h['sig_n'] = [0.] * nf
        check(ctx, m, h, lambda *a: 0., lambda *a: 0.)


def known_field(ctx):
    hu = ctx.load('hyvr.utils')
    if not hasattr(hu, 'specsim'):
        return
    try:
        sig = inspect.signature(hu.specsim)
    except (TypeError, ValueError):
        return
    if not {'var', 'corl', 'selection_mask'} <= set(sig.parameters):
        return

    def val(var, corl, i, j, k):
        return math.sqrt(var) * math.sin(1 + 3 * i + 5 * j + 7 * k + corl[0] + 2 * corl[1] + 3 * corl[2])

    def fake(*a, **kw):
        b = sig.bind(*a, **kw)
        b.apply_defaults()
        q = b.arguments
        g = q['grid']
        full = np.array([[[val(q['var'], q['corl'], i, j, k) for k in range(g.nz)] for j in range(g.ny)] for i in range(g.nx)]).reshape(g.nx, g.ny, g.nz)
        if q.get('covmod') != 'exp':
            full = full + 1000.                                    # methods: exponential covariance
        return full if q['selection_mask'] is None else full[np.asarray(q['selection_mask'], bool)]
    for i in ctx.iter(250):
        m, h = gen.hydro_model(ctx)
        with mock.patch.object(hu, 'specsim', fake):
            check(ctx, m, h, lambda f, i, j, k: val(h['sig_y'][f], h['ycorlengths'][f], i, j, k),
                  lambda f, i, j, k: val(h['sig_n'][f], h['ncorlengths'][f], i, j, k))


def own_field(ctx):
    """every object and facies (background: every AE) has its own random field"""
    hu = ctx.load('hyvr.utils')
    if not hasattr(hu, 'specsim'):
        return
    try:
        sig = inspect.signature(hu.specsim)
    except (TypeError, ValueError):
        return
    if not {'grid', 'selection_mask'} <= set(sig.parameters):
        return
    for i in ctx.iter(120):
        m, h = gen.hydro_model(ctx, level='internal')
        h.update(k_h=[1.] * len(h['k_h']), n=[0.] * len(h['n']), k_ztrend=None, k_xtrend=None, n_ztrend=None, n_xtrend=None)
        for s in m.strata:
            for ae in s.aes:
                ae.type_params = dict.fromkeys(ae.type_params)
        count = [0]

        def fake(*a, **kw):
            b = sig.bind(*a, **kw)
            b.apply_defaults()
            q = b.arguments
            count[0] += 1
            g = q['grid']
            full = np.full((g.nx, g.ny, g.nz), float(count[0]))
            return full if q['selection_mask'] is None else full[np.asarray(q['selection_mask'], bool)]
        with mock.patch.object(hu, 'specsim', fake):
            res = ctx.call(m.generate_hydraulic_parameters, h)
        d = m.data
        inp = dict(ha=d['ha'], facies=d['facies'], ae=d['ae'])
        ctx.case((ctx.i, 'own'), trivial=d['ha'].max() < 1)
        if res[0] == 'exc':
            ctx.must(res, 'hydraulic parameters', inp)
            continue
        for nm, v in (('conductivity', np.log(d['k_iso'])), ('porosity', d['poros'])):
            groups, fields = {}, {}
            for c in np.ndindex(*d['ha'].shape):
                key = (int(d['ha'][c]), int(d['facies'][c])) if d['ha'][c] != -1 else ('background', int(d['ae'][c]))
                f = int(round(v[c]))
                groups.setdefault(key, f)
                fields.setdefault(f, key)
                ctx.expect(groups[key] == f and fields[f] == key, 'the %s of each object has its own field' % nm, inp, None, (c, key, fields[f]))


def whole(ctx):
    """whole models: positive finite conductivities, every cell gets the values of its facies"""
    from hv.conc import inigen
    assign = ctx.get('hyvr.assign_points', 'assign_points')
    for i in ctx.iter(100):
        res = ctx.call(inigen.make_model, ctx, ctx.rng)
        if res[0] == 'exc':
            continue
        m, E, S = res[1]
        h = {k: ([list(x) if isinstance(x, list) else x for x in v] if isinstance(v, list) else v) for k, v in E['hydraulics'].items()}
        nf = len(h['k_h'])
        h['sig_y'] = [0.] * nf
        h['sig_n'] = [0.] * nf
        res = ctx.call(lambda: (m.generate_model(), assign(m)))
        if res[0] == 'exc':
            continue
        res = ctx.call(m.generate_hydraulic_parameters, h)
        ctx.case(repr(S)[:200])
        if res[0] == 'exc':
            ctx.must(res, 'hydraulic parameters', S)
            continue
        if np.any(m.data['ae'] < 0):
            continue
        compare(ctx, m, h, S, expected(m, h, lambda *a: 0., lambda *a: 0.))


PARTS = [('no variance', zero), ('known field', known_field), ('own field', own_field), ('whole models', whole)]
