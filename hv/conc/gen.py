"""Generators shared by the concrete oracles (no check logic in here)."""
import types

import numpy as np


class NS(types.SimpleNamespace):
    pass


def grid_args(ctx, maxn=9, periodic=None):
    r = ctx.rng
    n = [r.randint(1, maxn) for _ in range(3)]
    d = [r.choice([0.1, 0.25, 0.5, 1.0, 1.5, 2.0, r.uniform(0.05, 3)]) for _ in range(3)]
    o = [r.choice([0.0, 0.0, r.uniform(-20, 20), r.randint(-5, 5)]) for _ in range(3)]
    l = [a * b for a, b in zip(n, d)]
    p = r.random() < .3 if periodic is None else periodic
    return (*o, *d, *l, p), n


def make_grid(ctx, maxn=9, periodic=None):
    G = ctx.get('hyvr.geo.grid', 'Grid')
    a, n = grid_args(ctx, maxn, periodic)
    return G(*a)


def hydro_dict(ctx, nf, internal=True):
    r = ctx.rng
    tr = lambda: [r.uniform(.2, 2), r.uniform(.2, 2)] if r.random() < .5 else None
    return dict(hydrofacies=['f%d' % i for i in range(nf)],
                k_h=[10**r.uniform(-6, 0) for _ in range(nf)],
                sig_y=[r.choice([0.0, r.uniform(.01, 1)]) for _ in range(nf)],
                k_ratio=[r.choice([1.0, r.uniform(1, 10)]) for _ in range(nf)],
                n=[r.uniform(.1, .5) for _ in range(nf)],
                sig_n=[r.choice([0.0, r.uniform(.001, .01)]) for _ in range(nf)],
                ycorlengths=[[r.uniform(.5, 20) for _ in range(3)] for _ in range(nf)],
                ncorlengths=[[r.uniform(.5, 20) for _ in range(3)] for _ in range(nf)],
                k_ztrend=tr(), k_xtrend=tr(), n_ztrend=tr(), n_xtrend=tr())


def hydro_model(ctx, het=True, level=None):
    """a Model whose data arrays are filled with consistent random assignments"""
    M = ctx.get('hyvr.geo.model', 'Model')
    r = ctx.rng
    m = M.__new__(M)
    g = make_grid(ctx, 6)
    m.grid = g
    nf = r.randint(1, 5)
    sh = (g.nx, g.ny, g.nz)
    rs = np.random.RandomState(r.randrange(2**31))
    tr = lambda: [r.uniform(.2, 2), r.uniform(.2, 2)] if r.random() < .4 else None
    aes = []
    strata = []
    num = 0
    for si in range(r.randint(1, 3)):
        l = []
        for j in range(r.randint(1, 3)):
            bg = r.randrange(nf)
            ae = NS(num=num, bg_facies=bg, type_params=dict(k_ztrend=tr(), k_xtrend=tr(), n_ztrend=tr(), n_xtrend=tr()))
            l.append(ae)
            aes.append(ae)
            num += 1
        strata.append(NS(aes=l))
    m.strata = strata
    m.n_strata = len(strata)
    # objects: each belongs to one AE
    objs = [[num_] for num_ in range(0)]
    ae_arr = rs.randint(0, num, sh).astype(np.int32)
    nobj = r.randint(1, 4)
    ha = np.full(sh, -1, dtype=np.int32)
    fac = np.zeros(sh, dtype=np.int32)
    inobj = rs.rand(*sh) < r.choice([0., .5, .8, 1.])
    sub = rs.randint(0, nobj, sh)
    ha[inobj] = (ae_arr * nobj + sub)[inobj]
    fac[inobj] = rs.randint(0, nf, sh)[inobj]
    for ae in aes:
        fac[(ae_arr == ae.num) & ~inobj] = ae.bg_facies
    m.data = dict(facies=fac, ae=ae_arr, ha=ha, hat=np.zeros(sh, dtype=np.int32), strata=np.zeros(sh, dtype=np.int32),
                  azim=rs.uniform(-180, 180, sh), dip=rs.uniform(-90, 90, sh))
    m.generate_heterogeneity = het
    m.generate_anisotropy = True
    m.generate_hydraulics = True
    m.heterogeneity_level = level or r.choice(['facies', 'internal'])
    m.flowtrans = {}
    return m, hydro_dict(ctx, nf)
