"""Random new-format parameter files together with the values they mean (independent of the parser)."""
import configparser

TROUGH_STRUCT = ['massive', 'dip', 'bulb', 'bulb_sets', 'random', 'flat']


def txt(r, v):
    """a value as ini text; nested lists in brackets with random white space"""
    if isinstance(v, (list, tuple)):
        sp = lambda: ' ' * r.choice([0, 0, 1, 2])
        return '[' + sp() + (sp() + ',' + sp()).join(txt(r, x) for x in v) + sp() + ']'
    if isinstance(v, bool):
        return r.choice(['True', 'yes', '1', 'true'] if v else ['False', 'no', '0', 'false'])
    if isinstance(v, float):
        return repr(v)
    return str(v)


def fl(r, lo=-5., hi=5.):
    return r.choice([round(r.uniform(lo, hi), 3), float(r.randint(int(lo), int(hi)))])


def pos(r, lo=.1, hi=5.):
    return round(r.uniform(lo, hi), 3)


def contact(r, depth, z=0.):
    mode = r.choice(['flat', 'Flat', 'random', 'RANDOM', 'random'])
    toks = [mode]
    cm = dict(mode=mode)
    if depth:
        toks.append(z)
        cm['z'] = z
    if mode.lower() == 'random':
        v, a, b = pos(r, .01, .3), pos(r, 1, 9), pos(r, 1, 9)
        toks += [v, a, b]
        cm.update(var=v, corlx=a, corly=b)
    return toks, cm


def maybe(r, d, e, key, val, p=.5):
    if r.random() < p:
        d[key] = val
        e[key] = val
        return True
    return False


def new_ini(r, runnable=False, outputs=None, small=True):
    """-> (sections: {name: {option: text}}, expected: {'run':..,'model':..,...}, info)

    runnable: values for which a whole simulation makes sense and is quick"""
    S, E = {}, {}
    nf = r.randint(1, 5)
    names = ['f%s%d' % (r.choice('aBc'), i) for i in range(nf)]
    # ---- hydraulics
    h = dict(hydrofacies=names, k_h=[10**r.uniform(-6, -1) for _ in names], sig_y=[pos(r, 0, 1) for _ in names],
             k_ratio=[pos(r, .2, 5) for _ in names], n=[pos(r, .1, .5) for _ in names], sig_n=[pos(r, 0, .01) for _ in names],
             ycorlengths=[[pos(r, .5, 9) for _ in range(3)] for _ in names],
             ncorlengths=[[pos(r, .5, 9) for _ in range(3)] for _ in names])
    t = {}
    for k, v in h.items():
        if k != 'hydrofacies' and r.random() < .3:
            v = h[k] = [v[0]] * nf
            t[k] = v[0]
        else:
            t[k] = v
    e = dict(h)
    for k in ('k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend'):
        if not maybe(r, t, e, k, [pos(r), pos(r)], .3):
            e[k] = None
    S['hydraulics'], E['hydraulics'] = {k: txt(r, v) for k, v in t.items()}, e
    # ---- run
    t, e = {}, dict(runname=None, modeldir=None, numsim=1, outputs=[], overwrite_old_output=False)
    maybe(r, t, e, 'runname', 'run%d' % r.randint(0, 99))
    maybe(r, t, e, 'numsim', r.randint(1, 3) if runnable else r.randint(0, 200))
    pool = ['vtr', 'py', 'mat', 'npz', 'h5', 'mf', 'mf6', 'hgs']
    outs = outputs if outputs is not None else r.sample(pool, r.randint(1, 5))
    if outs and (r.random() < .8 or outputs is not None):
        t['outputs'] = outs
        e['outputs'] = list(outs)
    maybe(r, t, e, 'overwrite_old_output', r.random() < .5)
    S['run'], E['run'] = {k: txt(r, v) for k, v in t.items()}, e
    # ---- model
    nx, ny, nz = [r.randint(2, 7) for _ in range(3)]
    dx = r.choice([.5, 1., 2.])
    t, e = {'dx': dx}, dict(x0=0., y0=0., z0=0., dx=dx, periodic=False, hydraulics=True, anisotropy=True,
                            heterogeneity=True, heterogeneity_level='internal')
    for k in ('dy', 'dz'):
        if not maybe(r, t, e, k, r.choice([.25, .5, 1.])):
            e[k] = dx
    for k in ('x0', 'y0', 'z0'):
        maybe(r, t, e, k, fl(r))
    for k, n_, d in (('lx', nx, 'dx'), ('ly', ny, 'dy'), ('lz', nz, 'dz')):
        t[k] = e[k] = n_ * e[d]
    for k in ('periodic', 'hydraulics', 'anisotropy', 'heterogeneity'):
        maybe(r, t, e, k, r.random() < .6, .4)
    maybe(r, t, e, 'heterogeneity_level', r.choice(['facies', 'internal']), .5)
    S['model'], E['model'] = {k: txt(r, v) for k, v in t.items()}, e
    z0, zm = e['z0'], e['z0'] + e['lz']
    dz = e['dz']
    # ---- elements
    na = r.randint(1, 4)
    aes = ['ae%s%d' % (r.choice('xY'), i) for i in range(na)]
    geos = [r.choice(['trough', 'channel', 'sheet']) for _ in aes]
    # ---- strata
    ns = r.randint(1, 3)
    st = ['s%d' % i for i in range(ns)]
    tops = sorted([z0 + (zm - z0) * r.uniform(.1, .95) for _ in range(ns - 1)], reverse=True)
    if runnable and r.random() < .25:
        r.shuffle(tops)        # contacts may cross
    pairs = [contact(r, True, round(z, 4)) for z in reversed(tops)]
    in_st = [r.sample(aes, r.randint(1, na)) for _ in st]
    probs = [[1. / len(l)] * len(l) for l in in_st]
    zmean = [[pos(r, .3, 2) for _ in l] for l in in_st]
    # when all rows have the same length a flat value would be ambiguous with expansion: always give them in full
    d = dict(strata=st, strata_contact_models=[p[0] for p in pairs], ae=aes, ae_in_strata=in_st, ae_prob=probs, ae_z_mean=zmean,
             avul_prob=[[pos(r, 0, 1)] for _ in st], avul=[sorted([pos(r, 0, .1), pos(r, .1, .15)]) for _ in st],
             bg_facies=[r.choice(names) for _ in st], bg_azim=[fl(r, -90, 90) for _ in st], bg_dip=[fl(r, 0, 40) for _ in st])
    t = dict(d)
    for k in ('bg_facies', 'bg_azim', 'bg_dip'):
        if r.random() < .3:
            d[k] = [d[k][0]] * ns
            t[k] = d[k][0]
    if ns == 1:
        # empty list of contact models is not expressible; use two strata instead
        return new_ini(r, runnable, outputs, small)
    e = dict(d)
    e['bg_facies'] = [names.index(x) for x in d['bg_facies']]
    e.pop('strata_contact_models')
    e['contact_models'] = [p[1] for p in pairs]
    S['strata'], E['strata'] = {k: txt(r, v) for k, v in t.items()}, e
    # ---- flowtrans
    e = {}
    need = [o for o in E['run']['outputs'] if o in ('mf', 'mf6', 'hgs')]
    if need or r.random() < .5:
        t = dict(hin=[fl(r), 0., 0.], hout=[fl(r), 0., 0.])
        if r.random() < .3:
            t = dict(gradh=pos(r, .01, .1)) if not runnable else t
        S['flowtrans'] = {k: txt(r, v) for k, v in t.items()}
        e = dict(hin=None, hout=None, gradh=None, q_in=None, kw_gradh=None, kw_q_in=None)
        e.update(t)
    E['flowtrans'] = e
    E['elements'] = {}
    for name, geo in zip(aes, geos):
        S[name], E['elements'][name] = element(r, geo, names, E['model'], runnable)
    order = list(S)
    r.shuffle(order)
    return {k: S[k] for k in order}, E, dict(names=names, aes=aes, geos=dict(zip(aes, geos)))


def element(r, geo, names, model, runnable):
    t, e = dict(geometry=geo), dict(geometry=geo)
    nf = len(names)
    fac = r.sample(names, r.randint(1, nf))
    toks, cm = contact(r, False)
    t['contact_model'], e['contact_model'] = toks, cm
    t['facies'] = fac
    e['facies'] = [names.index(f) for f in fac]
    e['altfacies'] = None
    if r.random() < .4:
        alt = [[r.choice(fac) for _ in range(r.randint(1, 3))] for _ in fac]
        t['altfacies'], e['altfacies'] = alt, [[names.index(f) for f in l] for l in alt]
    for k in ('size_ztrend', 'k_ztrend', 'k_xtrend', 'n_xtrend', 'n_ztrend'):
        if not maybe(r, t, e, k, [pos(r, .5, 1.5), pos(r, .5, 1.5)], .3):
            e[k] = None
    for k, lo, hi in (('dip', 0, 40), ('azimuth', -90, 90)):
        if not maybe(r, t, e, k, sorted([fl(r, lo, hi), fl(r, lo, hi)]), .6):
            e[k] = [0., 0.]
    e['bg_facies'] = -1
    if r.random() < .4:
        b = r.choice(names)
        t['bg_facies'], e['bg_facies'] = b, names.index(b)
        t['bg_azim'] = e['bg_azim'] = fl(r, -90, 90)
        t['bg_dip'] = e['bg_dip'] = fl(r, 0, 40)
    if geo == 'sheet':
        st = r.choice(['massive', 'dip'])
        t['lens_thickness'] = e['lens_thickness'] = r.choice([-1., pos(r, .3, 2)])
    elif geo == 'trough':
        st = r.choice(TROUGH_STRUCT)
    else:
        st = r.choice(['massive', 'dip'])
    t['structure'] = e['structure'] = st
    if st in ('dip', 'random') or r.random() < .3:
        t['dipset_dist'] = e['dipset_dist'] = pos(r, .3, 2)
    else:
        e['dipset_dist'] = None
    if geo == 'trough':
        if st in ('bulb_sets', 'random') or r.random() < .3:
            t['bulbset_dist'] = e['bulbset_dist'] = pos(r, .2, 1)
        else:
            e['bulbset_dist'] = None
    if geo != 'sheet':
        e.update(buffer=0., lag=None, lag_height=0., lag_facies=-1)
        t['agg'] = e['agg'] = pos(r, .3, 1.)
        maybe(r, t, e, 'buffer', pos(r, 0, .9), .4)
        if r.random() < .4:
            t['lag_height'] = e['lag_height'] = pos(r, .1, .5)
            f = r.choice(names)
            t['lag_facies'], e['lag_facies'] = f, names.index(f)
        t['width'] = e['width'] = pos(r, 1, 5)
        t['depth'] = e['depth'] = pos(r, .5, 2)
    if geo == 'trough':
        t['length'] = e['length'] = pos(r, 1, 6)
        t['trough_density'] = e['trough_density'] = pos(r, .02, .3)
        t['paleoflow'] = e['paleoflow'] = sorted([fl(r, -90, 90), fl(r, -90, 90)])
        e.update(te_xyz=None, migrate=None)
        if r.random() < .2:
            n = r.randint(1, 3)
            t['te_xyz'] = e['te_xyz'] = [[model['x0'] + model['lx'] * r.random(), model['y0'] + model['ly'] * r.random(),
                                          model['z0'] + model['lz'] * r.random()] for _ in range(n)]
        maybe(r, t, e, 'migrate', [pos(r, 0, 3), pos(r, 0, 1), pos(r, 0, 3), pos(r, 0, 1)], .4)
    if geo == 'channel':
        for k, lo, hi in (('h', .3, .6), ('k', .4, .9), ('eps_factor', .02, .2)):
            t[k] = e[k] = pos(r, lo, hi)
        t['ds'] = e['ds'] = pos(r, .4, 1.)
        t['channel_no'] = e['channel_no'] = r.randint(1, 3)
        e.update(mig=0., flow_angle=0.)
        maybe(r, t, e, 'mig', pos(r, 0, 2), .4)
        maybe(r, t, e, 'flow_angle', fl(r, -60, 60), .4)
    items = list(t.items())
    r.shuffle(items)
    return {k: txt(r, v) for k, v in items}, e


def parser(S):
    p = configparser.ConfigParser()
    for s, d in S.items():
        p.add_section(s)
        for k, v in d.items():
            p.set(s, k, v)
    return p


def write(S, path):
    with open(path, 'w') as f:
        parser(S).write(f)


def same(a, b):
    """equal values and the same structure (floats compared exactly, NaN equals NaN)"""
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return a == b and isinstance(a, str) == isinstance(b, str)


def make_model(ctx, r, **kw):
    """a Model of the tree built from a random parameter set"""
    S, E, info = new_ini(r, runnable=True, outputs=['npz'], **kw)
    el = {}
    for n, e in E['elements'].items():
        e = dict(e)
        e.setdefault('bg_azim', float('nan'))
        e.setdefault('bg_dip', float('nan'))
        e['ae_id'] = E['strata']['ae'].index(n)
        el[n] = e
    M = ctx.get('hyvr.geo.model', 'Model')
    st = dict(E['strata'])
    st['strata_contact_models'] = None
    return M(dict(E['model']), st, el, dict(E['flowtrans'])), E, S
