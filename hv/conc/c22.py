"""old-format parameter files mean the same as new-format ones"""
import configparser
import os
import warnings

from hv.conc import guard, inigen
from hv.conc.inigen import contact, fl, maybe, pos, same, txt

RULE = 'random old-format parameter files (with old and very old option names) and their meaning in terms of the new options; non-trivial: every file'


def old_ini(r):
    """-> sections, expected values of the new names"""
    S, E = {}, {}
    nf = r.randint(1, 4)
    names = ['f%d' % i for i in range(nf)]
    nm = lambda key, *alts: r.choice((key,) + alts) if r.random() < .5 else key
    # hydraulics
    h = dict(hydro=names, k_h=[10**r.uniform(-6, -1) for _ in names], sig_y=[pos(r, 0, 1) for _ in names], k_ratio=[pos(r, .2, 5) for _ in names],
             n=[pos(r, .1, .5) for _ in names], sig_n=[pos(r, 0, .01) for _ in names],
             ycorlengths=[[pos(r, .5, 9) for _ in range(3)] for _ in names], ncorlengths=[[pos(r, .5, 9) for _ in range(3)] for _ in names])
    pre = dict(hydro='l_', ycorlengths='ll_', ncorlengths='ll_')
    t = {nm(k, pre.get(k, 'r_') + k): v for k, v in h.items()}
    e = dict(h)
    e['hydrofacies'] = e.pop('hydro')
    for k in ('k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend'):
        e[k] = None
        if r.random() < .3:
            t[nm(k, 'r_' + k)] = e[k] = [pos(r), pos(r)]
    gen_ = r.random() < .5
    t[nm('gen', 'flag_gen')] = gen_
    S['hydraulics'], E['hydraulics'] = t, e
    # run
    t, e = {}, dict(runname=None, modeldir=None, numsim=1)
    maybe(r, t, e, 'runname', 'run%d' % r.randint(0, 99))
    maybe(r, t, e, 'numsim', r.randint(0, 9))
    dout = r.sample(['vtr', 'py', 'mat', 'npz', 'h5'], r.randint(1, 3))
    t['dataoutputs'] = dout
    mout = []
    if r.random() < .5:
        mout = r.sample(['mf', 'mf6', 'hgs'], r.randint(1, 3))
        t[nm('modeloutputs', 'l_modeloutputs')] = mout
    an, het, ow = r.random() < .5, r.random() < .5, r.random() < .5
    t[nm('anisotropy', 'flag_anisotropy')] = an
    t[nm('het', 'flag_het')] = het
    t['flag_ow'] = ow
    e['overwrite_old_output'] = ow
    S['run'], E['run'] = t, e
    E['outputs'] = sorted(dout + mout)
    # model
    dx = r.choice([.5, 1., 2.])
    t, e = {'dx': dx}, dict(x0=0., y0=0., z0=0., dx=dx, hydraulics=gen_, anisotropy=an, heterogeneity=het)
    for k in ('dy', 'dz'):
        if not maybe(r, t, e, k, r.choice([.25, .5, 1.])):
            e[k] = dx
    for k in ('x0', 'y0', 'z0'):
        maybe(r, t, e, k, fl(r))
    for k in ('lx', 'ly', 'lz'):
        t[k] = e[k] = pos(r, 2, 20)
    e['periodic'] = r.random() < .5
    t[nm('periodic', 'flag_periodic')] = e['periodic']
    t['hetlev'] = e['heterogeneity_level'] = r.choice(['facies', 'internal'])
    if r.random() < .3:
        t[nm('display', 'flag_display')] = False
    S['model'], E['model'] = t, e
    # strata
    na, ns = r.randint(1, 3), r.randint(1, 3)
    aes = ['ae%d' % i for i in range(na)]
    st = ['s%d' % i for i in range(ns)]
    ins = [r.sample(aes, r.randint(1, na)) for _ in st]
    bg = [r.randrange(nf), fl(r, -90, 90), fl(r, 0, 40)]
    mode = r.choice(['flat', 'random'])
    tops = [pos(r, 0, 20) for _ in st]
    cms = [[pos(r, .01, .3), pos(r, 1, 9), pos(r, 1, 9)] for _ in st]
    d = dict(ae=aes, ae_prob=[[1. / len(l)] * len(l) for l in ins], ae_z_mean=[[pos(r, .3, 2) for _ in l] for l in ins],
             avul_prob=[[pos(r, 0, 1)] for _ in st], avul=[sorted([pos(r, 0, .3), pos(r, 0, .3)]) for _ in st])
    t = {nm(k, ('l_' if k == 'ae' else 'll_') + k): v for k, v in d.items()}
    t[nm('ssm', 'l_ssm', 'l_seq')] = st
    t[nm('ssm_top', 'r_ssm_top')] = tops
    t['bg'] = bg
    t[nm('ssm_ae', 'll_ssm_ae')] = ins
    if mode == 'random':
        t['ssm_contact'] = mode
        t[nm('ssm_contact_model', 'll_ssm_contact_model')] = cms
    elif r.random() < .5:
        t['ssm_contact'] = mode
    e = dict(d)
    e.update(strata=st, ae_in_strata=ins, bg_facies=[bg[0]] * ns, bg_azim=[bg[1]] * ns, bg_dip=[bg[2]] * ns)
    e['contact_models'] = [dict(mode=mode, z=tops[i]) if mode == 'flat' else dict(mode=mode, z=tops[i], var=cms[i][0], corlx=cms[i][1], corly=cms[i][2]) for i in range(ns - 1)]
    S['strata'], E['strata'] = t, e
    # flowtrans
    t = dict(hin=[fl(r), 0., 0.], hout=[fl(r), 0., 0.])
    e = dict(gradh=None, q_in=None, kw_gradh=None, kw_q_in=None, **t)
    S['flowtrans'], E['flowtrans'] = t, e
    E['elements'] = {}
    for a in aes:
        S[a], E['elements'][a] = element(r, nf, nm)
    keys = list(S)
    r.shuffle(keys)
    return {k: {o: txt(r, v) for o, v in S[k].items()} for k in keys}, E


def element(r, nf, nm):
    geo = r.choice(['trunc_ellip', 'ext_par', 'sheet'])
    t, e = dict(geometry=geo), dict(geometry={'trunc_ellip': 'trough', 'ext_par': 'channel', 'sheet': 'sheet'}[geo])
    mode = r.choice(['flat', 'random'])
    t['contact'] = mode
    e['contact_model'] = dict(mode=mode)
    if mode == 'random':
        cm = [pos(r, .01, .3), pos(r, 1, 9), pos(r, 1, 9)]
        t[nm('contact_model', 'r_contact_model')] = cm
        e['contact_model'].update(var=cm[0], corlx=cm[1], corly=cm[2])
    fac = r.sample(range(nf), r.randint(1, nf))
    t[nm('facies', 'l_facies')] = e['facies'] = fac
    e['altfacies'] = None
    if r.random() < .5:
        t[nm('altfacies', 'll_altfacies')] = e['altfacies'] = [[r.choice(fac) for _ in range(r.randint(1, 3))] for _ in fac]
    e['size_ztrend'] = None
    if r.random() < .5:
        t[nm('geo_ztrend', 'r_geo_ztrend')] = e['size_ztrend'] = [pos(r), pos(r)]
    for k in ('k_ztrend', 'k_xtrend', 'n_xtrend', 'n_ztrend'):
        e[k] = None
        if r.random() < .3:
            t[nm(k, 'r_' + k)] = e[k] = [pos(r), pos(r)]
    e.update(bg_facies=-1, bg_azim=float('nan'), bg_dip=float('nan'))
    if r.random() < .5:
        bg = [r.randrange(nf), fl(r, -90, 90), fl(r, 0, 40)]
        t['bg'] = bg
        e.update(bg_facies=bg[0], bg_azim=bg[1], bg_dip=bg[2])
    st = r.choice(['massive', 'dip'] if geo != 'trunc_ellip' else ['massive', 'dip', 'bulb', 'bulb_l', 'random', 'flat'])
    t['structure'] = st
    e['structure'] = {'bulb_l': 'bulb_sets'}.get(st, st)
    e['dipset_dist'] = None
    if st in ('dip', 'random') or r.random() < .3:
        t['dipset_d'] = e['dipset_dist'] = pos(r)
    if geo == 'sheet':
        t['lens_thickness'] = e['lens_thickness'] = r.choice([-1., pos(r)])
    if geo != 'sheet' or r.random() < .5:
        t[nm('dip', 'r_dip')] = e['dip'] = sorted([fl(r, 0, 40), fl(r, 0, 40)])
    else:
        e['dip'] = [0., 0.]
    if geo == 'trunc_ellip' or (geo == 'sheet' and r.random() < .5):
        t[nm('azimuth', 'r_azimuth')] = e['azimuth'] = sorted([fl(r, -90, 90), fl(r, -90, 90)])
    elif geo == 'sheet':
        e['azimuth'] = [0., 0.]
    if geo != 'sheet':
        t['agg'] = e['agg'] = pos(r)
        e['buffer'] = 0.
        maybe(r, t, e, 'buffer', pos(r, 0, .9))
        e['lag_height'], e['lag_facies'] = 0., -1
        if r.random() < .5:
            e['lag_height'], e['lag_facies'] = pos(r, .1, .5), r.randrange(nf)
            t[nm('lag', 'r_lag')] = [e['lag_height'], e['lag_facies']]
        t['width'] = e['width'] = pos(r)
        t['depth'] = e['depth'] = pos(r)
        e['migrate'] = None
        if r.random() < .4:
            t[nm('migrate', 'r_migrate')] = e['migrate'] = [pos(r, 0, 3) for _ in range(4)]
    if geo == 'trunc_ellip':
        t['length'] = e['length'] = pos(r)
        t['el_z'] = e['trough_density'] = pos(r, .01, .3)
        t[nm('paleoflow', 'r_paleoflow')] = e['paleoflow'] = sorted([fl(r, -90, 90), fl(r, -90, 90)])
        e['te_xyz'] = None
        if r.random() < .3:
            t[nm('te_xyz', 'll_te_xyz')] = e['te_xyz'] = [[fl(r), fl(r), fl(r)] for _ in range(r.randint(1, 3))]
        if st in ('bulb_l', 'random') or r.random() < .3:
            t['bulbset_d'] = e['bulbset_dist'] = pos(r)
    if geo == 'ext_par':
        for k in ('h', 'k', 'ds', 'eps_factor'):
            t[k] = e[k] = pos(r, .1, .9)
        t['channel_no'] = e['channel_no'] = r.randint(1, 3)
        e.update(flow_angle=0., mig=0.)
    items = list(t.items())
    r.shuffle(items)
    return dict(items), e


def translate(ctx):
    f = ctx.get('hyvr.input.parameters', 'parameters')
    for it in ctx.iter(400):
        r = ctx.rng
        S, E = old_ini(r)
        with guard.scratch() as d:
            p = os.path.join(d, 'mymodel.ini')
            inigen.write(S, p)
            res = ctx.call(f, p)
        ctx.case(repr(S)[:300], sample=S['run'])
        if res[0] == 'exc':
            ctx.must(res, 'reading an old-format file', S)
            continue
        run, model, strata, hyd, flow, el = res[1]
        if E['run']['runname'] is None:
            E['run']['runname'] = 'mymodel'
        for nm, got, want in (('run', run, {k: v for k, v in E['run'].items() if k != 'modeldir'}), ('model', model, E['model']), ('strata', strata, E['strata']),
                              ('hydraulics', hyd, E['hydraulics']), ('flowtrans', flow, E['flowtrans'])):
            for k, v in want.items():
                ctx.expect(k in got and same(v, got[k]), 'option %s in section %s' % (k, nm), S, v, got.get(k, 'missing'))
        ctx.expect(sorted(run['outputs']) == E['outputs'], 'outputs', S, E['outputs'], run.get('outputs'))
        ctx.expect(set(el) == set(E['elements']), 'elements', S, sorted(E['elements']), sorted(el))
        for a in set(el) & set(E['elements']):
            for k, v in E['elements'][a].items():
                ctx.expect(k in el[a] and same(v, el[a][k]), 'option %s in section %s' % (k, a), S, v, el[a].get(k, 'missing'))
            for k in ('bg_facies', 'lag_facies', 'channel_no'):
                if k in el[a]:
                    ctx.expect(isinstance(el[a][k], int), k + ' is a whole number', S, None, el[a][k])


def unsupported(ctx):
    """what has no counterpart any more is refused, missing sections and options are reported"""
    f = ctx.get('hyvr.input.parameters', 'parameters')
    op = ctx.load('hyvr.input.option_parsing')
    for it in ctx.iter(150):
        r = ctx.rng
        S, E = old_ini(r)
        what = r.choice(['display', 'save_aelu', 'section', 'option', 'geometry', 'contact'])
        want = ValueError
        if what == 'display':
            S['model'].pop('flag_display', None)
            S['model']['display'] = 'True'
        elif what == 'save_aelu':
            S['strata']['save_aelu'] = 'yes'
        elif what == 'section':
            s = r.choice(['model', 'strata', 'hydraulics', 'flowtrans'])
            del S[s]
            want = op.MissingSectionError
        elif what == 'option':
            s, os_ = r.choice([('model', ['lx']), ('model', ['hetlev']), ('hydraulics', ['k_h', 'r_k_h']), ('strata', ['bg']), ('strata', ['ssm_top', 'r_ssm_top'])])
            for o in os_:
                S[s].pop(o, None)
            want = op.MissingOptionError
        elif what == 'geometry':
            S[r.choice(list(E['elements']))]['geometry'] = 'trough'
            want = Exception
        else:
            S['strata']['ssm_contact'] = 'bumpy'
        with guard.scratch() as d:
            p = os.path.join(d, 'm.ini')
            inigen.write(S, p)
            res = ctx.call(f, p)
        ctx.case((it, what), sample=what)
        ctx.expect(res[0] == 'exc' and isinstance(res[1], want), 'an invalid old-format file (%s) is refused' % what, S, want, res[1] if res[0] == 'exc' else 'accepted')


PARTS = [('translation', translate), ('unsupported', unsupported)]
