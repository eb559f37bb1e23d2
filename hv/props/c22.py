"""C22: old-format parameter files mean the same as their new-format counterparts (the translation of parsed sections)."""
import z3
from hv.common import *

PAR = 'hyvr.input.parameters'
IS, RS = z3.IntSort(), z3.RealSort()


def zb(x):
    return x if is_z(x) else z3.BoolVal(bool(x))


def same(I, what, v, want):
    if isinstance(want, (L, D)):
        if v is not want and isinstance(v, (L, D)):
            raise Unsupported('a copy of ' + what)
        I.oblige(what, zb(v is want))
    elif want is None or isinstance(want, str):
        I.oblige(what, zb(v == want if not is_z(v) else False))
    elif isinstance(want, float) and want != want:
        I.oblige(what, zb(isinstance(v, float) and v != v))
    else:
        if not (is_z(v) or isinstance(v, (int, float)) or type(v).__name__ == 'Fraction'):
            raise Unsupported('%s: %r' % (what, v)) if v is not None and not isinstance(v, str) else TargetExc(TypeError, (what,))
        I.oblige(what, zreal(v) == zreal(want))


def get(d, k):
    if k not in d.items:
        raise Unsupported('no entry ' + k)
    return d.items[k]


def old(I, mode, kinds):
    I.module(PAR)
    I.columns = True
    n = I.size('n_strata')
    F = lambda nm: z3.Function(nm, IS, RS)
    sect = dict(outputs=uflist('mout', I.size('n_mout', 0)), data=uflist('dout', I.size('n_dout', 0)))
    run = D(dict(modeloutputs=sect['outputs'], dataoutputs=sect['data'], flag_ow=I.decide(z3.Bool('flag_ow')),
                 anisotropy=I.decide(z3.Bool('aniso')), het=I.decide(z3.Bool('het')), numsim=I.size('numsim')))
    model = D(dict(hetlev='facies', display=False))
    hyd = D(dict(hydro=uflist('hydro', I.size('n_facies')), gen=I.decide(z3.Bool('gen'))))
    bgs = [z3.Int('bg_facies'), real('bg_azim'), real('bg_dip')]
    top, cmod = F('ssm_top'), z3.Function('ssm_cm', IS, IS, RS)
    ssm, ssm_ae = uflist('ssm', n), uflist('ssm_ae', n)
    strata = D(dict(ssm=ssm, bg=L([z3.ToReal(bgs[0]), bgs[1], bgs[2]]), ae_table=None, save_aelu=False, ssm_contact=mode, ssm_ae=ssm_ae,
                    ssm_top=L(n=n - 1, get=lambda i: top(zint(i))),
                    ssm_contact_model=L(n=n - 1, get=lambda i: L(n=3, get=lambda j, i=i: cmod(zint(i), zint(j))))))
    els, exp = {}, {}
    for kind, st, bg, lag in kinds:
        nm = '%s_%s_%s_%s' % (kind, st, bg, lag)
        e = dict(geometry=kind, structure=st, geo_ztrend=L([real(nm + '_t0'), real(nm + '_t1')]), dipset_d=real(nm + '_dd'),
                 contact=mode, contact_model=L([real(nm + '_c%d' % k) for k in range(3)]))
        b = [z3.Int(nm + '_bf'), real(nm + '_ba'), real(nm + '_bd')]
        e['bg'] = L([z3.ToReal(b[0]), b[1], b[2]]) if bg else None
        nan = float('nan')
        w = dict(size_ztrend=e['geo_ztrend'], dipset_dist=e['dipset_d'], bg_facies=b[0] if bg else -1, bg_azim=b[1] if bg else nan,
                 bg_dip=b[2] if bg else nan, geometry=dict(trunc_ellip='trough', ext_par='channel', sheet='sheet')[kind], structure=st)
        if kind != 'sheet':
            l = real(nm + '_lh'), z3.Int(nm + '_lf')
            e['lag'] = L([l[0], z3.ToReal(l[1])]) if lag else None
            w.update(lag_height=l[0] if lag else 0, lag_facies=l[1] if lag else -1)
        if kind == 'trunc_ellip':
            e.update(el_z=real(nm + '_elz'), bulbset_d=real(nm + '_bd'))
            w.update(trough_density=e['el_z'], bulbset_dist=e['bulbset_d'])
            if st == 'bulb_l':
                w['structure'] = 'bulb_sets'
        if kind == 'ext_par':
            e['channel_no'] = z3.ToReal(z3.Int(nm + '_no'))
            w.update(channel_no=z3.Int(nm + '_no'), flow_angle=0, mig=0)
        exp[nm] = (w, e['contact_model'])
        els[nm] = D(e)
    r = I.run(PAR, 'get_new_parameters_from_deprecated', [run, model, strata, hyd, D({}), D(els)])
    if not isinstance(r, L) or len(r.items) != 6:
        raise Unsupported('result')
    run2, model2, strata2, hyd2, _, els2 = r.items
    o = get(run2, 'outputs')
    (j,) = I.formals(1, 'output')
    nm_, nd = zint(sect['outputs'].n), zint(sect['data'].n)
    I.oblige('outputs: model outputs and data outputs', zint(o.length()) == nm_ + nd)
    I.assume(z3.And(j >= 0, j < nm_ + nd))
    I.oblige('outputs in order', I.eq(o.get(j), z3.If(j < nm_, sect['outputs'].get(j), sect['data'].get(j - nm_))))
    for d, k, w in ((run2, 'overwrite_old_output', 'flag_ow'), (model2, 'anisotropy', 'anisotropy'), (model2, 'heterogeneity', 'het')):
        I.oblige(k, zb(get(d, k) is run.items[w]))
    I.oblige('hydraulics flag', zb(get(model2, 'hydraulics') is hyd.items['gen']))
    I.oblige('heterogeneity level', zb(get(model2, 'heterogeneity_level') == 'facies'))
    same(I, 'hydrofacies', get(hyd2, 'hydrofacies'), hyd.items['hydro'])
    same(I, 'strata', get(strata2, 'strata'), ssm)
    same(I, 'elements in the strata', get(strata2, 'ae_in_strata'), ssm_ae)
    (s,) = I.formals(1, 'stratum')
    for k, w in zip(('bg_facies', 'bg_azim', 'bg_dip'), bgs):
        v = get(strata2, k)
        I.oblige('%s for every stratum' % k, z3.And(zint(v.length()) == n, z3.Implies(z3.And(s >= 0, s < n), zreal(I.list_getitem(v, s) if not v.sym else v.get(s)) == zreal(w))))
    cms = get(strata2, 'contact_models')
    I.oblige('one contact model per inner boundary', zint(cms.length()) == n - 1)
    I.assume(z3.And(s >= 0, s < n - 1))
    cm = cms.get(s)
    I.oblige('mode of the contact', zb(I.eq(get(cm, 'mode'), mode)))
    same(I, 'depth of the contact', get(cm, 'z'), top(s))
    if mode == 'random':
        for q, k in enumerate(('var', 'corlx', 'corly')):
            same(I, k + ' of the contact', get(cm, k), cmod(s, z3.IntVal(q)))
    for nm, (w, c) in exp.items():
        e = get(els2, nm)
        for k, x in w.items():
            same(I, '%s of %s' % (k, nm), get(e, k), x)
        m = get(e, 'contact_model')
        I.oblige('contact mode of ' + nm, zb(isinstance(m, D) and I.eq(m.items.get('mode'), mode)))
        if mode == 'random':
            for q, k in enumerate(('var', 'corlx', 'corly')):
                same(I, '%s of %s' % (k, nm), get(m, k), c.items[q])


T, C, S = 'trunc_ellip', 'ext_par', 'sheet'
KINDS = [(T, 'bulb_l', 1, 1), (T, 'bulb', 0, 0), (T, 'dip', 1, 0), (C, 'massive', 1, 1), (C, 'dip', 0, 0), (S, 'dip', 1, 0), (S, 'massive', 0, 0)]
PROOFS = [('translation, random', lambda I: old(I, 'random', KINDS)), ('translation, flat', lambda I: old(I, 'flat', KINDS))]
BOUNDED = ['option tables and parsing of old files (option_parsing, options_deprecated, parse_deprecated_inifile): generated old files '
           'compared with the table of the documentation']
