"""parse_inifile: cross references between sections"""
import copy
import math

from hv.conc import inigen

RULE = ('random valid parameter files (1-5 hydrofacies, 2-3 strata, 1-4 elements of all geometries, random optional entries) compared '
        'option by option with the values they were written from, and single-fault mutations of them that must be rejected; '
        'non-trivial: every file (all are distinct)')


def compare(ctx, res, E, S):
    run, model, strata, hyd, flow, elems = res
    for nm, got in (('run', run), ('model', model), ('strata', strata), ('hydraulics', hyd), ('flowtrans', flow)):
        for k, v in E[nm].items():
            g = got.get(k, 'MISSING')
            ctx.expect(inigen.same(v, g), 'section %s, option %s' % (nm, k), {s: dict(S[s]) for s in S}, v, g)
    ctx.expect(set(elems) == set(E['elements']), 'the remaining sections are the architectural elements', S, sorted(E['elements']), sorted(elems))
    for a, e in E['elements'].items():
        for k, v in e.items():
            g = elems.get(a, {}).get(k, 'MISSING')
            ctx.expect(inigen.same(v, g), 'element %s (%s), option %s' % (a, e['geometry'], k), S[a], v, g)
        if e['bg_facies'] == -1:
            for k in ('bg_azim', 'bg_dip'):
                if k not in e:
                    ctx.expect(isinstance(elems[a][k], float) and math.isnan(elems[a][k]), 'no background orientation', S[a], 'nan', elems[a][k])


def valid(ctx):
    f = ctx.get('hyvr.input.parameters', 'parse_inifile')
    for i in ctx.iter(400):
        S, E, info = inigen.new_ini(ctx.rng)
        ctx.case(repr(S)[:300], sample=list(S))
        res = ctx.must(ctx.call(f, inigen.parser(S)), 'valid parameter file rejected', S)
        if res is not None:
            compare(ctx, res, E, S)


def faults(S, E, info, r):
    """single-fault mutations: (description, sections, expected exception class names)"""
    out = []

    def mut(desc, fn, *errs):
        T = copy.deepcopy(S)
        if fn(T) is not False:
            out.append((desc, T, errs))

    for s in ('run', 'model', 'strata', 'hydraulics'):
        mut('section %s missing' % s, lambda T, s=s: T.pop(s), 'MissingSectionError')
    if any(o in E['run']['outputs'] for o in ('mf', 'mf6', 'hgs')):
        mut('flowtrans missing for %s' % E['run']['outputs'], lambda T: T.pop('flowtrans'), 'MissingSectionError')
    for k in ('dx', 'lx', 'ly', 'lz'):
        mut('model %s missing' % k, lambda T, k=k: T['model'].pop(k), 'MissingOptionError')
    for k in ('strata', 'ae', 'bg_facies', 'ae_in_strata', 'strata_contact_models', 'bg_azim', 'avul', 'ae_prob', 'ae_z_mean', 'avul_prob', 'bg_dip'):
        mut('strata %s missing' % k, lambda T, k=k: T['strata'].pop(k), 'MissingOptionError')
    for k in ('hydrofacies', 'k_h', 'n', 'ncorlengths', 'sig_y', 'sig_n', 'k_ratio', 'ycorlengths'):
        mut('hydraulics %s missing' % k, lambda T, k=k: T['hydraulics'].pop(k), 'MissingOptionError')
    mut('unknown output', lambda T: T['run'].update(outputs='[npz, xls]'), 'ValueError')
    mut('unknown level', lambda T: T['model'].update(heterogeneity_level='ae'), 'ValueError')
    mut('too few contact models', lambda T: T['strata'].update(strata=inigen.txt(r, E['strata']['strata'] + ['more']),
        ae_in_strata=inigen.txt(r, E['strata']['ae_in_strata'] + [E['strata']['ae_in_strata'][0]]),
        ae_prob=inigen.txt(r, E['strata']['ae_prob'] + [E['strata']['ae_prob'][0]]),
        ae_z_mean=inigen.txt(r, E['strata']['ae_z_mean'] + [E['strata']['ae_z_mean'][0]]),
        avul='[0.1,0.2]', avul_prob='[0.5]', bg_facies=info['names'][0], bg_azim='0', bg_dip='0'), 'ShapeError')
    mut('stratum background facies unknown', lambda T: T['strata'].update(bg_facies='nosuch'), 'ValueError')
    mut('wrong number of hydraulic values', lambda T: T['hydraulics'].update(k_h=inigen.txt(r, E['hydraulics']['k_h'] * 2 + [1.])), 'ShapeError')
    mut('contact model of a stratum with a wrong number of values',
        lambda T: T['strata'].update(strata_contact_models=inigen.txt(r, [['random', 1.0, 2.0]] * len(E['strata']['contact_models']))), 'ValueError')
    mut('contact model of a stratum without depth',
        lambda T: T['strata'].update(strata_contact_models=inigen.txt(r, [['flat']] * len(E['strata']['contact_models']))), 'ValueError')
    for a, e in E['elements'].items():
        g = e['geometry']
        mut('%s: unknown geometry' % a, lambda T: T[a].update(geometry='lens'), 'ValueError')
        mut('%s: no geometry' % a, lambda T: T[a].pop('geometry'), 'MissingOptionError')
        mut('%s: unknown facies' % a, lambda T: T[a].update(facies='[nosuch]', altfacies='[[%s]]' % info['names'][0]), 'ValueError')
        mut('%s: unknown alternating facies' % a, lambda T: T[a].update(altfacies=inigen.txt(r, [['nosuch']] * len(e['facies']))), 'ValueError')
        mut('%s: unknown background' % a, lambda T: T[a].update(bg_facies='nosuch'), 'ValueError')
        mut('%s: flat contact with values' % a, lambda T: T[a].update(contact_model='[flat, 1]'), 'ValueError')
        mut('%s: random contact without values' % a, lambda T: T[a].update(contact_model='[random]'), 'ValueError')
        mut('%s: unknown contact' % a, lambda T: T[a].update(contact_model='[bumpy]'), 'ValueError')
        mut('%s: structure unknown' % a, lambda T: T[a].update(structure='wavy'), 'ValueError')
        if g in ('sheet', 'channel'):
            mut('%s: structure of troughs' % a, lambda T: T[a].update(structure='bulb'), 'ValueError')
        if e['structure'] in ('dip', 'random'):
            mut('%s: %s without dipset_dist' % (a, e['structure']), lambda T: T[a].pop('dipset_dist'), 'MissingOptionError')
        if e['structure'] in ('bulb_sets', 'random'):
            mut('%s: %s without bulbset_dist' % (a, e['structure']), lambda T: T[a].pop('bulbset_dist'), 'MissingOptionError')
        if g != 'sheet':
            mut('%s: unknown lag facies' % a, lambda T: T[a].update(lag_height='0.2', lag_facies='nosuch'), 'ValueError')

            def nolag(T):
                T[a]['lag_height'] = '0.2'
                T[a].pop('lag_facies', None)
            mut('%s: lag without facies' % a, nolag, 'ValueError')
            mut('%s: no agg' % a, lambda T: T[a].pop('agg'), 'MissingOptionError')
        else:
            mut('%s: no lens_thickness' % a, lambda T: T[a].pop('lens_thickness'), 'MissingOptionError')
        for k in {'trough': ('length', 'width', 'depth', 'trough_density', 'paleoflow', 'structure', 'facies'), 'sheet': ('structure', 'facies'),
                  'channel': ('width', 'depth', 'h', 'k', 'ds', 'eps_factor', 'channel_no', 'structure')}[g]:
            mut('%s: no %s' % (a, k), lambda T: T[a].pop(k), 'MissingOptionError')
    return out


def invalid(ctx):
    f = ctx.get('hyvr.input.parameters', 'parse_inifile')
    for i in ctx.iter(60):
        r = ctx.rng
        S, E, info = inigen.new_ini(r)
        for desc, T, errs in faults(S, E, info, r):
            res = ctx.call(f, inigen.parser(T))
            ctx.case((desc.split(':')[-1], i), sample=desc)
            if ctx.expect(res[0] == 'exc', 'accepted although: ' + desc, T, errs, 'accepted'):
                ctx.expect(any(c.__name__ in errs for c in type(res[1]).__mro__), 'error raised for: ' + desc, T, errs, repr(res[1]))


def again(ctx):
    """parsing does not depend on the files parsed before"""
    f = ctx.get('hyvr.input.parameters', 'parse_inifile')
    for i in ctx.iter(40):
        S, E, info = inigen.new_ini(ctx.rng)
        S2, E2, _ = inigen.new_ini(ctx.rng)
        rs = [ctx.call(f, inigen.parser(x)) for x in (S, S2, S)]
        ctx.case(repr(S)[:300], sample=list(S))
        if any(x[0] == 'exc' for x in rs):
            ctx.must([x for x in rs if x[0] == 'exc'][0], 'valid file rejected', (S, S2))
            continue
        compare(ctx, rs[2][1], E, S)


PARTS = [('valid', valid), ('faults', invalid), ('again', again)]
