"""strata and architectural elements tile the domain"""
import math

import numpy as np

from hv.conc import inigen

RULE = 'random models (2-3 strata, 1-4 element types, flat and random contacts); every surface of the generated stack is compared; non-trivial: more than one AE'


def stack(ctx):
    for i in ctx.iter(120):
        res = ctx.call(inigen.make_model, ctx, ctx.rng)
        if res[0] == 'exc':
            ctx.must(res, 'model construction')
            continue
        m, E, S = res[1]
        res = ctx.call(m.generate_model)
        ctx.case(repr(S)[:300], trivial=False, sample=(len(E['strata']['strata']), list(E['elements'])))
        if res[0] == 'exc':
            ctx.must(res, 'generating the model', S)
            continue
        g = m.grid
        surf = lambda c: np.asarray(c.surface)
        sts = m.strata
        ns = len(E['strata']['strata'])
        ctx.expect(len(sts) == ns and m.n_strata == ns, 'number of strata', S, ns, len(sts))
        ctx.expect(np.all(surf(sts[0].top_surface) == g.zmax), 'the first stratum starts at the top of the domain', S, g.zmax, surf(sts[0].top_surface))
        bot = surf(sts[-1].bottom_surface)
        ctx.expect(np.all(bot <= g.z0) and (np.all(bot == g.z0) or len(sts) > 1), 'the last stratum ends at the bottom of the domain', S, g.z0, bot)
        # the file lists the strata from bottom to top
        P = E['strata']
        for q, st in enumerate(sts):
            k = ns - 1 - q
            ctx.expect(st.name == P['strata'][k], 'order of the strata', S, P['strata'][k], st.name)
            ctx.expect((st.bg_facies, st.bg_azim, st.bg_dip) == (P['bg_facies'][k], P['bg_azim'][k], P['bg_dip'][k]), 'background of the stratum', S)
            ctx.expect([t.name for t in st.ae_types] == P['ae_in_strata'][k], 'element types of the stratum', S, P['ae_in_strata'][k])
            for nm in ('ae_prob', 'ae_z_mean', 'avul', 'avul_prob'):
                ctx.expect(inigen.same(st.params[nm], P[nm][k]), nm + ' of the stratum', S, P[nm][k], st.params[nm])
            if q + 1 < ns:
                ctx.expect(np.array_equal(surf(st.bottom_surface), surf(sts[q+1].top_surface)), 'bottom of a stratum is the top of the next', S)
            ctx.expect(np.all(surf(st.bottom_surface) <= surf(st.top_surface)), 'bottom of a stratum is not above its top', S)
            cm = P['contact_models'][k-1] if k > 0 else dict(mode='flat', z=g.z0)
            if cm['mode'].lower() == 'flat':
                want = np.minimum(surf(st.top_surface), cm['z'])
                ctx.expect(np.array_equal(surf(st.bottom_surface), want), 'flat bottom of a stratum', S, want, surf(st.bottom_surface))
            aes = st.aes
            ctx.expect(st.n_ae == len(aes), 'number of AEs', S)
            if not aes:
                ctx.expect(st.top_surface.zmean <= st.bottom_surface.zmean + 1e-9, 'a stratum of positive thickness has AEs', S)
                continue
            ctx.expect(np.array_equal(surf(aes[0].top_surface), surf(st.top_surface)), 'the first AE starts at the top of the stratum', S)
            ctx.expect(np.array_equal(surf(aes[-1].bottom_surface), surf(st.bottom_surface)), 'the last AE ends at the bottom of the stratum', S)
            for a, ae in enumerate(aes):
                t, b = surf(ae.top_surface), surf(ae.bottom_surface)
                ctx.expect(np.all(b <= t), 'bottom of an AE is not above its top', S)
                ctx.expect(np.all(b >= surf(st.bottom_surface)) and np.all(t <= surf(st.top_surface)), 'AEs lie inside the stratum', S)
                if a + 1 < len(aes):
                    ctx.expect(np.array_equal(b, surf(aes[a+1].top_surface)), 'bottom of an AE is the top of the next', S)
                ctx.expect(ae.type_name in P['ae_in_strata'][k], 'type of the AE is one of the stratum', S, P['ae_in_strata'][k], ae.type_name)
                ctx.expect(ae.zmin <= b.min() and ae.zmax >= t.max(), 'vertical extent of the AE', S, (b.min(), t.max()), (ae.zmin, ae.zmax))
                for o in ae.object_list:
                    ctx.expect(ae.zmin <= o.zmin and ae.zmax >= o.zmax, 'vertical extent of the AE covers its objects', S)
                ctx.expect(st.ae_zmins[a] == ae.zmin and st.ae_zmaxs[a] == ae.zmax, 'stored extents of the AEs', S)
                ctx.expect(st.zmin <= ae.zmin and st.zmax >= ae.zmax, 'extent of the stratum covers its AEs', S)
                # background of the AE: its own or that of the stratum
                e = E['elements'][ae.type_name]
                wf = e['bg_facies'] if e['bg_facies'] != -1 else st.bg_facies
                wa, wd = e.get('bg_azim', st.bg_azim), e.get('bg_dip', st.bg_dip)
                ctx.expect((ae.bg_facies, ae.bg_azim, ae.bg_dip) == (wf, wa, wd), 'background of the AE', S, (wf, wa, wd), (ae.bg_facies, ae.bg_azim, ae.bg_dip))
                ctx.expect(ae.type_id == P['ae'].index(ae.type_name), 'type number of the AE', S)
            ctx.expect(st.zmin <= surf(st.bottom_surface).min() and st.zmax >= surf(st.top_surface).max(), 'extent of the stratum', S)
        ctx.expect(list(m.strata_zmins) == [s.zmin for s in sts] and list(m.strata_zmaxs) == [s.zmax for s in sts], 'stored extents of the strata', S)


def chosen(ctx):
    """only types with a positive probability are used"""
    for i in ctx.iter(60):
        r = ctx.rng
        res = ctx.call(inigen.make_model, ctx, r)
        if res[0] == 'exc':
            continue
        m, E, S = res[1]
        zero = []
        for k, l in enumerate(m.strata_dict['ae_in_strata']):
            p = [r.choice([0., 1., .5]) for _ in l]
            if sum(p) == 0:
                p[r.randrange(len(p))] = 2.
            m.strata_dict['ae_prob'][k] = p
            zero.append({n for n, x in zip(l, p) if x == 0})
        res = ctx.call(m.generate_model)
        ctx.case(repr(S)[:200], trivial=not any(zero), sample=zero)
        if res[0] == 'exc':
            ctx.must(res, 'generating the model', S)
            continue
        ns = len(m.strata)
        for q, st in enumerate(m.strata):
            for ae in st.aes:
                ctx.expect(ae.type_name not in zero[ns-1-q], 'an element with probability zero is used', (S, m.strata_dict['ae_prob']), None, ae.type_name)


PARTS = [('stack', stack), ('types', chosen)]
