"""C18: hydraulic parameters of every cell."""
import z3
from hv.common import *

MO = 'hyvr.geo.model'
IS, RS = z3.IntSort(), z3.RealSort()


def setup(I):
    I.module(MO), I.module('hyvr.geo.stratum'), I.module('hyvr.geo.ae_realization')
    g = make_grid(I)
    G = g.attrs
    sh = (G['nx'], G['ny'], G['nz'])
    nf = I.size('n_facies')
    FAC, HA = ufarr('facies', sh, 'int'), ufarr('ha', sh, 'int')
    AEN = ufarr('ae', sh, 'int')
    AZ, DP = ufarr('azim', sh), ufarr('dip', sh)
    q = I.formals(3, 'q')
    I.assume(z3.ForAll(list(q), z3.And(FAC.get(q) >= 0, FAC.get(q) < nf), patterns=[FAC.get(q)]))
    H = {f: z3.Function(f, IS, RS) for f in ('sig_y', 'sig_n', 'k_h', 'n', 'k_ratio')}
    hyd = {f: L(n=nf, get=lambda i, F=F: F(zint(i))) for f, F in H.items()}
    C = {f: z3.Function(f, IS, IS, RS) for f in ('ycorlengths', 'ncorlengths')}
    for f, F in C.items():
        hyd[f] = L(n=nf, get=lambda i, F=F: L([F(zint(i), z3.IntVal(d)) for d in range(3)]))
    hyd['hydrofacies'] = uflist('hydrofacies', nf, 'int')
    hyd.update(k_ztrend=None, k_xtrend=None, n_ztrend=None, n_xtrend=None)
    data = D(dict(ha=HA, facies=FAC, ae=AEN, azim=AZ, dip=DP))
    m = I.obj(MO, 'Model', grid=g, data=data, strata=L([]))
    # ghost: the field value each cell has got
    gh = dict(k=ufarr('field_k', sh), n=ufarr('field_n', sh))

    def tensors(I, v):
        args = list(v.values())
        I.tensor_args = args
    I.contracts['hyvr.optimized.set_anisotropic_ktensor'] = tensors
    return g, sh, nf, FAC, HA, AEN, H, C, hyd, m, gh


def final(I, g, sh, FAC, H, m, gh, kfac=1, nfac=1, het=True, cell=None, cases=(((),), ((),))):
    f = cell or I.formals(3, 'cell')
    I.assume(I.in_shape(f, sh))
    d = m.attrs['data'].items
    fi = FAC.get(f)
    kw = H['k_h'](fi) * (EXP(gh['k'].get(f)) if het else 1)
    nw = H['n'](fi) + (gh['n'].get(f) if het else 0)
    for name, val, want, cs in (('conductivity', d['k_iso'], kw * kfac(f) if callable(kfac) else kw, cases[0]),
                                ('porosity', d['poros'], nw * nfac(f) if callable(nfac) else nw, cases[1])):
        for c in cs:
            with I.context(list(I.pc) + list(c)):
                I.oblige(name + ' of the facies', zreal(val.get(f)) == want)
    I.oblige('anisotropy ratio of the facies', zreal(d['anirat'].get(f)) == H['k_ratio'](fi))
    for n in ('k_iso', 'poros', 'anirat'):
        I.oblige(n + ' covers the grid', z3.And(*[zint(x) == y for x, y in zip(d[n].shape, sh)]))
    t = I.tensor_args
    kt = t[0]
    I.oblige('tensors of all cells', z3.BoolVal(kt is d['ktensors'] and len(kt.shape) == 5))
    want = [d['k_iso'].get(f), d['azim'].get(f) * PI / 180, d['dip'].get(f) * PI / 180, d['anirat'].get(f)]
    for a, w, n in zip(t[1:], want, ('conductivity', 'azimuth', 'dip', 'anisotropy ratio')):
        I.oblige('tensors get the ' + n, zreal(a.get(f)) == zreal(w))


def homogeneous(I):
    g, sh, nf, FAC, HA, AEN, H, C, hyd, m, gh = setup(I)
    I.set_attr_raw(m, 'generate_heterogeneity', False)
    I.set_attr_raw(m, 'heterogeneity_level', ['internal', 'facies'][I.choose(2)])
    I.meth(m, 'generate_hydraulic_parameters', [D(hyd)])
    final(I, g, sh, FAC, H, m, gh, het=False)


def facies(I):
    g, sh, nf, FAC, HA, AEN, H, C, hyd, m, gh = setup(I)
    I.set_attr_raw(m, 'generate_heterogeneity', True)
    I.set_attr_raw(m, 'heterogeneity_level', 'facies')
    I.meth(m, 'generate_hydraulic_parameters', [D(hyd)])
    final(I, g, sh, FAC, H, m, gh, het=False)


PROOFS = [('homogeneous', homogeneous), ('facies', facies)]


def field_contract(I, g, sh, FAC, HA, C, H, gh, bg=None):
    """hyvr.utils.specsim (C20): one value per selected cell of a field with this variance and these correlation lengths"""
    a, b = I.formals(3, 'a'), I.formals(3, 'b')

    def which(var):
        for f, k in (('sig_y', 'k'), ('sig_n', 'n')):
            if is_z(var) and z3.is_app(var) and var.decl().name() == f:
                return k, var.arg(0)
        return None, None

    def h(I, v):
        mask = v['selection_mask']
        k, fi = which(v['var'])
        I.oblige('variance of the conductivity or porosity of one facies', z3.BoolVal(k is not None), 'pre')
        if k is None:
            raise Unsupported('variance')
        I.oblige('field of selected cells of the grid', z3.BoolVal(v['grid'] is g and isinstance(mask, Arr) and not v.get('two_dim')), 'pre')
        I.oblige('exponential covariance', z3.BoolVal(v['covmod'] == 'exp'), 'pre')
        cl = I.np_array(v['corl'])
        F = C['ycorlengths' if k == 'k' else 'ncorlengths']
        I.oblige('correlation lengths of the same quantity and facies', z3.And(
            zint(cl.shape[0]) == 3, *[zreal(cl.get((d,))) == F(fi, z3.IntVal(d)) for d in range(3)]), 'pre')
        ina, inb = [z3.And(I.in_shape(x, sh), zbool(mask.get(x))) for x in (a, b)]
        I.oblige('only cells of this facies', z3.Implies(ina, FAC.get(a) == fi), 'pre')
        I.oblige('only cells of one object', z3.Implies(z3.And(ina, inb), HA.get(a) == HA.get(b)), 'pre')
        X = ufarr('field', sh, unique=True)
        msk = I.snap(mask)
        if bg is not None:
            # ghost: this field covers one element only (first drawn over all background cells, then again per element)
            one = I.entails(z3.Implies(z3.And(ina, inb, HA.get(a) == -1), bg(a, b)))
            one = z3.BoolVal(True) if one else fresh('h_one', 'bool')
            I.arr_write(gh['one_' + k], lambda ix: zbool(msk(ix)), lambda ix: one)
        I.arr_write(gh[k], lambda ix: zbool(msk(ix)), X.get)
        return Flat(mask, 'real', X.get)
    return h


def trend(g, f, name, ax):
    lo, hi = z3.Reals(name + '_lo ' + name + '_hi')
    n = g.attrs['n' + ax]
    i = f['xyz'.index(ax)]
    return z3.If(n <= 1, lo, lo + z3.ToReal(i) * (hi - lo) / z3.ToReal(n - 1))


def internal(I, tr):
    g, sh, nf, FAC, HA, AEN, H, C, hyd, m, gh = setup(I)
    q = I.formals(3, 'q')
    I.assume(z3.ForAll(list(q), HA.get(q) >= 0, patterns=[HA.get(q)]))
    I.set_attr_raw(m, 'generate_heterogeneity', True)
    I.set_attr_raw(m, 'heterogeneity_level', 'internal')
    I.contracts['hyvr.utils.specsim'] = field_contract(I, g, sh, FAC, HA, C, H, gh)
    use = [bool(I.choose(2)) for _ in range(4)] if tr else [False] * 4
    names = [('k_ztrend', 'z'), ('k_xtrend', 'x'), ('n_ztrend', 'z'), ('n_xtrend', 'x')]
    for u, (n, ax) in zip(use, names):
        if u:
            hyd[n] = L(list(z3.Reals(n + '_lo ' + n + '_hi')))
    I.meth(m, 'generate_hydraulic_parameters', [D(hyd)])
    f = I.formals(3, 'cell')
    fac = [1, 1]
    for p, (u, (n, ax)) in enumerate(zip(use, names)):
        if u:
            fac[p // 2] = fac[p // 2] * trend(g, f, n, ax)
    final(I, g, sh, FAC, H, m, gh, kfac=lambda f: fac[0], nfac=lambda f: fac[1], cell=f)


PROOFS += [('internal', lambda I: internal(I, False)), ('trends', lambda I: internal(I, True))]


def elements(I, trends):
    """background cells of every element and the trends of the elements"""
    g, sh, nf, FAC, HA, AEN, H, C, hyd, m, gh = setup(I)
    ns = I.size('n_strata')
    na = z3.Function('n_ae', IS, IS)
    NUM, BG = z3.Function('ae_num', IS, IS, IS), z3.Function('bg_facies', IS, IS, IS)
    SI, AI = z3.Function('stratum_of', IS, IS), z3.Function('element_of', IS, IS)
    s, e = z3.Ints('ts te')
    q, r = I.formals(3, 'q'), I.formals(3, 'r')
    I.assume(z3.ForAll([s], na(s) >= 0, patterns=[na(s)]))
    # every element has a number of its own (C23)
    I.assume(z3.ForAll([s, e], z3.And(SI(NUM(s, e)) == s, AI(NUM(s, e)) == e), patterns=[NUM(s, e)]))
    ok = lambda n: z3.And(SI(n) >= 0, SI(n) < ns, AI(n) >= 0, AI(n) < na(SI(n)), NUM(SI(n), AI(n)) == n)
    # every cell belongs to an element, background cells have the background facies of that element (C12)
    I.assume(z3.ForAll(list(q), z3.And(HA.get(q) >= -1, ok(AEN.get(q))), patterns=[AEN.get(q)]))
    bgf = lambda c: BG(SI(AEN.get(c)), AI(AEN.get(c)))
    I.assume(z3.ForAll(list(q), z3.Implies(HA.get(q) == -1, FAC.get(q) == bgf(q)), patterns=[FAC.get(q)]))
    I.assume(z3.ForAll([s, e], z3.And(BG(s, e) >= 0, BG(s, e) < nf), patterns=[BG(s, e)]))
    names = ('k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend')
    T = {n: [z3.Function('%s_%s' % (n, x), IS, IS, k) for x, k in (('none', z3.BoolSort()), ('lo', RS), ('hi', RS))] for n in names}

    def tparams(s, e):
        return D({n: MaybeNone(T[n][0](s, e), L([T[n][1](s, e), T[n][2](s, e)])) if n in trends else None for n in names})
    aes = Table(I, 'ae', 'hyvr.geo.ae_realization', 'AERealization', 2, fields=dict(num=NUM, bg_facies=BG, type_params=tparams))
    strata = Table(I, 'stratum', 'hyvr.geo.stratum', 'Stratum', 1, fields=dict(
        aes=lambda s: L(n=na(s), get=lambda a: aes.get(s, a)), n_ae=na))
    I.set_attr_raw(m, 'strata', L(n=ns, get=lambda k: strata.get(k)))
    I.set_attr_raw(m, 'n_strata', ns)
    I.set_attr_raw(m, 'generate_heterogeneity', True)
    I.set_attr_raw(m, 'heterogeneity_level', 'internal')
    gh.update(one_k=ufarr('one_k', sh, 'bool'), one_n=ufarr('one_n', sh, 'bool'))
    I.contracts['hyvr.utils.specsim'] = field_contract(I, g, sh, FAC, HA, C, H, gh, bg=lambda a, b: AEN.get(a) == AEN.get(b))
    I.inverse_hints = [lambda ctx, a: [lambda ix: SI(AEN.get(ix)), lambda ix: AI(AEN.get(ix))] if len(a.shape) == 3 else []]
    I.meth(m, 'generate_hydraulic_parameters', [D(hyd)])
    f = I.formals(3, 'cell')
    fac = [1, 1]
    cases = [[[]], [[]]]
    for p, n in enumerate(names):
        if n in trends:
            no, lo, hi = [F(SI(AEN.get(f)), AI(AEN.get(f))) for F in T[n]]
            ax = n[2]
            ng = g.attrs['n' + ax]
            t = lo + z3.ToReal(f['xyz'.index(ax)]) * (hi - lo) / z3.ToReal(ng - 1)
            fac[p // 2] = fac[p // 2] * z3.If(no, 1, z3.If(ng <= 1, lo, t))
            cases[p // 2] = [c + [d] for c in cases[p // 2] for d in (no, z3.And(z3.Not(no), ng <= 1), z3.And(z3.Not(no), ng > 1))]
    final(I, g, sh, FAC, H, m, gh, kfac=lambda f: fac[0], nfac=lambda f: fac[1], cell=f,
          cases=[[c + [d] for c in cs for d in (HA.get(f) == -1, HA.get(f) >= 0)] for cs in cases])
    for k in 'kn':
        I.oblige('background field of one element: ' + k, z3.Implies(HA.get(f) == -1, zbool(gh['one_' + k].get(f))))


Q = dict(quick_ms=400)
PROOFS += [('background', lambda I: elements(I, ()), Q)]
PROOFS += [('element trends', lambda I: elements(I, ('k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend')), Q)]
