"""C10: strata and architectural elements tile the model from top to bottom (and C23: their numbers)."""
import z3
from hv.common import *

MO, ST, CS = 'hyvr.geo.model', 'hyvr.geo.stratum', 'hyvr.geo.contact_surface'
IS, RS = z3.IntSort(), z3.RealSort()
PARAMS = 'bg_facies bg_azim bg_dip ae_prob ae_z_mean avul avul_prob strata'.split()


def new_surface(I, g, name='surf'):
    nx, ny = g.attrs['nx'], g.attrs['ny']
    zm = fresh('zmean', 'real')
    return I.obj(CS, 'ContactSurface', surface=ufarr(name, (nx, ny), unique=True), nx=nx, ny=ny, z=zm, zmean=zm,
                 zmin=fresh('zmin', 'real'), zmax=fresh('zmax', 'real'))


def havoc_surface(I):
    s = new_surface(I, I.spec_grid, 'hsurf')
    s.frozen = True
    return s


def surface_contract(I, args, kw):
    """ContactSurface(grid, **params): proved in C09 (flat: exactly z; random: any values with mean near z)"""
    g = I.spec_grid
    I.oblige('surfaces are made on the model grid', args[0] is g, 'pre')
    s = new_surface(I, g)
    mode = kw.get('mode')
    z = kw.get('z', 0.0)
    s.attrs['z'] = z
    if isinstance(mode, str) and mode.lower() == 'flat':
        s.attrs.update(zmean=z, zmin=z, zmax=z)
        I.arr_write(s.attrs['surface'], lambda ix: z3.BoolVal(True), lambda ix: z)
    I.on_surface(s, kw)
    return s


def clip_contract(low):
    def h(I, v):
        s, o = v['self'], v['other_surface']
        if s.frozen:
            raise Unsupported('surface known only by invariant')
        A, B = s.attrs['surface'], o.attrs['surface'].get
        old = A.get
        pick = (lambda x, y: z3.If(x < y, x, y)) if low else (lambda x, y: z3.If(x > y, x, y))
        I.arr_write(A, lambda ix: z3.BoolVal(True), lambda ix: pick(zreal(old(ix)), zreal(B(ix))))
        I.set_attr_raw(s, 'zmin' if low else 'zmax', fresh('bound', 'real'))
    return h


CLIP = {CS + '.ContactSurface.use_lower_surface_value': clip_contract(True),
        CS + '.ContactSurface.use_higher_surface_value': clip_contract(False)}
SURF = {CS + '.ContactSurface': surface_contract}


def same(I, a, b):
    """two surfaces agree in every column"""
    i, j = z3.Ints('si sj')
    va, vb = zreal(a.attrs['surface'].get((i, j))), zreal(b.attrs['surface'].get((i, j)))
    return z3.ForAll([i, j], z3.Implies(I.in_shape((i, j), a.attrs['surface'].shape), va == vb))


def eq(a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return z3.BoolVal(a == b)
    if is_z(a) or is_z(b):
        return a == b if is_z(a) and is_z(b) and a.sort() == b.sort() else zreal(a) == zreal(b)
    return z3.BoolVal(a is b)


def model_setup(I):
    for m in (MO, ST, CS):
        I.module(m)
    g = I.spec_grid = make_grid(I)
    ns = I.size('n_strata')
    na, nt = z3.Function('n_ae', IS, IS), z3.Function('n_types', IS, IS)
    no = z3.Function('n_obj', IS, IS, IS)
    q, r = z3.Ints('q r')
    I.assume(z3.ForAll([q], z3.And(na(q) >= 0, nt(q) >= 1), patterns=[na(q), nt(q)]))
    I.assume(z3.ForAll([q, r], no(q, r) >= 0, patterns=[no(q, r)]))
    objs = Table(I, 'obj', 'hyvr.geo.trough', 'Trough', 3, cells=dict(num_ha='int'))
    aes = Table(I, 'ae', 'hyvr.geo.ae_realization', 'AERealization', 2, cells=dict(num='int'),
                vcells=dict(object_num_ha=('int', lambda s, a: no(s, a))),
                fields=dict(object_list=lambda s, a: L(n=no(s, a), get=lambda o: objs.get(s, a, o)), n_objects=no))
    zmin, zmax = z3.Function('st_zmin', IS, RS), z3.Function('st_zmax', IS, RS)
    strata = Table(I, 'stratum', ST, 'Stratum', 1, fields=dict(
        aes=lambda s: L(n=na(s), get=lambda a: aes.get(s, a)), n_ae=na, zmin=zmin, zmax=zmax))
    return g, ns, na, nt, no, objs, aes, strata, zmin, zmax


def generate_model(I):
    g, ns, na, nt, no, objs, aes, strata, zmin, zmax = model_setup(I)
    q, r = z3.Ints('q r')
    # parameters: lists with one entry per stratum, from bottom to top
    P = {p: z3.Function('par_' + p, IS, RS) for p in PARAMS}
    sd = {p: L(n=ns, get=lambda i, p=p: P[p](zint(i))) for p in PARAMS}
    cm = dict(z=z3.Function('cm_z', IS, RS), var=z3.Function('cm_var', IS, RS))
    sd['contact_models'] = L(n=ns - 1, get=lambda i: D(dict(mode='random', z=cm['z'](zint(i)), var=cm['var'](zint(i)),
                                                            corlx=real('corlx'), corly=real('corly'))))
    tname = z3.Function('type_name', IS, IS, IS)
    sd['ae_in_strata'] = L(n=ns, get=lambda i: L(n=nt(zint(i)), get=lambda j, i=i: tname(zint(i), zint(j))))
    types = Table(I, 'aetype', 'hyvr.geo.ae_types', 'AEType', 1, fields=dict(tid=lambda t: t))
    m = I.obj(MO, 'Model', grid=g, strata_dict=D(sd), ae_types=D({}, default=lambda t: types.get(t)),
              strata=uflist('old_strata', I.size('n_old', 0)), n_strata=z3.Int('old_n'))      # whatever an earlier realisation left
    ghost = I.obj(ST, 'Stratum', count=0, last=new_surface(I, g, 'top0'))
    i, j = z3.Ints('ci cj')
    I.arr_write(ghost.attrs['last'].attrs['surface'], lambda ix: z3.BoolVal(True), lambda ix: g.attrs['zmax'])
    I.obj_makers = {CS + '.ContactSurface': havoc_surface}
    I.on_surface = lambda s, kw: I.set_attr_raw(ghost, 'made', kw.get('z')) if 'made' in ghost.attrs else None

    def stratum(I, args, kw):
        bottom, top, params, types, grid = args
        k = ghost.attrs['count']
        e = zint(ns) - 1 - zint(k)
        c = z3.And(i >= 0, j >= 0, i < g.attrs['nx'], j < g.attrs['ny'])
        B, T, La = [zreal(s.attrs['surface'].get((i, j))) for s in (bottom, top, ghost.attrs['last'])]
        I.oblige('a stratum starts exactly where the one above ends (the first at the model top)', z3.Implies(c, T == La), 'pre')
        I.oblige('surfaces of a stratum do not cross', z3.Implies(c, B <= T), 'pre')
        I.oblige('the lowest stratum ends at the model bottom', z3.Implies(
            z3.And(c, zint(k) == ns - 1), B == z3.If(T < g.attrs['z0'], T, g.attrs['z0'])), 'pre')
        I.oblige('the contact model of this stratum', z3.Implies(
            zint(k) < ns - 1, zreal(bottom.attrs['z']) == cm['z'](e - 1)), 'pre')
        for p in PARAMS:
            I.oblige('parameter %s of this stratum' % p, eq(params.items.get(p), P[p](e)), 'pre')
        I.oblige('on the model grid', z3.BoolVal(grid is g), 'pre')
        I.oblige('as many element types as listed', zint(types.length()) == nt(e), 'pre')
        (t,) = I.formals(1, 'type')
        I.oblige('element types of this stratum', z3.Implies(
            z3.And(t >= 0, t < nt(e)), zint((types.get(t) if types.sym else I.list_getitem(types, 0)).attrs['tid']) == tname(e, t)), 'pre')
        I.set_attr_raw(ghost, 'count', z3.simplify(zint(k) + 1))
        I.set_attr_raw(ghost, 'last', bottom)
        I.assume(zint(k) < strata.caps[0])
        return strata.get(k)
    I.contracts[ST + '.Stratum'] = stratum
    OA, OS, OH = z3.Function('aes_above', IS, IS), z3.Function('objs_above', IS, IS), z3.Function('objs_before', IS, IS, IS)
    I.assume(z3.And(OA(0) == 0, OS(0) == 0))
    I.assume(z3.ForAll([q], z3.Implies(q >= 0, OA(q + 1) == OA(q) + na(q)), patterns=[na(q)]))
    I.assume(z3.ForAll([q], OH(q, 0) == OS(q), patterns=[OS(q)]))
    I.assume(z3.ForAll([q], z3.Implies(q >= 0, OS(q + 1) == OH(q, na(q))), patterns=[na(q)]))
    I.assume(z3.ForAll([q, r], z3.Implies(r >= 0, OH(q, r + 1) == OH(q, r) + no(q, r)), patterns=[no(q, r)]))

    def cand(I, ctx):
        v = ctx.env.vars
        top = [n for n, x in v.items() if isinstance(x, Obj) and x.cls is ghost.attrs['last'].cls]
        for n in top:
            yield n + ' is the last surface', lambda ctx, kk, n=n: same(I, ctx.env.vars[n], ghost.attrs['last']) \
                if isinstance(ctx.env.vars.get(n), Obj) else None
        for i, loc in ctx.locs.items():
            if kind_of(loc.get()) != 'int' or i in ctx.ind:
                continue
            yield '%s = elements above' % loc, lambda ctx, kk, loc=loc: zint(loc.get()) == OA(zint(kk))
            yield '%s = objects above' % loc, lambda ctx, kk, loc=loc: zint(loc.get()) == OS(zint(kk))
            for n, x in v.items():
                if isinstance(x, Obj) and x.ref is not None and x.ref[0] is strata:
                    yield '%s = objects before' % loc, lambda ctx, kk, loc=loc, s=x.ref[1][0]: zint(loc.get()) == OH(zint(s), zint(kk))
    I.loop_cands = [cand]
    I.meth(m, 'generate_model', [])
    a = I.attr(m)
    I.oblige('number of strata', z3.And(zint(a('n_strata')) == ns, zint(a('strata').length()) == ns, zint(ghost.attrs['count']) == ns))
    s, e, o = I.formals(3, 'num')
    I.assume(z3.And(s >= 0, s < ns))
    st = I.list_getitem(a('strata'), s)
    I.oblige('strata in the order of generation, from the top', z3.And(z3.BoolVal(isinstance(st, Obj) and st.ref is not None), zint(st.ref[1][0]) == s))
    I.oblige('stratum bounds', z3.And(zreal(a('strata_zmins').get((s,))) == zmin(s), zreal(a('strata_zmaxs').get((s,))) == zmax(s)))
    I.assume(z3.And(e >= 0, e < na(s), e < aes.caps[1], s < aes.caps[0]))
    I.oblige('elements are numbered from top to bottom over all strata', zint(I.getattr_(aes.get(s, e), 'num')) == OA(s) + e)
    I.assume(z3.And(o >= 0, o < no(s, e), o < aes.caps[2], s < objs.caps[0], e < objs.caps[1], o < objs.caps[2]))
    want = OH(s, e) + o
    I.oblige('objects are numbered consecutively over all elements', zint(I.getattr_(objs.get(s, e, o), 'num_ha')) == want)
    I.oblige('the object arrays hold the same numbers', zint(I.getattr_(aes.get(s, e), 'object_num_ha').get((o,))) == want)


PROOFS = [('generate_model', generate_model, dict(contracts={**SURF, **CLIP}, quick_ms=400))]


def prob_choose(I):
    I.module(ST)
    n = I.size('n')
    P = z3.Function('prob', IS, RS)
    q = z3.Int('q')
    I.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), P(q) >= 0), patterns=[P(q)]))
    w = z3.Int('w')
    I.assume(z3.And(w >= 0, w < n, P(w) > 0))
    types = Table(I, 'aetype', 'hyvr.geo.ae_types', 'AEType', 1)
    r = I.run(ST, 'prob_choose', [L(n=n, get=lambda i: types.get(i)), L(n=n, get=lambda i: P(zint(i)))])
    t = zint(r.ref[1][0])
    I.oblige('one of the types', z3.And(t >= 0, t < n))
    I.oblige('of positive probability', P(t) > 0)


def choose_contract(I, v):
    """postcondition of the proof prob_choose"""
    I.oblige('types and their probabilities', z3.And(z3.BoolVal(v['types'] is I.spec_types), z3.BoolVal(v['probs'] is I.spec_probs)), 'pre')
    u = fresh('type')
    I.assume(z3.And(u >= 0, u < I.spec_types.length(), zreal(I.spec_probs.get(u)) > 0))
    return I.spec_types.get(u)


def stratum(I):
    for m in (MO, ST, CS, 'hyvr.geo.ae_types', 'hyvr.geo.ae_realization'):
        I.module(m)
    g = I.spec_grid = make_grid(I)
    nx, ny = g.attrs['nx'], g.attrs['ny']
    nt = I.size('n_types')
    P, H = z3.Function('prob', IS, RS), z3.Function('height', IS, RS)
    nm = z3.Function('type_name', IS, IS)
    cmz = D(dict(mode='random', z=real('cm_z'), var=real('var'), corlx=real('corlx'), corly=real('corly')))
    types = Table(I, 'aetype', 'hyvr.geo.ae_types', 'AEType', 1,
                  fields=dict(tid=lambda t: t, name=lambda t: nm(t), params=lambda t: D(dict(contact_model=cmz))))
    tl = I.spec_types = L(n=nt, get=lambda i: types.get(i))
    pl = I.spec_probs = L(n=nt, get=lambda i: P(zint(i)))
    params = D(dict(strata='s', bg_facies=z3.Int('bgf'), bg_azim=real('bga'), bg_dip=real('bgd'), ae_prob=pl,
                    ae_z_mean=L(n=nt, get=lambda i: H(zint(i))), avul=interval('avul'), avul_prob=L([real('avul_p')])))
    bottom, top = new_surface(I, g, 'sbottom'), new_surface(I, g, 'stop')
    i, j = z3.Ints('ci cj')
    c = z3.And(i >= 0, j >= 0, i < nx, j < ny)
    SB0, ST0 = bottom.attrs['surface'].get, top.attrs['surface'].get
    I.assume(z3.ForAll([i, j], z3.Implies(c, SB0((i, j)) <= ST0((i, j))), patterns=[SB0((i, j)), ST0((i, j))]))
    ez = z3.Function('ae_zmin', IS, RS), z3.Function('ae_zmax', IS, RS)
    elems = Table(I, 'elem', 'hyvr.geo.ae_realization', 'AERealization', 1, fields=dict(zmin=ez[0], zmax=ez[1]))
    ghost = I.obj(ST, 'Stratum', count=0, last=top)
    I.obj_makers = {CS + '.ContactSurface': havoc_surface}
    I.on_surface = lambda s, kw: None
    val = lambda s: zreal(s.attrs['surface'].get((i, j)))

    def realization(I, v):
        t = v['self'].ref[1][0]
        b, tp, k = v['bottom_surface'], v['top_surface'], ghost.attrs['count']
        I.oblige('an element starts exactly where the one above ends (the first at the top of the stratum)',
                 z3.Implies(c, val(tp) == val(ghost.attrs['last'])), 'pre')
        I.oblige('surfaces of an element do not cross', z3.Implies(c, val(b) <= val(tp)), 'pre')
        I.oblige('the element ends in the stratum', z3.Implies(c, val(b) >= SB0((i, j))), 'pre')
        I.oblige('the type is listed with positive probability', z3.And(zint(t) >= 0, zint(t) < nt, P(zint(t)) > 0), 'pre')
        I.oblige('in this stratum and grid', z3.BoolVal(v['grid'] is g and v['stratum'].attrs.get('params') is params), 'pre')
        I.set_attr_raw(ghost, 'count', z3.simplify(zint(k) + 1))
        I.set_attr_raw(ghost, 'last', b)
        I.assume(zint(k) < elems.caps[0])
        return elems.get(k)
    I.contracts['hyvr.geo.ae_types.AEType.generate_realization'] = realization

    def cand(I, ctx):
        if ctx.isfor:
            return
        v = ctx.env.vars
        gl = lambda: ghost.attrs['last']
        surf = [n for n, x in v.items() if isinstance(x, Obj) and x.cls is top.cls]
        at = lambda n: ctx.env.vars.get(n)
        p, r = z3.Ints('ci cj')
        allc = lambda f, *pat: z3.ForAll([p, r], z3.Implies(c, f), patterns=triggers(f, p, r))
        yield 'stratum bottom unchanged', lambda ctx, kk: allc(val(bottom) == SB0((p, r)), val(bottom))
        yield 'last is above the stratum bottom', lambda ctx, kk: allc(val(gl()) >= SB0((p, r)), val(gl()))
        for n in surf:
            yield n + ' is the last surface', lambda ctx, kk, n=n: allc(val(at(n)) == val(gl()), val(at(n)))
        for n, x in v.items():
            if isinstance(x, Obj) and x.ref is not None and x.ref[0] is types:
                yield n + ' is a possible type', lambda ctx, kk, n=n: z3.And(
                    zint(at(n).ref[1][0]) >= 0, zint(at(n).ref[1][0]) < nt, P(zint(at(n).ref[1][0])) > 0)
            if kind_of(x) == 'real':
                yield n + ' above the bottom or finished', lambda ctx, kk, n=n: z3.Or(
                    zint(kk) == 0, zreal(at(n)) > zreal(bottom.attrs['zmean']), allc(val(gl()) == SB0((p, r)), val(gl())))
                yield n + ' finished', lambda ctx, kk, n=n: z3.Implies(zint(kk) > 0, zreal(at(n)) >= zreal(bottom.attrs['zmean']))
        for n, x in v.items():
            if isinstance(x, Obj) and x.attrs.get('params') is params:
                for f, z, s in (('zmin', ez[0], 1), ('zmax', ez[1], -1)):
                    e = z3.Int('e')
                    yield f + ' encloses the elements so far', lambda ctx, kk, x=x, f=f, z=z, s=s: z3.ForAll(
                        [e], z3.Implies(z3.And(e >= 0, e < zint(kk)), s * zreal(x.attrs[f]) <= s * z(e)), patterns=[z(e)])
    I.loop_cands = [cand]
    o = I.new(ST, 'Stratum', [bottom, top, params, tl, g])
    a = I.attr(o)
    n = zint(ghost.attrs['count'])
    I.oblige('an element unless the stratum has no thickness', z3.Or(n > 0, zreal(top.attrs['zmean']) <= zreal(bottom.attrs['zmean'])))
    I.assume(n > 0)
    I.oblige('the last element ends at the bottom of the stratum', z3.Implies(c, val(ghost.attrs['last']) == SB0((i, j))))
    I.oblige('the bottom of the stratum is not moved', z3.Implies(c, val(bottom) == SB0((i, j))))
    I.oblige('bounding surfaces', z3.And(z3.BoolVal(a('bottom_surface') is bottom), z3.BoolVal(a('top_surface') is top)))
    I.oblige('number of elements', z3.And(zint(a('n_ae')) == n, zint(a('aes').length()) == n))
    I.oblige('background', z3.And(eq(a('bg_facies'), z3.Int('bgf')), eq(a('bg_azim'), real('bga')), eq(a('bg_dip'), real('bgd'))))
    (e,) = I.formals(1, 'elem')
    I.assume(z3.And(e >= 0, e < n))
    I.oblige('elements from top to bottom', zint(I.list_getitem(a('aes'), e).ref[1][0]) == e)
    for f, z, s in (('zmin', ez[0], 1), ('zmax', ez[1], -1)):
        arr = a('ae_%ss' % f)
        I.oblige('ae_%ss' % f, z3.And(zint(arr.shape[0]) == n, zreal(arr.get((e,))) == z(e)))
        I.oblige('%s encloses the elements' % f, s * zreal(a(f)) <= s * z(e))


PROOFS += [('prob_choose', prob_choose),
           ('stratum', stratum, dict(contracts={**SURF, **CLIP, ST + '.prob_choose': choose_contract}, quick_ms=400))]


def element(I):
    """AERealization.__init__: bounding surfaces, type and background of an element"""
    AE = 'hyvr.geo.ae_realization'
    kind = [('hyvr.geo.sheet_ae', 'SheetAE'), ('hyvr.geo.trough_ae', 'TroughAE'), ('hyvr.geo.channel_ae', 'ChannelAE')][I.choose(3)]
    for m in (AE, kind[0]):
        I.module(m)
    g = I.spec_grid = make_grid(I)
    b, t = make_surface(I, 'b', g), make_surface(I, 't', g)
    nan = float('nan')
    f, fs = z3.Ints('bg_facies st_facies')
    I.assume(z3.And(f >= -1, fs >= -1))
    own = I.choose(2), I.choose(2)
    az, di = [real('bg_' + s) if own[q] else nan for q, s in enumerate(('azim', 'dip'))]
    for v, w in zip((az, di), own):
        if w:
            I.assume(z3.Not(zbool(I.isnan(v))))
    st = I.obj(ST, 'Stratum', bg_facies=fs, bg_azim=real('st_azim'), bg_dip=real('st_dip'))
    tid = z3.Int('ae_id')
    tp = D(dict(ae_id=tid, bg_facies=f, bg_azim=az, bg_dip=di))
    nothing = lambda I, v: None
    for q in ('_create_common_object_arrays', 'create_object_arrays', 'generate_objects'):
        for c in (AE + '.AERealization.', kind[0] + '.' + kind[1] + '.'):
            I.contracts[c + q] = nothing
    o = I.new(kind[0], kind[1], [b, t, 'name', tp, st, g])
    a = I.attr(o)
    I.oblige('bounding surfaces', z3.And(z3.BoolVal(a('bottom_surface') is b), z3.BoolVal(a('top_surface') is t)))
    I.oblige('bounds enclose the surfaces', z3.And(zreal(a('zmin')) <= b.attrs['zmin'], zreal(a('zmax')) >= t.attrs['zmax']))
    I.oblige('type', z3.And(zint(a('type_id')) == tid, z3.BoolVal(a('type_params') is tp and a('type_name') == 'name')))
    I.oblige('background facies of the element, otherwise of the stratum', zint(a('bg_facies')) == z3.If(f != -1, f, fs))
    I.oblige('background azimuth', zreal(a('bg_azim')) == (az if own[0] else st.attrs['bg_azim']))
    I.oblige('background dip', zreal(a('bg_dip')) == (di if own[1] else st.attrs['bg_dip']))


def realization(I):
    """AEType.generate_realization: an element of the geometry of the type between the given surfaces"""
    m = 'hyvr.geo.ae_types'
    I.module(m)
    geo, cls = [('trough', 'hyvr.geo.trough_ae.TroughAE'), ('channel', 'hyvr.geo.channel_ae.ChannelAE'),
                ('sheet', 'hyvr.geo.sheet_ae.SheetAE'), ('cube', None)][I.choose(4)]
    sect = D(dict(geometry=geo, structure=['massive', 'flat', 'dip'][I.choose(3)]))
    args = [L([]) for _ in range(4)]
    made = []
    for c in ('hyvr.geo.trough_ae.TroughAE', 'hyvr.geo.channel_ae.ChannelAE', 'hyvr.geo.sheet_ae.SheetAE'):
        def h(I, a, kw, c=c):
            names = 'bottom_surface top_surface type_name type_params stratum grid'.split()
            made.append((c, {**dict(zip(names, a)), **kw}))
            return D({})
        I.contracts[c] = h
    t = I.new(m, 'AEType', [sect, 'clay'])
    r = I.run_exc(m, 'AEType.generate_realization', [t] + args)
    if cls is None:
        I.oblige('unknown geometry is refused', z3.BoolVal(r[0] == 'exc' and not made))
        return
    I.oblige('one element of the geometry of the type', z3.BoolVal(r[0] == 'ok' and [c for c, v in made] == [cls]))
    if len(made) == 1:
        v = made[0][1]
        I.oblige('between the given surfaces', z3.BoolVal(v['bottom_surface'] is args[0] and v['top_surface'] is args[1]))
        I.oblige('of this type, stratum and grid', z3.BoolVal(
            v['type_name'] == 'clay' and v['type_params'] is sect and v['stratum'] is args[2] and v['grid'] is args[3]))


PROOFS += [('element', element), ('realization', realization)]
