"""C11: the sheets of an element tile it from top to bottom."""
import z3
from hv.common import *
from hv.props.c10 import CLIP, SURF, CS, new_surface, havoc_surface, IS, RS

M = 'hyvr.geo.sheet_ae'


def sheets(I):
    for m in (M, CS, 'hyvr.geo.sheet', 'hyvr.geo.ae_realization'):
        I.module(m)
    g = I.spec_grid = make_grid(I)
    G = g.attrs
    nx, ny = G['nx'], G['ny']
    bottom, top = new_surface(I, g, 'aebottom'), new_surface(I, g, 'aetop')
    i, j = z3.Ints('ci cj')
    c = z3.And(i >= 0, j >= 0, i < nx, j < ny)
    B0, T0 = bottom.attrs['surface'].get, top.attrs['surface'].get
    I.assume(z3.ForAll([i, j], z3.Implies(c, B0((i, j)) <= T0((i, j))), patterns=[B0((i, j)), T0((i, j))]))
    lo, hi = z3.Reals('ae_zmin ae_zmax')
    I.assume(lo < hi)
    case = I.choose(3)
    lens = real('lens_thickness')
    tr = z3.Reals('trend_bottom trend_top')
    if case:
        I.assume(lens > 0)
    tp = D(dict(lens_thickness=lens if case else -1, size_ztrend=L(list(tr)) if case == 2 else None))
    T = None
    if case == 1:
        T = lens
    if case == 2:
        # linear between model bottom and top, at the middle of the element
        zc = (lo + hi) / 2
        fac = z3.If(zc <= G['z0'], tr[0], z3.If(zc >= G['zmax'], tr[1], tr[0] + (tr[1] - tr[0]) * (zc - G['z0']) / G['lz']))
        T = lens * fac
    zl, zu = z3.Function('sheet_zmin', IS, RS), z3.Function('sheet_zmax', IS, RS)
    objs = Table(I, 'sheet', 'hyvr.geo.sheet', 'Sheet', 1, fields=dict(zmin=zl, zmax=zu))
    ae = I.obj(M, 'SheetAE', type_params=tp, top_surface=top, bottom_surface=bottom, zmin=lo, zmax=hi,
               object_list=L([]), object_zmin_list=L([]), object_zmax_list=L([]))
    ghost = I.obj(M, 'SheetAE', count=0, last=top)
    I.obj_makers = {CS + '.ContactSurface': havoc_surface}
    I.on_surface = lambda s, kw: None
    val = lambda s: zreal(s.attrs['surface'].get((i, j)))

    def sheet(I, args, kw):
        a = dict(zip(('type_params', 'bottom_surface', 'top_surface', 'grid'), args), **kw)
        b, t, k = a['bottom_surface'], a['top_surface'], ghost.attrs['count']
        I.oblige('a sheet starts exactly where the one above ends (the first at the top of the element)',
                 z3.Implies(c, val(t) == val(ghost.attrs['last'])), 'pre')
        I.oblige('surfaces of a sheet do not cross', z3.Implies(c, val(b) <= val(t)), 'pre')
        I.oblige('the sheet is within the element', z3.Implies(c, z3.And(val(b) >= B0((i, j)), val(t) <= T0((i, j)))), 'pre')
        I.oblige('parameters of the type and the grid', z3.BoolVal(a['type_params'] is tp and a['grid'] is g), 'pre')
        if T is not None and b is not bottom:
            z = hi - (z3.ToReal(zint(k)) + 1) * T
            mn = z3.If(z < val(t), z, val(t))
            I.oblige('one lens thickness below the sheet above, cut at the surfaces of the element',
                     z3.Implies(c, val(b) == z3.If(mn > B0((i, j)), mn, B0((i, j)))), 'pre')
        I.set_attr_raw(ghost, 'count', z3.simplify(zint(k) + 1))
        I.set_attr_raw(ghost, 'last', b)
        I.assume(zint(k) < objs.caps[0])
        return objs.get(k)
    I.contracts['hyvr.geo.sheet.Sheet'] = sheet

    def cand(I, ctx):
        if ctx.isfor:
            return
        v = ctx.env.vars
        gl = lambda: ghost.attrs['last']
        at = lambda n: ctx.env.vars.get(n)
        allc = lambda f: z3.ForAll([i, j], z3.Implies(c, f), patterns=triggers(f, i, j))
        yield 'bottom unchanged', lambda ctx, kk: allc(val(bottom) == B0((i, j)))
        yield 'top unchanged', lambda ctx, kk: allc(val(top) == T0((i, j)))
        yield 'last above the bottom', lambda ctx, kk: allc(val(gl()) >= B0((i, j)))
        yield 'last below the top', lambda ctx, kk: allc(val(gl()) <= T0((i, j)))
        yield 'at most one', lambda ctx, kk: zint(kk) <= 1
        for n, x in v.items():
            if isinstance(x, Obj) and x.cls is top.cls:
                yield n + ' is the last surface', lambda ctx, kk, n=n: allc(val(at(n)) == val(gl()))
            if kind_of(x) == 'bool':
                for sg in (True, False):
                    b = lambda n, sg=sg: zbool(at(n)) if sg else z3.Not(zbool(at(n)))
                    yield n + ' means finished', lambda ctx, kk, n=n, b=b: z3.Implies(b(n), z3.And(
                        zint(kk) > 0, allc(val(gl()) == B0((i, j)))))
                    yield n + ' after the first', lambda ctx, kk, n=n, b=b: z3.Or(zint(kk) == 0, b(n))
    I.loop_cands = [cand]
    I.meth(ae, 'generate_objects', [g])
    a = I.attr(ae)
    n = zint(ghost.attrs['count'])
    I.oblige('at least one sheet', n >= 1)
    I.oblige('the last sheet ends at the bottom of the element', z3.Implies(c, val(ghost.attrs['last']) == B0((i, j))))
    I.oblige('the surfaces of the element are not moved', z3.Implies(c, z3.And(val(bottom) == B0((i, j)), val(top) == T0((i, j)))))
    if case == 0:
        I.oblige('a massive element is one sheet', n == 1)
    I.oblige('every sheet is an object of the element', zint(a('object_list').length()) == n)
    (e,) = I.formals(1, 'sheet')
    I.assume(z3.And(e >= 0, e < n))
    I.oblige('sheets from top to bottom', zint(I.list_getitem(a('object_list'), e).ref[1][0]) == e)
    I.oblige('bounds of the sheets', z3.And(zreal(I.list_getitem(a('object_zmin_list'), e)) == zl(e),
                                            zreal(I.list_getitem(a('object_zmax_list'), e)) == zu(e)))


from hv.props import c13          # noqa: E402
PROOFS = [('sheets', sheets, dict(contracts={**SURF, **CLIP}, quick_ms=400)), c13.PROOFS[0]]
