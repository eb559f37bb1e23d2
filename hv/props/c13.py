"""C13: membership in sheets and their dipping layers."""
import z3
from hv.common import *


def sheet_invariant(I, g, o, bottom_zmean):
    """what Sheet.__init__ establishes for a sheet with dipping layers (proved by sheet_init)"""
    a = o if isinstance(o, dict) else o.attrs
    s, c = (lambda t: I.trig('sin', t)), (lambda t: I.trig('cos', t))
    K, P = zreal(a['azim']) * PI / 180, zreal(a['dip']) * PI / 180
    n = [-s(P) * c(K), s(P) * s(K), c(P)]
    G = g.attrs
    sh = n[0] * (G['x0'] + G['lx'] / 2) + n[1] * (G['y0'] + G['ly'] / 2) + n[2] * zreal(bottom_zmean)
    return n, sh


def sheet_init(I):
    g = make_grid(I)
    bot, top = make_surface(I, 'bot', g), make_surface(I, 'top', g)
    dip = I.choose(2)
    ld = real('dipset_dist')
    I.assume(ld > 0)
    tp = D(dict(structure=['massive', 'dip'][dip], dipset_dist=ld, azimuth=interval('az'), dip=interval('dip'),
                facies=facies_list(I)))
    o = I.new('hyvr.geo.sheet', 'Sheet', [tp, bot, top, g])
    a = I.attr(o)
    I.oblige('the sheet lies between the given surfaces',
             z3.And(a('bottom_surface') is bot, a('top_surface') is top,
                    zreal(a('zmin')) == bot.attrs['zmin'], zreal(a('zmax')) == top.attrs['zmax']))
    I.oblige('azimuth from the given range', between(I, tp.items['azimuth'], a('azim')))
    I.oblige('dip from the given range', between(I, tp.items['dip'], a('dip')))
    I.oblige('dipping layers exactly for structure dip', zbool(a('dipsets')) == z3.BoolVal(bool(dip)))
    if not dip:
        I.oblige('one facies of the element', ISF(zint(a('facies'))))
        return
    n, sh = sheet_invariant(I, g, dict(azim=a('azim'), dip=a('dip')), bot.attrs['zmean'])
    for x, w in zip('xyz', n):
        I.oblige('normal vector component ' + x, zreal(a('normvec_' + x)) == w)
    I.oblige('layer distance', zreal(a('layer_dist')) == ld)
    I.oblige('zero plane through the centre of the bottom, shifted by less than a layer',
             z3.And(zreal(a('shift')) - sh >= 0, zreal(a('shift')) - sh <= ld))
    G = g.attrs
    I.oblige('enough layers', z3.ToReal(zint(a('num_facies'))) >= (G['lx'] + G['ly'] + 2 * G['lz']) / ld + 10)
    I.oblige('alternating facies of this length', zint(a('facies_array').shape[0]) == zint(a('num_facies')))
    i = z3.Int('layer')
    I.assume(z3.And(i >= 0, i < zint(a('num_facies'))))
    I.oblige('layers have facies of the element', ISF(a('facies_array').get((i,))))


REAL = 'azim dip layer_dist normvec_x normvec_y normvec_z shift zmin zmax'.split()
INT = 'num_facies facies num_ha'.split()


def membership(I):
    g = make_grid(I)
    n = I.size('n_objects')
    G = g.attrs
    nx, ny = G['nx'], G['ny']
    IS = z3.IntSort()
    RS = z3.RealSort()
    T, B = z3.Function('top_surf', IS, IS, IS, RS), z3.Function('bot_surf', IS, IS, IS, RS)
    FA = z3.Function('facies_arr', IS, IS, IS)
    zm = z3.Function('bot_zmean', IS, RS)
    dips = z3.Function('dipsets', IS, z3.BoolSort())
    nf = z3.Function('s_num_facies', IS, IS)

    def surf(F, i):
        return I.obj('hyvr.geo.contact_surface', 'ContactSurface', zmean=zm(i), nx=nx, ny=ny,
                     surface=Arr((nx, ny), 'real', lambda ix: F(i, zint(ix[0]), zint(ix[1]))))
    fields = {f: 'real' for f in REAL}
    fields.update({f: 'int' for f in INT})
    fields.update(dipsets=dips, top_surface=lambda i: surf(T, i), bottom_surface=lambda i: surf(B, i),
                  facies_array=lambda i: Arr((nf(i),), 'int', lambda ix: FA(i, zint(ix[0]))))
    objs = I.records('s', n, 'hyvr.geo.sheet', 'Sheet', fields)
    q = z3.Int('q')
    I.assume(z3.ForAll([q], nf(q) >= 0))
    ae = I.obj('hyvr.geo.sheet_ae', 'SheetAE', object_list=objs, n_objects=n,
               object_zmin_list=uflist('s_zmin', n), object_zmax_list=uflist('s_zmax', n))
    I.meth(ae, '_create_common_object_arrays', [])
    I.meth(ae, 'create_object_arrays', [])
    oi, i, j = I.formals(3, 'ix')
    I.assume(z3.And(oi >= 0, oi < n, i >= 0, i < nx, j >= 0, j < ny))
    x, y, z = real('x'), real('y'), real('z')
    o = objs.get(oi).attrs
    # precondition: the point lies in the domain, the sheet is one made by Sheet.__init__ in this domain
    inside = lambda v, lo, l: z3.And(v >= lo, v <= lo + l)
    I.assume(z3.And(inside(x, G['x0'], G['lx']), inside(y, G['y0'], G['ly']), inside(z, G['z0'], G['lz']),
                    inside(zm(oi), G['z0'], G['lz'])))
    nv, sh = sheet_invariant(I, g, o, zm(oi))
    if I.choose(2):
        I.assume(dips(oi))
        for c, w in zip('xyz', nv):
            I.assume(o['normvec_' + c] == w)
        I.assume(o['layer_dist'] > 0)
        I.assume(z3.And(o['shift'] - sh >= 0, o['shift'] - sh <= o['layer_dist']))
        I.assume(z3.ToReal(nf(oi)) >= (G['lx'] + G['ly'] + 2 * G['lz']) / o['layer_dist'] + 10)
        # lemmas for the bound of the layer number (checked)
        N = [o['normvec_' + c] for c in 'xyz']
        I.oblige('lemma: unit normal vector', N[0] * N[0] + N[1] * N[1] + N[2] * N[2] == 1, 'lemma')
        for k in range(3):
            I.oblige('lemma: |n%d| <= 1' % k, z3.And(N[k] <= 1, N[k] >= -1), 'lemma')
        e = [x - (G['x0'] + G['lx'] / 2), y - (G['y0'] + G['ly'] / 2), z - zm(oi)]
        h = [G['lx'] / 2, G['ly'] / 2, G['lz']]
        for k in range(3):
            I.lemma('lemma: |n e| <= h', z3.And(N[k] * e[k] <= h[k], -h[k] <= N[k] * e[k]),
                    [z3.And(N[k] <= 1, N[k] >= -1), z3.And(e[k] <= h[k], e[k] >= -h[k])])
        d = N[0] * x + N[1] * y + N[2] * z - o['shift']
        tot = h[0] + h[1] + h[2]
        I.oblige('lemma: distance to the zero plane', z3.And(d <= tot, d >= -tot - o['layer_dist']), 'lemma')
        u = d / o['layer_dist']
        w = tot / o['layer_dist']
        I.lemma('lemma: layer number', z3.And(u <= w, u >= -w - 1), [o['layer_dist'] > 0, d <= tot, d >= -tot - o['layer_dist']])
        I.oblige('lemma: number of layers', z3.ToReal(nf(oi)) >= 2 * w + 10, 'lemma')
        wi = z3.ToInt(w)
        layer = trunc(u) + nf(oi) / 2
        I.oblige('lemma: layer index', z3.And(layer >= 0, layer < nf(oi)), 'lemma')
    else:
        I.assume(z3.Not(dips(oi)))
    ids, ang = ufarr('ids', (4,), 'int'), ufarr('ang', (2,))
    id0, an0 = [ids.get((k,)) for k in range(4)], [ang.get((k,)) for k in range(2)]
    I.meth(ae, 'maybe_assign_points_to_object', [oi, ids, ang, x, y, z, i, j, g], verified=True)
    isin = z3.And(z >= B(oi, i, j), z <= T(oi, i, j))
    f = zint(ids.get((0,)))
    I.oblige('outside: not assigned', z3.Implies(z3.Not(isin), f == -1))
    want = z3.If(dips(oi), FA(oi, trunc((N[0] * x + N[1] * y + N[2] * z - o['shift']) / o['layer_dist']) + nf(oi) / 2),
                 o['facies']) if 'N' in locals() else o['facies']
    I.oblige('inside: facies of the sheet or of the layer', z3.Implies(isin, f == want))
    I.oblige('inside: azimuth and dip of the sheet', z3.Implies(isin, z3.And(zreal(ang.get((0,))) == o['azim'], zreal(ang.get((1,))) == o['dip'])))
    I.oblige('inside: object number', z3.Implies(isin, zint(ids.get((2,))) == o['num_ha']))
    I.oblige('frame: other entries', z3.And(zint(ids.get((1,))) == id0[1], zint(ids.get((3,))) == id0[3]))


PROOFS = [('sheet_init', sheet_init, dict(contracts=ALT)), ('membership', membership, dict(lazy_branch=True))]
