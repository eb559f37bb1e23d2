"""C17: placement and size of troughs and channels."""
import z3
from hv.common import *

TU = 'hyvr.geo.trough_utils'
IS, RS = z3.IntSort(), z3.RealSort()


def linear_trend(g, z, lo, hi):
    G = g.attrs
    return lo + (z - G['z0']) * (hi - lo) / G['lz']


def trough_params(I):
    """size and orientation of one trough"""
    g = make_grid(I)
    l, w, d, lo, hi, z = (real(n) for n in ('length', 'width', 'depth', 'trend_bottom', 'trend_top', 'z'))
    p0, p1 = real('paleo_lo'), real('paleo_hi')
    I.assume(p0 <= p1)
    tr = I.choose(2)
    tp = D(dict(length=l, width=w, depth=d, size_ztrend=L([lo, hi]) if tr else None, paleoflow=L([p0, p1])))
    r = I.run(TU, 'rand_trough_params', [tp, z, g])
    f = linear_trend(g, z, lo, hi) if tr else 1
    get = lambda n: zreal(I.getitem(r, n))
    I.oblige('half length', get('a') == l * f / 2)
    I.oblige('half width', get('b') == w * f / 2)
    I.oblige('depth', get('c') == d * f)
    I.oblige('orientation within the range of the flow directions', z3.And(get('alpha') >= p0, get('alpha') <= p1))


def positions(I, migrate):
    g = make_grid(I)
    G = g.attrs
    I.module('hyvr.geo.contact_surface')
    bz, tz, depth, buf, agg, dens = (real(n) for n in ('bottom_zmax', 'top_zmean', 'depth', 'buffer', 'agg', 'density'))
    I.assume(z3.And(agg > 0, dens >= 0))
    bottom = I.obj('hyvr.geo.contact_surface', 'ContactSurface', zmax=bz, zmean=real('bottom_zmean'), zmin=real('bottom_zmin'))
    top = I.obj('hyvr.geo.contact_surface', 'ContactSurface', zmax=real('top_zmax'), zmean=tz, zmin=real('top_zmin'))
    mx, my = real('mig_x'), real('mig_y')
    tp = D(dict(depth=depth, buffer=buf, agg=agg, trough_density=dens, migrate=L([mx, 0, my, 0]) if migrate else None))
    I.columns = True

    def level(m):
        if z3.is_app_of(m, z3.Z3_OP_ITE):
            return z3.If(m.arg(0), level(m.arg(1)), level(m.arg(2)))
        return z3.simplify(tz - agg * z3.ToReal(m))
    bound = bz + depth * buf
    cap = I.size('ghost_cap')
    LV = ufarr('level', (cap,), 'int')      # ghost: the level of every trough
    first = I.obj('hyvr.geo.contact_surface', 'ContactSurface', n=0)     # ghost: number of troughs on the first level

    def on_append(l, v):
        z = zreal(I.list_getitem(v, 2))
        lv = [m for c in list(I.counters) + [z3.IntVal(0)] for m in (c, c + 1) if I.entails(z == level(m))]
        m = lv[0] if lv else fresh('h_level')
        n = zint(l.n)
        I.assume(n < cap)
        I.arr_write(LV, lambda ix: zint(ix[0]) == n, lambda ix: m)
        if I.entails(m == 0):
            I.set_attr_raw(first, 'n', z3.simplify(n + 1))
    I.on_append = on_append
    j, q = z3.Ints('cj cq')

    def cand(I, ctx):
        def at(f, two=False):
            def fn(ctx, kk):
                for l in ctx.env.vars.values():
                    if isinstance(l, CL) and l.struct is None:
                        return z3.BoolVal(True)          # still empty
                    if isinstance(l, CL):
                        n = zint(l.n)
                        el = lambda i: [zreal(l.get(i).items[c]) for c in range(3)]
                        b = z3.Implies(z3.And(j >= 0, j < n), f(zint(LV.get((j,))), el, n, kk)) if not two else \
                            z3.Implies(z3.And(j >= 0, j < q, q < n), f(zint(LV.get((j,))), zint(LV.get((q,))), n, kk))
                        v = (j, q) if two else (j,)
                        return z3.ForAll(list(v), b, patterns=triggers(b, *v))
            return fn
        yield 'on a level', at(lambda lv, el, n, kk: el(j)[2] == level(lv))
        yield 'above the bottom', at(lambda lv, el, n, kk: el(j)[2] > bound)
        yield 'levels count from the top', at(lambda lv, el, n, kk: lv >= 0)
        yield 'from top to bottom', at(lambda a, b, n, kk: a <= b, True)
        for sh in (0, 1):
            for c in range(len(I.counters)):
                yield 'level at most that of loop %d + %d' % (c, sh), at(lambda lv, el, n, kk, c=c, sh=sh: lv <= I.counters[c] + sh)
            yield 'level at most %d more than iterations' % (sh - 1), at(lambda lv, el, n, kk, sh=sh: lv < kk + sh)
        if migrate:
            n0 = lambda: zint(first.attrs['n'])
            level_of = lambda i: zint(LV.get((i,)))
            above = lambda el, lv, c: z3.Implies(lv >= 1, z3.And(j >= n0(), level_of(j - n0()) == lv - 1,
                                                                el(j)[c] == el(j - n0())[c] + (mx, my)[c]))
            yield 'some', lambda ctx, kk: n0() >= 0
            for c in (0, 1):
                yield 'displaced %d' % c, at(lambda lv, el, n, kk, c=c: above(el, lv, c))
            for sh in (0, 1):
                yield 'last level %d' % sh, at(lambda lv, el, n, kk, sh=sh: z3.Implies(j >= n - n0(), lv == kk + sh))
                if I.counters:
                    yield 'level above %d' % sh, at(lambda lv, el, n, kk, sh=sh: z3.Implies(
                        z3.And(j >= n - kk - n0(), j < n - kk), lv == I.counters[-1] + sh))
        if not migrate:
            yield 'x in the domain', at(lambda lv, el, n, kk: z3.And(el(j)[0] >= G['x0'], el(j)[0] <= G['xmax']))
            yield 'y in the domain', at(lambda lv, el, n, kk: z3.And(el(j)[1] >= G['y0'], el(j)[1] <= G['ymax']))
    I.loop_cands = [cand]
    out = I.run(TU, 'generate_trough_positions', [bottom, top, tp, g])
    n = zint(out.length())
    j, k = I.formals(2, 'trough')
    I.assume(z3.And(j >= 0, j < n))
    t = I.list_getitem(out, j)
    x, y, z = [zreal(I.list_getitem(t, q)) for q in range(3)]
    m = zint(LV.get((j,)))
    I.oblige('on a level spaced by the aggradation distance from the top', z3.And(m >= 0, z == level(m)))
    I.oblige('above the bottom', z > bound)
    I.oblige('from top to bottom', z3.Implies(z3.And(k > j, k < n), z >= zreal(I.list_getitem(out.get(k), 2))))
    if not migrate:
        I.oblige('in the domain at random', z3.And(x >= G['x0'], x <= G['xmax'], y >= G['y0'], y <= G['ymax']))

    else:
        n0 = zint(first.attrs['n'])
        with I.context(list(I.pc) + [m >= 1]):
            I.oblige('a trough of the level above', z3.And(j - n0 >= 0, zint(LV.get((j - n0,))) == m - 1))
            up = [zreal(I.list_getitem(out.get(j - n0), q)) for q in range(2)]
            I.oblige('displaced from that trough', z3.And(x == up[0] + mx, y == up[1] + my))


def trough_objects(I, given):
    """TroughAE.generate_objects: one trough per position, with the sizes of its elevation"""
    A = 'hyvr.geo.trough_ae'
    I.module(A), I.module('hyvr.geo.trough'), I.module('hyvr.geo.contact_surface')
    g = make_grid(I)
    l, w, d, lo, hi = (real(x) for x in ('length', 'width', 'depth', 'trend_bottom', 'trend_top'))
    p0, p1 = real('paleo_lo'), real('paleo_hi')
    I.assume(p0 <= p1)
    tr = I.choose(2)
    n = I.size('n_positions', 0)
    P = [z3.Function('pos_' + x, IS, RS) for x in 'xyz']
    pos = L(n=n, get=lambda i: L([F(zint(i)) for F in P]))
    tp = D(dict(length=l, width=w, depth=d, size_ztrend=L([lo, hi]) if tr else None, paleoflow=L([p0, p1]), te_xyz=pos if given else None))
    surf = lambda nm: I.obj('hyvr.geo.contact_surface', 'ContactSurface', zmean=real(nm + '_zmean'), zmax=real(nm + '_zmax'), zmin=real(nm + '_zmin'))
    top, bottom = surf('top'), surf('bottom')
    I.columns = True
    zl, zu = z3.Function('trough_zmin', IS, RS), z3.Function('trough_zmax', IS, RS)
    objs = Table(I, 'trough', 'hyvr.geo.trough', 'Trough', 1, fields=dict(zmin=zl, zmax=zu))
    ae = I.obj(A, 'TroughAE', type_params=tp, top_surface=top, bottom_surface=bottom, zmin=real('ae_zmin'), zmax=real('ae_zmax'),
               object_list=CL(I), object_zmin_list=CL(I), object_zmax_list=CL(I))
    ghost = I.obj(A, 'TroughAE', count=0)

    def positions(I, v):
        I.oblige('positions between the surfaces of the element', z3.BoolVal(
            v['bottom_surface'] is bottom and v['top_surface'] is top and v['type_params'] is tp and v['grid'] is g), 'pre')
        return pos
    I.contracts['hyvr.geo.trough_utils.generate_trough_positions'] = positions

    def trough(I, args, kw):
        k = zint(ghost.attrs['count'])
        perm = I.last_sort[0] if given else (lambda i: i)
        a = {x: zreal(kw[x]) for x in ('x', 'y', 'z', 'a', 'b', 'c', 'alpha')}
        I.oblige('parameters of the type', z3.BoolVal(len(args) == 1 and args[0] is tp), 'pre')
        I.oblige('at its position', z3.And(*[a[x] == F(perm(k)) for x, F in zip('xyz', P)]), 'pre')
        f = linear_trend(g, a['z'], lo, hi) if tr else 1
        I.oblige('size at its elevation', z3.And(a['a'] == l * f / 2, a['b'] == w * f / 2, a['c'] == d * f), 'pre')
        I.oblige('orientation within the range of the flow directions', z3.And(a['alpha'] >= p0, a['alpha'] <= p1), 'pre')
        I.set_attr_raw(ghost, 'count', z3.simplify(k + 1))
        I.assume(k < objs.caps[0])
        return objs.get(k)
    I.contracts['hyvr.geo.trough.Trough'] = trough

    def cand(I, ctx):
        j = z3.Int('cj')
        al = lambda f: z3.ForAll([j], f, patterns=triggers(f, j))
        ls = lambda: [ae.attrs[x] for x in ('object_list', 'object_zmin_list', 'object_zmax_list')]
        for q in range(3):
            yield 'length %d' % q, lambda ctx, kk, q=q: zint(ls()[q].n) == zint(ghost.attrs['count'])
        def listed(ctx, kk):
            l = ls()[0]
            return z3.BoolVal(True) if l.struct is None else al(z3.Implies(z3.And(j >= 0, j < zint(l.n)), zint(l.get(j).ref[1][0]) == j))
        yield 'objects in order', listed
    I.loop_cands = [cand]
    I.meth(ae, 'generate_objects', [g])
    a = I.attr(ae)
    I.oblige('one trough per position', zint(ghost.attrs['count']) == n)
    I.oblige('every trough is an object of the element', zint(a('object_list').length()) == n)
    (e,) = I.formals(1, 'trough')
    I.assume(z3.And(e >= 0, e < n))
    I.oblige('objects in the order of generation', zint(I.list_getitem(a('object_list'), e).ref[1][0]) == e)
    if given:
        perm, inv = I.last_sort
        I.oblige('every given position has its trough', z3.And(inv(e) >= 0, inv(e) < n, *[F(perm(inv(e))) == F(e) for F in P]))
        (f,) = I.formals(1, 'below')
        I.assume(z3.And(e <= f, f < n))
        I.oblige('from top to bottom', P[2](perm(e)) >= P[2](perm(f)))


def clipped_trend(g, z, lo, hi):
    G = g.attrs
    return z3.If(z <= G['z0'], lo, z3.If(z >= G['zmax'], hi, lo + (hi - lo) * (z - G['z0']) / G['lz']))


def subterms(t):
    seen, todo, out = set(), [t], []
    while todo:
        x = todo.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            out.append(x)
            todo += x.children()
    return out


def channel_objects(I, mig):
    """ChannelAE.generate_objects: levels, sizes and starting points of the channels"""
    A, CU = 'hyvr.geo.channel_ae', 'hyvr.geo.channel_utils'
    I.module(A), I.module('hyvr.geo.channel'), I.module('hyvr.geo.contact_surface')
    g = make_grid(I)
    G = g.attrs
    w, d, lo, hi, agg, buf, ang = (real(x) for x in ('width', 'depth', 'trend_bottom', 'trend_top', 'agg', 'buffer', 'flow_angle'))
    h, k, ds, eps = (real(x) for x in ('h', 'k', 'ds', 'eps_factor'))
    I.assume(agg > 0)
    tr = I.choose(2)
    nch = I.size('channel_no')
    M = real('mig')
    I.assume(M >= 0)
    tp = D(dict(width=w, depth=d, size_ztrend=L([lo, hi]) if tr else None, agg=agg, buffer=buf, flow_angle=ang, h=h, k=k, ds=ds,
                eps_factor=eps, channel_no=nch, mig=M if mig else None))
    surf = lambda nm: I.obj('hyvr.geo.contact_surface', 'ContactSurface', zmean=real(nm + '_zmean'), zmax=real(nm + '_zmax'), zmin=real(nm + '_zmin'))
    top, bottom = surf('top'), surf('bottom')
    T, B = top.attrs['zmean'], bottom.attrs['zmean']
    trend = lambda z: clipped_trend(g, z, lo, hi) if tr else z3.RealVal(1)
    I.columns = True
    zl, zu = z3.Function('channel_zmin', IS, RS), z3.Function('channel_zmax', IS, RS)
    objs = Table(I, 'channel', 'hyvr.geo.channel', 'Channel', 1, fields=dict(zmin=zl, zmax=zu))
    ae = I.obj(A, 'ChannelAE', type_params=tp, top_surface=top, bottom_surface=bottom, zmin=real('ae_zmin'), zmax=real('ae_zmax'),
               object_list=CL(I), object_zmin_list=CL(I), object_zmax_list=CL(I))
    ghost = I.obj(A, 'ChannelAE', count=0, last=T)
    fa = ang * PI / 180
    sn, cs = I.trig('sin', fa), I.trig('cos', fa)
    ab = lambda t: z3.If(t < 0, -t, t)
    length = ab(G['lx'] * cs) + ab(G['ly'] * sn)
    across = ab(G['lx'] * sn) + ab(G['ly'] * cs)
    curve = {}

    def ferguson(I, v):
        pre = lambda n, c: I.oblige(n, c, 'pre')
        pre('shape parameters of the type', z3.And(z3.BoolVal(v['grid'] is g), zreal(v['h']) == h, zreal(v['k']) == k, zreal(v['ds']) == ds,
                                                   zreal(v['eps_factor']) == eps))
        pre('flow direction', zreal(v['flow_angle']) == fa)
        pre('long enough to cross the domain', zreal(v['domain_length']) == length)
        W, dx, dy = zreal(v['width']), zreal(v['xstart']) - (G['x0'] + G['lx'] / 2), zreal(v['ystart']) - (G['y0'] + G['ly'] / 2)
        along, off = dx * cs + dy * sn, dy * cs - dx * sn
        pre('starts at the upstream edge of the domain', along == -(length + W) / 2)
        if not mig:
            t = [x for x in subterms(z3.simplify(off)) if z3.is_app(x) and z3.is_real(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED
                 and I.poly_zero(off - x)]
            pre('start drawn across the domain', off == t[0] if t else z3.And(off >= -across / 2, off <= across / 2))
            if t:
                pre('start within the width of the domain', z3.And(t[0] >= -across / 2, t[0] <= across / 2))
        m = I.size('n_centerline', 0)
        O = ufarr('centerline', (m, 4), unique=True)
        curve.update(W=W, O=O, m=m)
        return O
    I.contracts[CU + '.ferguson_curve'] = ferguson

    def channel(I, args, kw):
        n = zint(ghost.attrs['count'])
        a = dict(zip(('type_params', 'x', 'y', 'vx', 'vy', 'z', 'width', 'depth', 'grid'), args), **kw)
        pre = lambda n, c: I.oblige(n, c, 'pre')
        pre('parameters of the type', z3.BoolVal(a['type_params'] is tp and a['grid'] is g))
        z, W, dp = zreal(a['z']), zreal(a['width']), zreal(a['depth'])
        lv = [m for c in list(I.counters) + [z3.IntVal(0)] for m in (c + 1, c) if I.entails(z == T - agg * z3.ToReal(m))]
        m = z3.simplify(lv[0]) if lv else fresh('h_level')
        pre('on a level spaced by the aggradation distance from the top', z3.And(m >= 1, z == T - agg * z3.ToReal(m)))
        pre('above the bottom plus the buffer', z > B + d * trend((T + B) / 2) * buf)
        pre('from top to bottom', z <= zreal(ghost.attrs['last']))
        pre('width at its elevation', z3.And(W == w * trend(z), W == curve['W']))
        pre('depth at its elevation', dp == d * trend(z))
        (q,) = I.formals(1, 'pt')
        ok = z3.And(q >= 0, q < curve['m'])
        for c, x in enumerate(('x', 'y', 'vx', 'vy')):
            pre('centerline ' + x, z3.And(zint(a[x].shape[0]) == curve['m'], z3.Implies(ok, zreal(a[x].get((q,))) == curve['O'].get((q, z3.IntVal(c))))))
        I.set_attr_raw(ghost, 'count', z3.simplify(n + 1))
        I.set_attr_raw(ghost, 'last', z)
        I.assume(n < objs.caps[0])
        return objs.get(n)
    I.contracts['hyvr.geo.channel.Channel'] = channel

    def cand(I, ctx):
        j = z3.Int('cj')
        ls = lambda: [ae.attrs[x] for x in ('object_list', 'object_zmin_list', 'object_zmax_list')]
        for q in range(3):
            yield 'length %d' % q, lambda ctx, kk, q=q: zint(ls()[q].n) == zint(ghost.attrs['count'])

        def listed(ctx, kk):
            l = ls()[0]
            if l.struct is None:
                return z3.BoolVal(True)
            f = z3.Implies(z3.And(j >= 0, j < zint(l.n)), zint(l.get(j).ref[1][0]) == j)
            return z3.ForAll([j], f, patterns=triggers(f, j))
        yield 'objects in order', listed
        for n, x in ctx.env.vars.items():
            if kind_of(x) == 'real':
                yield 'last above ' + n, lambda ctx, kk, n=n: zreal(ghost.attrs['last']) >= zreal(ctx.env.vars[n])
    I.loop_cands = [cand]
    I.meth(ae, 'generate_objects', [g])
    a = I.attr(ae)
    n = zint(ghost.attrs['count'])
    I.oblige('every channel is an object of the element', zint(a('object_list').length()) == n)
    (e,) = I.formals(1, 'channel')
    I.assume(z3.And(e >= 0, e < n))
    I.oblige('objects in the order of generation', zint(I.list_getitem(a('object_list'), e).ref[1][0]) == e)

Q = dict(quick_ms=400)
PROOFS = [('trough_params', trough_params), ('positions', lambda I: positions(I, False), Q), ('migrating', lambda I: positions(I, True), Q)]
PROOFS += [('trough objects', lambda I: trough_objects(I, False), Q), ('given troughs', lambda I: trough_objects(I, True), Q)]
PROOFS += [('channel objects', lambda I: channel_objects(I, False), Q), ('migrating channels', lambda I: channel_objects(I, True), Q)]


def centreline(I):
    CU = 'hyvr.geo.channel_utils'
    g = make_grid(I)
    G = g.attrs
    h, k, ds, eps, ang, dl, xs, ys, w = (real(x) for x in ('h', 'k', 'ds', 'eps', 'angle', 'length', 'xstart', 'ystart', 'width'))
    I.assume(z3.And(ds > 0, dl > 0, w > 0))
    m = I.size('n_interp')
    th = ufarr('theta_interp', (m,))

    def theta(I, v):
        n = zint(v['s'].shape[0])
        return ufarr('theta', (n,), unique=True)

    def interp(I, v):
        return L([ufarr('s_interp', (m,)), th], tup=True)
    I.contracts[CU + '.ferguson_theta'] = theta
    I.contracts['hyvr.optimized.curve_interp'] = interp
    O = I.run(CU, 'ferguson_curve', [g, h, k, ds, eps, ang, dl, xs, ys, w])
    means = [t for v, t in getattr(I, 'means', []) if isinstance(v, Arr) and I.entails(z3.And(
        zint(v.shape[0]) == m, *[zreal(v.get((q,))) == th.get((q,)) for q in I.formals(1, 'mq')]))]
    I.oblige('rotated by the mean direction', z3.BoolVal(bool(means) and len(O.shape) == 2 and hasattr(I, 'last_rows')))
    rot = ang - means[0]
    sr, cr = I.trig('sin', rot), I.trig('cos', rot)
    n, row, rank = I.last_rows
    I.oblige('one row per point', z3.And(zint(O.shape[0]) == n, zint(O.shape[1]) == 4))
    q, r = I.formals(2, 'pt')
    I.assume(z3.And(q >= 0, q < n))
    c, s = I.trig('cos', th.get((row(q),))), I.trig('sin', th.get((row(q),)))
    at = lambda i, k: zreal(O.get((i, z3.IntVal(k))))
    step = ds + z3.Q(1, 10 ** 10)
    I.oblige('velocity along the curve, turned into the flow direction', z3.And(at(q, 2) == step * (cr * c - sr * s), at(q, 3) == step * (sr * c + cr * s)))
    I.oblige('only points near the domain', z3.And(at(q, 0) >= G['x0'] - w, at(q, 0) <= G['xmax'] + w))
    with I.context(list(I.pc) + [row(q) == 0]):
        I.oblige('starts at the starting point', z3.And(at(q, 0) == xs, at(q, 1) == ys))

PROOFS += [('centreline', centreline, Q)]
