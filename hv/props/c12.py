"""C12: every cell belongs to the first object from the top that contains it."""
import z3
from hv.common import *

IS, RS, BS = z3.IntSort(), z3.RealSort(), z3.BoolSort()
KINDS = [('hyvr.geo.sheet_ae', 'SheetAE'), ('hyvr.geo.trough_ae', 'TroughAE'), ('hyvr.geo.channel_ae', 'ChannelAE')]


class AEModel:
    """an arbitrary element (index s of the stratum, a of the element) with its objects.

    IN(o, i, j, z): object o contains the point (contract of maybe_assign_points_to_object, C13-C15);
    the class invariants used are: objects are ordered by their upper ends, contain points between their lower and
    upper ends only, and an object that does not contain a point which a later object contains does not contain
    points below it in the same column either (C11, C13-C15, C17)."""

    def __init__(self, s=None, a=None):
        key = [] if a is None else [zint(s), zint(a)]
        ks = [IS] * len(key)
        U = lambda n, *so: (lambda *x: z3.Function('ae_' + n, *ks, *so)(*key, *x))
        self.IN = U('IN', IS, IS, IS, RS, BS)
        self.F = U('facies', IS, IS, IS, RS, IS)
        self.AZ, self.DP = U('azim', IS, IS, IS, RS, RS), U('dip', IS, IS, IS, RS, RS)
        self.HA = U('ha', IS, IS)
        self.zmin, self.zmax = U('ozmin', IS, RS), U('ozmax', IS, RS)
        self.n = U('n', IS)()
        self.top, self.bot = U('top', IS, IS, RS), U('bottom', IS, IS, RS)
        self.num, self.type, self.bgf = U('num', IS)(), U('type', IS)(), U('bgf', IS)()
        self.bga, self.bgd = U('bga', RS)(), U('bgd', RS)()
        self.sheet = U('sheet', BS)()
        # first object containing the point (defined below when there is one)
        self.first = U('first', IS, IS, RS, IS)

    def any(self, i, j, z):
        """some object contains the point"""
        o = self.first(i, j, z)
        return z3.And(o >= 0, o < self.n, self.IN(o, i, j, z))

    def contains(self, i, j, z):
        return z3.Or(self.any(i, j, z), z3.And(z3.Not(self.sheet), self.bot(i, j) <= z, z <= self.top(i, j)))

    def values(self, i, j, z):
        """facies, element, object, type, azimuth, dip"""
        o = self.first(i, j, z)
        c = self.any(i, j, z)
        return (z3.If(c, self.F(o, i, j, z), self.bgf), self.num, z3.If(c, self.HA(o), -1), self.type,
                z3.If(c, self.AZ(o, i, j, z), self.bga), z3.If(c, self.DP(o, i, j, z), self.bgd))

    def axioms(self, I):
        o, p, i, j = z3.Ints('o p i j')
        z, w = z3.Reals('z w')
        IN, n = self.IN, self.n
        inr = lambda o: z3.And(o >= 0, o < n)
        I.assume(n >= 0)
        # definition of `first`: -1 if no object contains the point
        f = self.first(i, j, z)
        I.assume(z3.ForAll([i, j, z], z3.Or(f == -1, z3.And(inr(f), IN(f, i, j, z))), patterns=[f]))
        I.assume(z3.ForAll([o, i, j, z], z3.Implies(z3.And(inr(o), IN(o, i, j, z)), z3.And(f >= 0, f <= o)),
                           patterns=[z3.MultiPattern(IN(o, i, j, z))]))
        # class invariants
        I.assume(z3.ForAll([o, i, j, z], z3.Implies(z3.And(inr(o), IN(o, i, j, z)), z3.And(self.zmin(o) <= z, z <= self.zmax(o))),
                           patterns=[IN(o, i, j, z)]))
        I.assume(z3.ForAll([o, p], z3.Implies(z3.And(inr(o), inr(p), o <= p), self.zmax(o) >= self.zmax(p)),
                           patterns=[z3.MultiPattern(self.zmax(o), self.zmax(p))]))
        I.assume(z3.ForAll([o, p, i, j, z, w], z3.Implies(
            z3.And(inr(o), inr(p), o < p, IN(p, i, j, z), z3.Not(IN(o, i, j, z)), w <= z), z3.Not(IN(o, i, j, w))),
            patterns=[z3.MultiPattern(IN(p, i, j, z), IN(o, i, j, w))]))
        I.assume(z3.ForAll([o, i, j, z], z3.Implies(z3.And(inr(o), IN(o, i, j, z)), self.F(o, i, j, z) >= 0), patterns=[self.F(o, i, j, z)]))
        I.assume(self.bgf >= 0)

    def none_below(self, oi, i, j, z):
        """objects before oi contain no point of the column at or below z"""
        o, w = z3.Int('o'), z3.Real('w')
        return z3.ForAll([o, w], z3.Implies(z3.And(o >= 0, o < oi, w <= z), z3.Not(self.IN(o, i, j, w))), patterns=[self.IN(o, i, j, w)])

    def obj(self, I, g, kind):
        nx, ny = g.attrs['nx'], g.attrs['ny']
        surf = lambda f: I.obj('hyvr.geo.contact_surface', 'ContactSurface', surface=Arr((nx, ny), 'real', lambda ix: f(zint(ix[0]), zint(ix[1]))))
        v = lambda f, k: Arr((self.n,), k, lambda ix: f(zint(ix[0])))
        o = I.obj(*kind, n_objects=self.n, object_zmins=v(self.zmin, 'real'), object_zmaxs=v(self.zmax, 'real'), num=self.num, type_id=self.type,
                  object_num_ha=v(self.HA, 'int'), bg_facies=self.bgf, bg_azim=self.bga, bg_dip=self.bgd, top_surface=surf(self.top), bottom_surface=surf(self.bot))
        o.m = self
        return o


def in_object(I, v):
    """contract of maybe_assign_points_to_object: C13, C14, C15"""
    m = v['self'].m
    oi, i, j, z = zint(v['oi']), zint(v['x_idx']), zint(v['y_idx']), zreal(v['z'])
    g, p = v['grid'], I.point
    I.oblige('objects are asked about the cell', z3.And(i == p[0], j == p[1], zreal(v['x']) == p[2], zreal(v['y']) == p[3], z == p[4]), 'pre')
    I.oblige('object index', z3.And(oi >= 0, oi < m.n), 'pre')
    I.oblige('grid', z3.BoolVal(g is I.g), 'pre')
    if I.decide(m.IN(oi, i, j, z)):
        I.setitem(v['geo_ids'], 0, m.F(oi, i, j, z))
        I.setitem(v['geo_ids'], 2, m.HA(oi))
        I.setitem(v['angles'], 0, m.AZ(oi, i, j, z))
        I.setitem(v['angles'], 1, m.DP(oi, i, j, z))
    return None


def setup(I):
    for mod, _ in KINDS:
        I.module(mod)
    g = I.g = make_grid(I)
    i, j = z3.Ints('ix iy')
    I.assume(z3.And(i >= 0, j >= 0, i < g.attrs['nx'], j < g.attrs['ny']))
    I.point = (i, j, real('px'), real('py'), real('pz'))
    ids, ang = ufarr('ids', (4,), 'int'), ufarr('ang', (2,))
    for q in range(4):
        I.assume(ids.get((q,)) == -1)
    return g, ids, ang


def check_values(I, m, ids, ang):
    i, j, x, y, z = I.point
    want = m.values(i, j, z)
    for q, nm in enumerate(['facies', 'element number', 'object number', 'element type']):
        I.oblige(nm, z3.Implies(m.contains(i, j, z), zint(ids.get((q,))) == want[q]))
    for q, nm in enumerate(['azimuth', 'dip']):
        I.oblige(nm, z3.Implies(m.contains(i, j, z), zreal(ang.get((q,))) == want[4 + q]))


def element(I, k):
    g, ids, ang = setup(I)
    i, j, x, y, z = I.point
    m = AEModel()
    m.axioms(I)
    I.assume(m.sheet if k == 0 else z3.Not(m.sheet))
    ae = m.obj(I, g, KINDS[k])
    oi = I.size('oi', 0)
    I.assume(oi <= m.n)
    I.assume(m.none_below(oi, i, j, z))
    ids0 = [ids.get((q,)) for q in range(4)]
    r = I.run('hyvr.assign_points', 'maybe_assign_points_to_ae', [ae, ids, ang, x, y, z, i, j, oi, g])
    f = m.first(i, j, z)
    I.oblige('found exactly if the element contains the point', (zint(ids.get((0,))) != -1) == m.contains(i, j, z))
    check_values(I, m, ids, ang)
    r = zint(r)
    I.oblige('returned index', z3.And(r >= 0, r <= m.n))
    o, w = z3.Int('some_o'), z3.Real('some_w')
    I.assume(z3.And(o >= 0, o < r, w <= z))
    I.oblige('objects before the returned one are done', z3.Not(m.IN(o, i, j, w)))


def el(k):
    return lambda I: element(I, k)


class Stack:
    """the elements of a stratum s (or the strata of a model) as seen from outside.

    C(a, i, j, z): element a contains the point; V[q](a, i, j, z): its values; NB(a, o, i, j, z): the objects of the element before o contain no
    point of the column at or below z (postcondition of `element`); same invariants as for the objects of an element (C10)"""

    def __init__(self, s=None, name='st'):
        key = [] if s is None else [zint(s)]
        ks = [IS] * len(key)
        U = lambda n, *so: (lambda *x: z3.Function(name + '_' + n, *ks, *so)(*key, *x))
        self.C = U('C', IS, IS, IS, RS, BS)
        self.V = [U('V%d' % q, IS, IS, IS, RS, IS if q < 4 else RS) for q in range(6)]
        self.NB = U('NB', IS, IS, IS, IS, RS, BS)
        self.nobj = U('nobj', IS, IS)
        self.n = U('n', IS)()
        self.zmin, self.zmax = U('zmin', IS, RS), U('zmax', IS, RS)
        self.first = U('first', IS, IS, RS, IS)
        self.key, self.ks = key, ks

    def axioms(self, I):
        a, b, o, i, j = z3.Ints('a b o i j')
        z, w = z3.Reals('z w')
        qs = [x for x in self.key if z3.is_const(x) and x.decl().name() == 'all_s']
        FA = lambda vs, body, pat: I.assume(z3.ForAll(qs + vs, body, patterns=[pat]))
        C, n = self.C, self.n
        inr = lambda a: z3.And(a >= 0, a < n)
        f = self.first(i, j, z)
        FA([i, j, z], z3.Or(f == -1, z3.And(inr(f), C(f, i, j, z))), f)
        FA([a, i, j, z], z3.Implies(z3.And(inr(a), C(a, i, j, z)), z3.And(f >= 0, f <= a, self.zmin(a) <= z, self.V[0](a, i, j, z) >= 0)), C(a, i, j, z))
        FA([a, b, i, j, z, w], z3.Implies(z3.And(inr(a), inr(b), a < b, C(b, i, j, z), z3.Not(C(a, i, j, z)), w <= z), z3.Not(C(a, i, j, w))),
           z3.MultiPattern(C(b, i, j, z), C(a, i, j, w)))
        FA([a], self.nobj(a) >= 0, self.nobj(a))
        FA([a, i, j, z], self.NB(a, z3.IntVal(0), i, j, z), self.NB(a, z3.IntVal(0), i, j, z))
        FA([a, o, i, j, z, w], z3.Implies(z3.And(self.NB(a, o, i, j, z), w <= z), self.NB(a, o, i, j, w)),
           z3.MultiPattern(self.NB(a, o, i, j, z), self.NB(a, o, i, j, w)))

    def any(self, i, j, z):
        f = self.first(i, j, z)
        return z3.And(f >= 0, f < self.n, self.C(f, i, j, z))

    def none_below(self, a, i, j, z):
        o, w = z3.Int('o'), z3.Real('w')
        return z3.ForAll([o, w], z3.Implies(z3.And(o >= 0, o < a, w <= z), z3.Not(self.C(o, i, j, w))), patterns=[self.C(o, i, j, w)])


def put(I, v, vals):
    for q in range(4):
        I.setitem(v['geo_ids'], q, vals[q])
    for q in range(2):
        I.setitem(v['angles'], q, vals[4 + q])


def ids_clear(I, v):
    I.oblige('cell values are cleared', z3.And(*[zint(v['geo_ids'].get((q,))) == -1 for q in range(4)]), 'pre')


def asked(I, v):
    i, j, z = zint(v['x_idx']), zint(v['y_idx']), zreal(v['z'])
    p = I.point
    I.oblige('asked about the cell', z3.And(i == p[0], j == p[1], zreal(v['x']) == p[2], zreal(v['y']) == p[3], z == p[4]), 'pre')
    I.oblige('grid', z3.BoolVal(v['grid'] is I.g), 'pre')
    ids_clear(I, v)
    return i, j, z


def in_element(I, v):
    """contract of maybe_assign_points_to_ae (proofs element_*)"""
    st, a = v['ae'].m
    oi = zint(v['oi'])
    i, j, z = asked(I, v)
    I.oblige('start index', z3.And(oi >= 0, oi <= st.nobj(a), st.NB(a, oi, i, j, z)), 'pre')
    r = fresh('r')
    I.assume(z3.And(r >= 0, r <= st.nobj(a), st.NB(a, r, i, j, z)))
    if I.decide(st.C(a, i, j, z)):
        put(I, v, [V(a, i, j, z) for V in st.V])
    return r


def stratum(I):
    g, ids, ang = setup(I)
    i, j, x, y, z = I.point
    st = Stack()
    I.assume(st.n >= 0)
    st.axioms(I)

    def ae(a):
        o = I.obj('hyvr.geo.trough_ae', 'TroughAE')
        o.m = (st, zint(a))
        return o
    aes = L(n=st.n, get=ae)
    vec = lambda f: Arr((st.n,), 'real', lambda ix: f(zint(ix[0])))
    aei, oi = I.size('aei', 0), I.size('oi', 0)
    I.assume(z3.And(aei <= st.n, st.none_below(aei, i, j, z), oi <= st.nobj(aei), st.NB(aei, oi, i, j, z)))

    def cand(I, ctx):
        e = ctx.env.vars
        if 'aei' not in e or 'oi' not in e:
            return
        yield 'objects before the current one are done', lambda ctx, kk: z3.And(
            zint(e['oi']) >= 0, zint(e['oi']) <= st.nobj(zint(e['aei'])), st.NB(zint(e['aei']), zint(e['oi']), i, j, z))
    I.loop_cands = [cand]
    r = I.run('hyvr.assign_points', 'maybe_assign_points_to_stratum', [aes, st.n, vec(st.zmax), vec(st.zmin), ids, ang, x, y, z, i, j, aei, oi, g])
    f = st.first(i, j, z)
    I.oblige('found exactly if an element contains the point', (zint(ids.get((0,))) != -1) == st.any(i, j, z))
    for q, nm in enumerate(['facies', 'element number', 'object number', 'element type']):
        I.oblige(nm, z3.Implies(st.any(i, j, z), zint(ids.get((q,))) == st.V[q](f, i, j, z)))
        if q:
            I.oblige(nm + ' stays cleared', z3.Implies(z3.Not(st.any(i, j, z)), zint(ids.get((q,))) == -1))
    for q, nm in enumerate(['azimuth', 'dip']):
        I.oblige(nm, z3.Implies(st.any(i, j, z), zreal(ang.get((q,))) == st.V[4 + q](f, i, j, z)))
    ra, ro = [zint(I.list_getitem(r, q)) for q in range(2)]
    I.oblige('returned indices', z3.And(ra >= 0, ra <= st.n, ro >= 0, ro <= st.nobj(ra), st.NB(ra, ro, i, j, z)))
    o, w = z3.Int('some_o'), z3.Real('some_w')
    I.assume(z3.And(o >= 0, o < ra, w <= z))
    I.oblige('elements before the returned one are done', z3.Not(st.C(o, i, j, w)))


class Strata(Stack):
    """the strata of the model; NB(s, a, o, ...): elements before a and objects before o of stratum s are done (postcondition of `stratum`)"""

    def __init__(self):
        Stack.__init__(self, name='model')
        self.NB2 = z3.Function('model_NB2', IS, IS, IS, IS, IS, RS, BS)
        self.nae = z3.Function('model_nae', IS, IS)

    def axioms(self, I):
        a, b, o, p, i, j = z3.Ints('a b o p i j')
        z, w = z3.Reals('z w')
        FA = lambda vs, body, pat: I.assume(z3.ForAll(vs, body, patterns=[pat]))
        C, n = self.C, self.n
        inr = lambda a: z3.And(a >= 0, a < n)
        f = self.first(i, j, z)
        FA([i, j, z], z3.Or(f == -1, z3.And(inr(f), C(f, i, j, z))), f)
        FA([a, i, j, z], z3.Implies(z3.And(inr(a), C(a, i, j, z)), z3.And(f >= 0, f <= a, self.zmin(a) <= z, self.V[0](a, i, j, z) >= 0)), C(a, i, j, z))
        FA([a, b, i, j, z, w], z3.Implies(z3.And(inr(a), inr(b), a < b, C(b, i, j, z), z3.Not(C(a, i, j, z)), w <= z), z3.Not(C(a, i, j, w))),
           z3.MultiPattern(C(b, i, j, z), C(a, i, j, w)))
        NB = self.NB2
        Z = z3.IntVal(0)
        FA([a, i, j, z], NB(a, Z, Z, i, j, z), NB(a, Z, Z, i, j, z))
        FA([a, p, o, i, j, z, w], z3.Implies(z3.And(NB(a, p, o, i, j, z), w <= z), NB(a, p, o, i, j, w)),
           z3.MultiPattern(NB(a, p, o, i, j, z), NB(a, p, o, i, j, w)))


def in_stratum(I, v):
    """contract of maybe_assign_points_to_stratum (proof `stratum`)"""
    s = getattr(v['stratum_aes'], 'ghost', None)
    if s is None:
        raise Unsupported('elements of an unknown stratum')
    st = I.strata
    i, j, z = zint(v['x_idx']), zint(v['y_idx']), zreal(v['z'])
    I.oblige('cell coordinates', z3.And(i >= 0, j >= 0, i < I.g.attrs['nx'], j < I.g.attrs['ny'],
                                        zreal(v['x']) == I.gx(i), zreal(v['y']) == I.gy(j)), 'pre')
    I.oblige('number of elements and their bounds are those of the stratum', z3.And(
        zint(v['n_ae']) == st.nae(s), z3.BoolVal(getattr(v['ae_zmins'], 'ghost', None) is not None and v['ae_zmins'].ghost.eq(s))), 'pre')
    I.oblige('grid', z3.BoolVal(v['grid'] is I.g), 'pre')
    ids_clear(I, v)
    a, o = zint(v['aei']), zint(v['oi'])
    I.oblige('start indices', st.NB2(s, a, o, i, j, z), 'pre')
    ra, ro = fresh('ra'), fresh('ro')
    if I.decide(st.C(s, i, j, z)):
        put(I, v, [V(s, i, j, z) for V in st.V])
    I.assume(st.NB2(s, ra, ro, i, j, z))
    return L([ra, ro], tup=True)


NAMES = ['facies', 'ae', 'ha', 'hat', 'azim', 'dip']


def cells(I):
    for mod, _ in KINDS:
        I.module(mod)
    R = lambda n: z3.Function(n, IS, RS)
    I.gx, I.gy = R('gx'), R('gy')
    gz = R('gz')
    nx, ny, nz = I.size('nx'), I.size('ny'), I.size('nz')
    I.lemma_gen('columns', [nx, ny], lambda a, b: ([a >= 1, b >= 1], a * b >= 1))
    p, q = z3.Ints('p q')
    I.assume(z3.ForAll([p, q], z3.Implies(p <= q, gz(p) <= gz(q)), patterns=[z3.MultiPattern(gz(p), gz(q))]))
    vec = lambda f, n: Arr((n,), 'real', lambda ix: f(zint(ix[0])))
    full = lambda f, d: Arr((nx, ny, nz), 'real', lambda ix: f(zint(ix[d])))
    g = I.g = I.obj('hyvr.geo.grid', 'Grid', nx=nx, ny=ny, nz=nz, x=vec(I.gx, nx), y=vec(I.gy, ny), z=vec(gz, nz),
                    X=full(I.gx, 0), Y=full(I.gy, 1), Z=full(gz, 2))
    st = I.strata = Strata()
    I.assume(st.n >= 1)
    st.axioms(I)
    # the strata cover the domain (C10)
    i, j, k = z3.Ints('i j k')
    I.assume(z3.ForAll([i, j, k], z3.Implies(z3.And(i >= 0, i < nx, j >= 0, j < ny, k >= 0, k < nz), st.any(i, j, gz(k))),
                       patterns=[st.first(i, j, gz(k))]))

    def strat(s):
        s = zint(s)
        aes = L(n=st.nae(s), get=lambda a: Poison('element'))
        lo, hi = ufarr('aezmin', (st.nae(s),)), ufarr('aezmax', (st.nae(s),))
        aes.ghost = lo.ghost = hi.ghost = s
        return I.obj('hyvr.geo.stratum', 'Stratum', aes=aes, n_ae=st.nae(s), ae_zmins=lo, ae_zmaxs=hi)
    cache = {}

    def get(s):
        key = z3.simplify(zint(s)).sexpr()
        if key not in cache:
            cache[key] = strat(s)
        return cache[key]
    model = I.obj('hyvr.geo.model', 'Model', grid=g, n_strata=st.n, strata=L(n=st.n, get=get), strata_zmins=vec(st.zmin, st.n),
                  strata_zmaxs=vec(st.zmax, st.n), data=D({}))
    spec = {n: (lambda i, j, k, q=q: st.V[q](st.first(i, j, gz(k)), i, j, gz(k))) for q, n in enumerate(NAMES)}
    spec['strata'] = lambda i, j, k: st.first(i, j, gz(k))
    I.spec_cells = spec

    def cand(I, ctx):
        e = ctx.env.vars
        if not all(n in e for n in ('si', 'aei', 'oi')):
            return
        col = lambda: (zint(e['x_idx']), zint(e['y_idx']))
        if not ctx.isfor:          # search for the stratum
            def at(ctx, kk):
                i, j = col()
                return z3.And(zint(e['si']) >= 0, st.any(i, j, zreal(e['z'])), st.none_below(zint(e['si']), i, j, zreal(e['z'])))
            yield 'strata before the current one are done', at
            yield 'elements and objects', lambda ctx, kk: st.NB2(zint(e['si']), zint(e['aei']), zint(e['oi']), *col(), zreal(e['z']))
        elif ctx.isfor:
            yield 'current stratum', lambda ctx, kk: z3.And(zint(e['si']) >= 0, zint(e['si']) <= st.n)
            yield 'strata before the current one are done for the rest of the column', lambda ctx, kk: st.none_below(zint(e['si']), *col(), gz(nz - 1 - kk))
            yield 'elements and objects for the rest', lambda ctx, kk: st.NB2(zint(e['si']), zint(e['aei']), zint(e['oi']), *col(), gz(nz - 1 - kk))
            yield 'the lowest strata are not passed', lambda ctx, kk: z3.Implies(kk < nz, zint(e['si']) < st.n)
        for n, f in spec.items():
            a = e.get(n + '_array')
            if a is None or id(a) not in ctx.arrs or not ctx.inv.get(id(a)):
                continue

            def at(ctx, kk, a=a, f=f):
                i, j, k = z3.Ints('i j k')
                return z3.ForAll([i, j, k], z3.Implies(z3.And(I.in_shape((i, j, k), (nx, ny, nz)), ctx.inv[id(a)]((i, j, k)) < kk, ctx.inv[id(a)]((i, j, k)) >= 0, *(
                    [] if 'x_idx' not in e or not ctx_is_column(ctx) else [i == zint(e['x_idx']), j == zint(e['y_idx'])])), a.get((i, j, k)) == f(i, j, k)),
                    patterns=[st.first(i, j, gz(k))])
            yield n + ' of the cells so far', at
    I.loop_cands = [cand]
    I.run('hyvr.assign_points', 'assign_points', [model])
    c = I.formals(3, 'cell')
    I.assume(I.in_shape(c, (nx, ny, nz)))
    data = I.attr(model)('data')
    I.lemma_gen('column number', [c[0], c[1], nx, ny], lambda a, b, m, n: (
        [a >= 0, a < m, b >= 0, b < n], z3.And(a * n + b >= 0, a * n + b < m * n)))
    for n, f in spec.items():
        a = data.items[n]
        I.oblige(n + ': one value per cell', z3.And(*[zint(x) == y for x, y in zip(a.shape, (nx, ny, nz))]))
        v = a.get(c)
        I.oblige(n + ' of the first stratum that contains the cell', (zreal(v) if n in ('azim', 'dip') else zint(v)) == f(*c))


def ctx_is_column(ctx):
    return getattr(ctx.s, 'target', None) is not None and getattr(ctx.s.target, 'id', '') == 'z_idx'


OBJ = {'%s.%s.maybe_assign_points_to_object' % k: in_object for k in KINDS}
AE = {'hyvr.assign_points.maybe_assign_points_to_ae': in_element}
ST = {'hyvr.assign_points.maybe_assign_points_to_stratum': in_stratum}
PROOFS = [('element_' + k[1], el(q), dict(contracts=OBJ)) for q, k in enumerate(KINDS)] + [
    ('stratum', stratum, dict(contracts=AE)), ('cells', cells, dict(contracts=ST, quick_ms=400))]
