"""Loop rules (see hv.engine): unrolling, and for symbolic trip counts an analysis of the body
from a havoced state giving

* induction variables (v = v0 + c*k) and reset variables,
* inductive invariants: template candidates plus candidates supplied by the contract, filtered by
  Houdini (initiation + preservation, both by the solver),
* parallel arrays: cells written by at most one iteration, identified by an inverse of the write
  index; the final contents are the ite over the body's paths at that iteration,
* the search rule: when the loop was left after k iterations, all earlier ones ended normally,
* one-append-per-iteration lists.

Everything else that the body modifies is havoced.
"""
import ast
from fractions import Fraction

import z3

from hv.engine import *          # noqa: F401,F403
from hv.engine import _Break, _Continue, _Return, _cnt


class LoopCarried(Unsupported):
    pass


class Loc:
    """a mutable location: variable, attribute, dict entry or list"""
    def __init__(self, kind, obj, key):
        self.kind, self.obj, self.key = kind, obj, key

    @property
    def id(self):
        return (self.kind, id(self.obj), self.key if self.kind != 'list' else None)

    def get(self):
        if self.kind == 'var':
            return self.obj.vars.get(self.key, MISSING)
        if self.kind == 'attr':
            return self.obj.attrs.get(self.key, MISSING)
        if self.kind == 'dict':
            return self.obj.items.get(self.key, MISSING)
        return self.obj

    def set(self, I, v):
        if self.kind == 'var':
            I.setvar(self.obj, self.key, v)
        elif self.kind == 'attr':
            I.set_attr_raw(self.obj, self.key, v)
        elif self.kind == 'dict':
            I.dict_set(self.obj, self.key, v)

    def __repr__(self):
        return '%s:%s' % (self.kind, self.key)


SC = ('int', 'real', 'bool', 'str')


def join_kind(kinds):
    if len(kinds) == 1:
        return next(iter(kinds))
    if kinds == {'int', 'real'}:
        return 'real'
    return None


def And_(cs):
    cs = list(cs)
    return z3.And(*cs) if len(cs) > 1 else cs[0] if cs else z3.BoolVal(True)


class LoopMixin:
    # ---------------------------------------------------------------- entry points
    def for_loop(self, s, env):
        from hv.interp import SymIter
        it = self.eval(s.iter, env)
        try:
            items = self.iter_concrete(it)
        except SymIter:
            return self.sym_for(s, env, it)
        if len(items) > 400:
            raise Unsupported('long concrete loop')
        for x in items:
            self.assign(s.target, x, env)
            try:
                self.exec_block(s.body, env)
            except _Break:
                return
            except _Continue:
                pass
        self.exec_block(s.orelse, env)

    def while_loop(self, s, env):
        # a few concrete iterations while the test is concrete
        n = 0
        while True:
            t = self.truth(self.eval(s.test, env))
            t = conc(t) if is_z(t) else t
            if not isinstance(t, bool) or self.loop_forced(s):
                break
            if not t:
                self.exec_block(s.orelse, env)
                return
            n += 1
            if n > 60 or self.loop_symbolic_body(s, env):
                break
            try:
                self.exec_block(s.body, env)
            except _Break:
                return
            except _Continue:
                pass
        return self.sym_loop(s, env, None)

    def loop_forced(self, s):
        return False

    def loop_symbolic_body(self, s, env):
        """while with a concretely true test: analyse it symbolically when its exit depends on
        symbolic data (the flag is decided inside the body)"""
        names = {n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)}
        if isinstance(s.test, ast.Constant):
            return True
        # a flag/bool test: symbolic treatment
        for n in names:
            v = env.vars.get(n, MISSING)
            if isinstance(v, bool):
                return True
        return False

    def sym_for(self, s, env, it):
        return self.sym_loop(s, env, it)

    # ---------------------------------------------------------------- the rule
    def sym_loop(self, s, env, it):
        from hv import interp as IM
        isfor = it is not None
        uniq = None
        k = fresh('k')
        if isfor:
            if isinstance(it, IM.UniqueV):
                uniq = it
                k = fresh('u', it.kind)
                R = z3.Function(fresh_name('inset'), k.sort(), z3.BoolSort())
                rng = lambda q: R(q)
                elem = lambda q: q
                n = None
                self.unique_axioms(it, R)
            else:
                n, g = self.iter_symbolic(it)
                rng = lambda q: z3.And(q >= 0, q < zint(n))
                elem = g
        else:
            n = None
            rng = lambda q: q >= 0
            elem = None

        while True:
            ctx = LoopCtx(self, s, env, k, rng, elem, isfor, n, uniq)
            m = self.mark()
            try:
                ctx.analyse()
                self.commit(m)
                break
            except LoopCarried as e:
                # a variable first assigned in the first iteration and read in later ones: take that iteration out of the loop
                if not isfor or uniq is not None:
                    raise
                self.undo(m)
                if env.vars.get(str(e), MISSING) is not MISSING:
                    raise
            if not self.decide(zint(n) >= 1):
                return self.exec_block(s.orelse, env)
            self.assign(s.target, elem(z3.IntVal(0)), env)
            self.counters.append(z3.IntVal(0))
            try:
                self.exec_block(s.body, env)
            except _Break:
                return
            except _Continue:
                pass
            finally:
                self.counters.pop()
            elem0, n0 = elem, n
            elem, n = (lambda q: elem0(z3.simplify(zint(q) + 1))), z3.simplify(zint(n0) - 1)
            rng = lambda q: z3.And(q >= 0, q < zint(n))
            k = fresh('k')
        return ctx.finish()

    def unique_axioms(self, it, R):
        self.assumption('np.unique returns exactly the set of values occurring in its argument')

        def note(idx):
            c = self.in_shape(idx, it.shape)
            if it.mask is not None:
                c = z3.And(c, zbool(it.mask(idx)))
            self.assume(z3.Implies(c, R(it.get(idx))))
        it.note = note
        it.R = R
        wit = [z3.Function(fresh_name('wit'), SORT[it.kind], z3.IntSort()) for _ in it.shape]

        def witness(q):
            idx = tuple(w(q) for w in wit)
            c = z3.And(self.in_shape(idx, it.shape), it.get(idx) == q)
            if it.mask is not None:
                c = z3.And(c, zbool(it.mask(idx)))
            self.assume(z3.Implies(R(q), c))
        it.witness = witness


class LoopCtx:
    def __init__(self, I, s, env, k, rng, elem, isfor, n, uniq):
        self.I, self.s, self.env, self.k, self.rng, self.elem = I, s, env, k, rng, elem
        self.isfor, self.n, self.uniq = isfor, n, uniq
        self.locs = {}            # id -> Loc
        self.entry = {}           # id -> entry value
        self.kinds = {}           # id -> set of kinds seen
        self.objs = {}            # id -> set of object ids / values
        self.lists = {}           # id(list) -> L  (mutated)
        self.lmode = {}           # id(list) -> 'append' | 'any'
        self.lentry = {}
        self.arrs = {}            # id(arr) -> Arr
        self.aentry = {}
        self.inv = {}             # id(arr) -> fn(idx)->k or None
        self.ind = {}             # id -> step
        self.reset = {}           # id -> literal
        self.cands = []
        self.F = {}
        self.fin = {}
        self.finname = set()
        self.fin_used = set()

    # -------- state preparation
    def fresh_obj(self, v):
        I = self.I
        q = getattr(v.cls, 'qual', None)
        mk = getattr(I, 'obj_makers', {}).get(q)
        if mk is None:
            return Poison(str(v))
        return mk(I)

    def make_havoc(self):
        """values of the modified locations at the start of iteration k (shared by all paths)"""
        I = self.I
        hv = {}
        for i, loc in self.locs.items():
            e = self.entry[i]
            if i in self.ind:
                v = self.linear(e, self.ind[i], self.k)
            elif i in self.reset:
                c = self.reset[i]
                kd = join_kind({kind_of(e), kind_of(c)})
                if kd is None:
                    v = Poison(str(loc))
                else:
                    v = z3.If(self.k == 0, to_kind(e, kd), to_kind(c, kd))
            else:
                v = self.havoc_value(i, loc)
            hv[i] = v
        return hv

    def linear(self, e, c, k):
        if c == 0:
            return e
        if kind_of(e) == 'int' and kind_of(c) == 'int':
            return z3.simplify(zint(e) + zint(c) * k)
        return zreal(e) + zreal(c) * z3.ToReal(k)

    def havoc_value(self, i, loc):
        kinds = self.kinds[i]
        if any(k in SC for k in kinds):
            kd = join_kind(kinds)
            if kd in SC:
                return fresh('h_' + str(loc.key), kd)
            return Poison(str(loc))
        e = self.entry[i]
        vals = self.objs[i]
        if e is MISSING or None in vals:
            return Poison(str(loc))
        if all(v is e for v in vals):
            return e
        if isinstance(e, Obj) and e.ref is not None:
            if all(isinstance(v, Obj) and v.ref is not None and v.ref[0] is e.ref[0] for v in vals):
                return e.ref[0].get(*[fresh('h_ref') for x in e.ref[1]])
            return Poison(str(loc))
        if isinstance(e, Obj) and all(isinstance(v, Obj) and v.cls is e.cls for v in vals):
            return self.fresh_obj(e)
        if isinstance(e, Arr) and all(isinstance(v, Arr) and v.kind == e.kind and len(v.shape) == len(e.shape)
                                      for v in vals):
            sh = tuple(a if all(z3.simplify(zint(a)).eq(z3.simplify(zint(v.shape[d]))) for v in vals)
                       else None for d, a in enumerate(e.shape))
            if None not in sh:
                return ufarr('h_' + str(loc.key), sh, e.kind, unique=True)
        return Poison(str(loc))

    def sign_fact(self, c, k):
        """step * k >= 0 for a symbolic step of known sign (k >= 0)"""
        I = self.I
        if not is_z(c):
            return
        p = c * (k if z3.is_int(c) else z3.ToReal(k))
        if I.entails(c >= 0):
            I.assume(p >= 0)
        elif I.entails(c <= 0):
            I.assume(p <= 0)

    def apply_havoc(self, hv, harr, k, prefix_done=None):
        """install the state at the start of iteration k"""
        I = self.I
        for i, loc in self.locs.items():
            v = hv[i]
            if v is self.entry[i]:
                continue
            if v is MISSING:
                continue
            loc.set(I, v)
            if i in self.ind:
                self.sign_fact(self.ind[i], k)
        for i, l in self.lists.items():
            self.list_state(l, i, k)
        for i, a in self.arrs.items():
            entry = self.aentry[i]
            H = harr[i]
            inv = self.inv.get(i)
            if inv is None:
                I.arr_setget(a, H)
            else:
                I.arr_setget(a, self.own_cell(i, a, entry, H, inv, k))

    def own_cell(self, i, a, entry, H, inv, k):
        """contents at the start of iteration k: a cell is written by at most one iteration, so
        cells of earlier iterations have their final value, the others their entry value"""
        kind = a.kind
        if self.uniq is None:
            if i not in self.fin:
                nm = fresh_name('fin_' + a.name) + 'f'
                f = z3.Function(nm, *([z3.IntSort()] * len(a.shape)), SORT[kind])
                self.finname.add(nm)
                self.fin[i] = lambda idx: f(*[zint(x) for x in idx])
            fin = self.fin[i]

        def get(idx):
            if self.uniq is not None:
                c = conc(z3.simplify(inv(idx) == k))
                if c is True:
                    return entry(idx)
                if c is False:
                    return H(idx)
                return z3.If(c, to_kind(entry(idx), kind), to_kind(H(idx), kind))
            d = z3.simplify(inv(idx) - k)
            dc = conc(d)
            if not is_z(dc) and dc >= 0:
                return entry(idx)
            self.fin_used.add(i)
            return z3.If(z3.And(inv(idx) >= 0, inv(idx) < k), to_kind(fin(idx), kind), to_kind(entry(idx), kind))
        return get

    def list_state(self, l, i, k):
        I = self.I
        items, n0, get0 = self.lentry[i]
        base = L(items, n0, get0)
        ln0 = base.length()

        def get(j):
            c = conc(z3.simplify(z3.And(zint(j) >= 0, zint(j) < zint(ln0))))
            if c is True or (c is not False and I.entails(c)):
                return I.list_getitem(base, j)
            raise LoopCarried('element of a list built by the loop')
        if self.lmode.get(i) == 'append' and not self.uniq:
            I.list_set(l, None, z3.simplify(zint(ln0) + k), get)
        else:
            nn = fresh('len')
            I.assume(nn >= 0)

            def bad(j):
                raise LoopCarried('element of a list modified by the loop')
            I.list_set(l, None, nn, bad)

    # -------- one exploration of the body
    def run(self, record, extra=()):
        I, k = self.I, self.k
        hv = self.make_havoc()
        self.last_hv = hv
        harr = {}
        for i, a in self.arrs.items():
            H = ufarr('h_' + a.name, a.shape, a.kind, unique=True)
            harr[i] = H.get
        for i, a in list(self.arrs.items()):
            if i not in self.F:
                self.F[i] = tuple(z3.Int(fresh_name('F') + 'f') for _ in a.shape)
        self.c0 = _cnt[0]

        def thunk():
            I.assume(self.rng(k))
            self.apply_havoc(hv, harr, k)
            for c in self.cands:
                v = c.at(self, k)
                if v is not None:
                    I.assume(v)
            for c in extra:
                I.assume(c)
            j = I.journals[-1]
            j.other.clear()
            j.arr_writes.clear()
            out = self.body(k)
            res = dict(kind=out[0])
            if out[0] == 'normal':
                res['vals'] = {i: loc.get() for i, loc in self.locs.items()}
                fails = set()
                for ci, c in enumerate(self.cands):
                    v = c.at(self, k + 1 if not self.uniq else None)
                    if v is not None and not I.entails(v):
                        fails.add(ci)
                res['fails'] = fails
                res['writes'] = {}
                for (a, P, val) in list(j.arr_writes):
                    i = id(a)
                    if i in self.F:
                        F = self.F[i]
                        try:
                            p = zbool(P(F))
                            v = val(F)
                        except LoopCarried:
                            raise
                        res['writes'].setdefault(i, []).append((p, v))
                res['appends'] = [(l, v) for kd, l, v in j.other if kd == 'append']
            return res
        I.mute += 0 if record else 1
        I.counters.append(k)
        try:
            return I.sub_explore(thunk)
        finally:
            I.counters.pop()
            I.mute -= 0 if record else 1

    def body(self, k):
        I, s, env = self.I, self.s, self.env
        if self.isfor:
            if self.uniq is not None:
                self.uniq.witness(k)
            I.assign(s.target, self.elem(k), env)
        else:
            t = I.truth(I.eval(s.test, env))
            if not I.decide(t):
                return ('exit',)
        try:
            I.exec_block(s.body, env)
            return ('normal',)
        except _Continue:
            return ('normal',)
        except _Break:
            return ('break', None)
        except _Return as r:
            return ('return', r)
        except TargetExc as e:
            return ('exc', e)

    # -------- analysis
    def analyse(self):
        I = self.I
        I.rule('loop')
        # 1. modified locations, to a fixpoint
        for rnd in range(12):
            res = self.run(False)
            if not self.absorb(res):
                break
        else:
            raise Unsupported('loop analysis did not converge')
        # 2. induction variables
        if self.uniq is None:
            for rnd in range(6):
                if not self.find_induction(res):
                    break
                res = self.run(False)
                self.absorb(res)
                if self.check_induction(res):
                    res = self.run(False)
        # 3. inverses of write indices
        for rnd in range(3):
            if not self.find_inverse(res):
                break
            res = self.run(False)
            self.absorb(res)
            res = self.drop_bad_inverse(res)
        # 4. invariants
        self.template_cands()
        self.cands = [c for c in self.cands if self.init_ok(c)]
        for rnd in range(40):
            res = self.run(False)
            bad = set()
            for suf, out, j in res:
                bad |= out.get('fails', set())
            if not bad:
                break
            self.cands = [c for i, c in enumerate(self.cands) if i not in bad]
        if I.mute == 0:
            res = self.run(True)
        self.res = res

    def absorb(self, res):
        new = False
        for suf, out, j in res:
            if out['kind'] != 'normal':
                continue            # what an iteration that leaves the loop modifies is not seen by later iterations
            for kind, obj, key in j.other:
                if kind == 'append':
                    continue
                if kind == 'list':
                    if id(obj) not in self.lists:
                        self.lists[id(obj)] = obj
                        self.lentry[id(obj)] = (obj.items, obj.n, obj.get)
                        self.lmode[id(obj)] = 'append'
                        new = True
                    continue
                loc = Loc(kind, obj, key)
                if loc.id not in self.locs:
                    self.locs[loc.id] = loc
                    e = loc.get()
                    self.entry[loc.id] = e
                    self.kinds[loc.id] = {kind_of(e)} if e is not MISSING else {'missing'}
                    self.objs[loc.id] = [e]
                    new = True
            for (a, P, val) in j.arr_writes:
                if id(a) not in self.arrs:
                    self.arrs[id(a)] = a
                    self.aentry[id(a)] = a.get
                    new = True
            for i, v in out['vals'].items():
                kd = 'missing' if v is MISSING else kind_of(v)
                if kd not in self.kinds[i]:
                    self.kinds[i].add(kd)
                    new = True
                if kd not in SC and not any(v is o for o in self.objs[i]):
                    self.objs[i].append(v)
                    if len(self.objs[i]) < 4:
                        new = True
            # append discipline
            for i, l in self.lists.items():
                ops = [(kd, o) for kd, o, key in j.other if o is l]
                ap = sum(1 for kd, o in ops if kd == 'append')
                ls = sum(1 for kd, o in ops if kd == 'list')
                if (ap, ls) != (1, 1) and self.lmode[i] == 'append':
                    self.lmode[i] = 'any'
                    new = True
        return new

    def find_induction(self, res):
        """candidates: v_end - v_start literal and equal on all normal paths"""
        I = self.I
        new = False
        norm = [out for suf, out, j in res if out['kind'] == 'normal']
        if not norm:
            return False
        self.no_ind = getattr(self, 'no_ind', set())
        for i, loc in self.locs.items():
            if i in self.ind or i in self.reset or i in self.no_ind:
                continue
            e = self.entry[i]
            if e is MISSING or kind_of(e) not in ('int', 'real', 'bool'):
                continue
            start = self.last_hv.get(i)
            if start is None or isinstance(start, Poison):
                continue
            steps = set()
            lits = set()
            same = None
            for out in norm:
                v = out['vals'].get(i)
                if v is None or v is MISSING or kind_of(v) not in ('int', 'real', 'bool'):
                    steps.add(None)
                    lits.add(None)
                    continue
                vc = conc(v)
                if isinstance(vc, (int, Fraction, bool)) and not is_z(vc):
                    lits.add(vc)
                else:
                    lits.add(None)
                if kind_of(v) == 'bool' or kind_of(start) == 'bool':
                    steps.add(None)
                    continue
                ints = kind_of(v) == 'int' and kind_of(start) == 'int'
                d = conc(z3.simplify(zint(v) - zint(start) if ints else zreal(v) - zreal(start), som=True))
                c = d if not is_z(d) else self.const_step(d)
                if c is None and is_z(v) and ints and kind_of(e) == 'int':
                    # assigned a value that is linear in the iteration number:  v == e + c*(k+1)
                    c0 = conc(z3.simplify(z3.substitute(zint(v), (self.k, z3.IntVal(0))) - zint(e)))
                    if isinstance(c0, int) and z3.is_true(z3.simplify(zint(v) == zint(e) + c0 * (self.k + 1))):
                        c = c0
                steps.add(c)
            if len(steps) == 1 and None not in steps:
                st = steps.pop()
                if not is_z(st) and kind_of(e) == 'int' and Fraction(st).denominator == 1:
                    st = int(st)
                self.ind[i] = st
                new = True
            elif len(lits) == 1 and None not in lits:
                self.reset[i] = lits.pop()
                new = True
        return new

    def const_step(self, d):
        """loop-invariant symbolic step"""
        names = set()
        seen = set()

        def walk(t):
            if t.get_id() in seen:
                return
            seen.add(t.get_id())
            if z3.is_app(t):
                names.add(t.decl().name())
                for c in t.children():
                    walk(c)
        walk(d)
        for nm in names:
            if sym_no(nm) >= self.kmin:
                return None
        return d

    @property
    def kmin(self):
        nm = self.k.decl().name()
        return int(nm.rsplit('!', 1)[1])

    def check_induction(self, res):
        bad = False
        for suf, out, j in res:
            if out['kind'] != 'normal':
                continue
            for i in list(self.ind):
                v = out['vals'].get(i)
                want = self.linear(self.entry[i], self.ind[i], self.k + 1)
                ok = v is not None and v is not MISSING and kind_of(v) in ('int', 'real')
                if ok:
                    d = z3.simplify(zreal(v) - zreal(want), som=True)
                    ok = conc(d) == 0 if not is_z(conc(d)) else self.poly0(d)
                if not ok:
                    del self.ind[i]
                    self.no_ind.add(i)
                    bad = True
            for i in list(self.reset):
                v = out['vals'].get(i)
                vc = conc(v) if is_z(v) else v
                if is_z(vc) or vc != self.reset[i] or type(vc) is not type(self.reset[i]):
                    del self.reset[i]
                    self.no_ind.add(i)
                    bad = True
        return bad

    def poly0(self, d):
        try:
            return self.I.poly_zero(d)
        except Unsupported:
            return False

    # -------- inverses
    def inverse_cands(self, a):
        k = self.k
        if self.uniq is not None:
            u = self.uniq
            if len(u.shape) == len(a.shape):
                return [lambda idx: to_kind(u.get(idx), u.kind)]
            return []
        forms = [(z3.IntVal(0), 1)]
        terms = []

        def collect(v, depth=0):
            if is_z(v) and z3.is_int(v):
                terms.append(v)
            elif isinstance(v, L) and not v.sym and depth < 3:
                for x in v.items:
                    collect(x, depth + 1)
        if self.elem is not None:
            try:
                m = self.I.mark()
                collect(self.elem(k))
            except (Unsupported, TargetExc, PathEnd):
                pass
            finally:
                self.I.undo(m)
        for i in self.ind:
            if kind_of(self.entry[i]) == 'int':
                terms.append(self.linear(self.entry[i], self.ind[i], k))
        for t in terms:
            if not is_z(t):
                continue
            t0 = z3.simplify(z3.substitute(t, (k, z3.IntVal(0))))
            t1 = z3.simplify(z3.substitute(t, (k, z3.IntVal(1))))
            d = conc(z3.simplify(t1 - t0))
            if d == 1 and not is_z(d):
                forms.append((t0, 1))
            elif d == -1 and not is_z(d):
                forms.append((t0, -1))
        out = []
        for (b, sg) in forms:
            for dim in range(len(a.shape)):
                if sg == 1:
                    out.append(lambda idx, b=b, dim=dim: z3.simplify(zint(idx[dim]) - b))
                else:
                    out.append(lambda idx, b=b, dim=dim: z3.simplify(b - zint(idx[dim])))
        if len(a.shape) >= 2:
            out.append(lambda idx: zint(idx[0]) * zint(a.shape[1]) + zint(idx[1]))
            out.append(lambda idx: zint(idx[1]) * zint(a.shape[0]) + zint(idx[0]))
        if len(a.shape) >= 3:
            out.append(lambda idx: zint(idx[1]) * zint(a.shape[2]) + zint(idx[2]))
            out.append(lambda idx: (zint(idx[0]) * zint(a.shape[1]) + zint(idx[1])) * zint(a.shape[2]) + zint(idx[2]))
        return out

    def inv_ok(self, res, i, inv):
        I = self.I
        F = self.F.get(i)
        if F is None:
            return False
        any_ = False
        for suf, out, j in res:
            ws = out.get('writes', {}).get(i, [])
            for p, v in ws:
                any_ = True
                extra = [c for c, f in suf] + [p, inv(F) != self.k, I.in_shape(F, self.arrs[i].shape)]
                if I._check(extra) != z3.unsat:
                    return False
        return any_

    def cond_cands(self, res, i):
        """write conditions of the form  t(cell) == k + c  (masked writes)"""
        out, seen = [], set()
        F, k = self.F[i], self.k
        if self.uniq is not None:
            return out

        def walk(p):
            if not z3.is_app(p) or p.get_id() in seen:
                return
            seen.add(p.get_id())
            if p.decl().kind() == z3.Z3_OP_EQ and z3.is_int(p.arg(0)):
                for x, y in ((p.arg(0), p.arg(1)), (p.arg(1), p.arg(0))):
                    c = z3.simplify(y - k)
                    if not mentions(c, k) and not mentions(x, k):
                        out.append(lambda idx, x=x, c=c: z3.simplify(z3.substitute(x, *[(f, zint(v)) for f, v in zip(F, idx)]) - c))
            elif z3.is_bool(p):
                for ch in p.children():
                    walk(ch)
        for suf, o, j in res:
            for p, v in o.get('writes', {}).get(i, []):
                walk(p)
        return out

    def find_inverse(self, res):
        I = self.I
        new = False
        for i, a in self.arrs.items():
            if self.inv.get(i) is not None or i not in self.F:
                continue
            for inv in self.inverse_cands(a) + self.cond_cands(res, i) + [h for hint in I.inverse_hints for h in hint(self, a)]:
                if self.inv_ok(res, i, inv):
                    self.inv[i] = inv
                    new = True
                    break
        return new

    def drop_bad_inverse(self, res):
        while True:
            bad = [i for i in self.inv if self.inv[i] is not None and not self.inv_ok(res, i, self.inv[i])
                   and any(out.get('writes', {}).get(i) for suf, out, j in res)]
            if not bad:
                return res
            for i in bad:
                self.inv[i] = None
            res = self.run(False)
            self.absorb(res)

    # -------- invariants
    def template_cands(self):
        I = self.I
        cands = []
        bounds = []
        if not self.isfor:
            for c in ast.walk(self.s.test):
                if isinstance(c, ast.Compare) and len(c.ops) == 1:
                    bounds.append(c)
        for i, loc in self.locs.items():
            if i in self.ind or i in self.reset:
                continue
            e = self.entry[i]
            if e is MISSING or kind_of(e) not in ('int', 'real') or not self.kinds[i] <= {'int', 'real'}:
                continue
            cands.append(Cand('%s>=entry' % loc, lambda ctx, kk, loc=loc, e=e: num_cmp(loc.get(), e, 'ge')))
            cands.append(Cand('%s<=entry' % loc, lambda ctx, kk, loc=loc, e=e: num_cmp(loc.get(), e, 'le')))
            if self.uniq is None:
                cands.append(Cand('%s=entry at the start' % loc, lambda ctx, kk, loc=loc, e=e: z3.Implies(zint(kk) == 0, num_cmp(loc.get(), e, 'ge') & num_cmp(loc.get(), e, 'le'))
                                  if num_cmp(loc.get(), e, 'ge') is not None else None))
            cands.append(Cand('%s>=0' % loc, lambda ctx, kk, loc=loc: num_cmp(loc.get(), 0, 'ge')))
        for c in bounds:
            def at(ctx, kk, c=c):
                l = ctx.I.eval(c.left, ctx.env)
                r = ctx.I.eval(c.comparators[0], ctx.env)
                if kind_of(l) not in ('int',) or kind_of(r) not in ('int',):
                    return None
                op = c.ops[0]
                if isinstance(op, ast.Lt):
                    return zint(l) <= zint(r)
                if isinstance(op, ast.Gt):
                    return zint(l) >= zint(r)
                return None
            cands.append(Cand('while bound', at))
        for gen in I.loop_cands:
            for name, fn in gen(I, self) or []:
                cands.append(Cand(name, lambda ctx, kk, fn=fn: fn(ctx, kk)))
        self.cands = cands

    def init_ok(self, c):
        I = self.I
        try:
            v = c.at(self, z3.IntVal(0) if not self.uniq else None)
            return v is not None and I.entails(v)
        except (Unsupported, TargetExc):
            return False

    # -------- summaries
    def paths(self, kinds=('normal',)):
        return [(suf, out) for suf, out, j in self.res if out['kind'] in kinds]

    def clean(self, t):
        """no symbol introduced inside the iteration except k"""
        ok = [True]
        seen = set()
        own = self.own()

        def walk(t):
            if t.get_id() in seen or not ok[0]:
                return
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                walk(t.body())
                return
            if z3.is_app(t):
                nm = t.decl().name()
                if sym_no(nm) > self.kmin and nm not in own:
                    ok[0] = False
                    return
                for c in t.children():
                    walk(c)
        walk(t)
        return ok[0]

    def search_fact(self, upto):
        """ForAll k in range (k < upto): the iteration ended normally"""
        I, k = self.I, self.k
        if not any(out['kind'] not in ('normal', 'exit') for suf, out, j in self.res) and self.isfor:
            return None
        alts = []
        for suf, out in self.paths():
            cs = [c for c, f in suf if not f and self.clean(c)]
            alts.append(And_(cs))
        if not alts:
            body = z3.BoolVal(False)
        else:
            body = z3.simplify(z3.Or(*alts))
        if z3.is_true(body):
            return None
        q = z3.Int(fresh_name('q'))
        lim = z3.And(q >= 0, q < upto) if upto is not None else z3.substitute(self.rng(k), (k, q))
        return z3.ForAll([q], z3.Implies(lim, z3.substitute(body, (k, q))))

    def own(self):
        """symbols of this loop that do not depend on the iteration"""
        return {x.decl().name() for F in self.F.values() for x in F} | self.finname

    def summary(self, i, upto=None):
        """(W(idx), V(idx)) of array i over all iterations"""
        I, k = self.I, self.k
        F = self.F[i]
        inv = self.inv[i]
        a = self.arrs[i]
        ws = []
        facts = []
        alts = []
        for suf, out in self.paths():
            dec = And_([c for c, f in suf if not f])
            alts.append(dec)
            fc = [c for c, f in suf if f]
            if fc:
                facts.append(z3.Implies(dec, And_(fc)))
            wl = out['writes'].get(i, [])
            if not wl:
                ws.append((dec, z3.BoolVal(False), None))
                continue
            W = z3.Or(*[p for p, v in wl]) if len(wl) > 1 else wl[0][0]
            V = to_kind(wl[0][1], a.kind)
            for p, v in wl[1:]:
                V = z3.If(p, to_kind(v, a.kind), V)
            ws.append((dec, W, V))
        Wt = z3.simplify(z3.Or(*[z3.And(d, w) for d, w, v in ws])) if ws else z3.BoolVal(False)
        vs = [(z3.And(d, w), v) for d, w, v in ws if v is not None]
        if not vs:
            return None
        Vt = vs[-1][1]
        for c, v in reversed(vs[:-1]):
            Vt = z3.If(c, v, Vt)
        tot = z3.Or(*alts) if alts else z3.BoolVal(False)
        Wt, rest = I.skolemise([Wt, Vt, tot] + facts, self.kmin, k, self.own())
        Vt, tot, facts = rest[0], rest[1], rest[2:]
        rngk = self.rng(k)

        def sub(t, idx):
            return z3.substitute(t, (k, inv(idx)), *[(f, zint(x)) for f, x in zip(F, idx)])
        seen = set()

        def inst(idx):
            if self.uniq is not None:
                self.uniq.note(idx)
            key = z3.simplify(inv(idx)).sexpr() + str([z3.simplify(zint(x)).sexpr() for x in idx])
            for f in facts + ([tot] if not z3.is_true(z3.simplify(tot)) else []):
                t = z3.Implies(sub(rngk, idx), sub(f, idx))
                I.assume(t)
                I.div_lemmas(t)

        def W(idx):
            inst(idx)
            t = z3.And(sub(rngk, idx), sub(Wt, idx))
            I.div_lemmas(t)
            if i in self.fin_used:
                I.assume(z3.Implies(I.in_shape(idx, a.shape), z3.Implies(
                    z3.And(t, inv(idx) < upto) if upto is not None else t,
                    self.fin[i](idx) == sub(Vt, idx))))
                I.assume(z3.Implies(z3.Not(z3.And(t, inv(idx) < upto) if upto is not None else t),
                                    self.fin[i](idx) == to_kind(self.aentry[i](idx), a.kind)))
            return t

        def V(idx):
            t = sub(Vt, idx)
            I.div_lemmas(t)
            return t
        return W, V

    # -------- continuation
    def finish(self):
        I, s, env = self.I, self.s, self.env
        abnormal = any(out['kind'] in ('break', 'return', 'exc') for suf, out, j in self.res)
        ch = I.choose(2) if abnormal else 0
        if ch == 0:
            self.normal_exit()
            I.exec_block(s.orelse, env)
            return
        # one iteration that leaves the loop
        I.rule('loop-exit')
        kk = self.k
        I.assume(self.rng(kk), fact=False)
        hv = self.make_havoc()
        for i, loc in self.locs.items():
            if hv[i] is not self.entry[i] and hv[i] is not MISSING:
                loc.set(I, hv[i])
        for i, l in self.lists.items():
            self.list_state(l, i, kk)
        for i, a in self.arrs.items():
            inv = self.inv.get(i)
            sm = self.summary(i, kk) if inv is not None else None
            if sm is None:
                if inv is None:
                    H = ufarr('h_' + a.name, a.shape, a.kind, unique=True)
                    I.loose.add(H.name)
                    I.arr_write(a, lambda idx: z3.BoolVal(True), H.get)
                continue
            if self.uniq is not None:
                H = ufarr('h_' + a.name, a.shape, a.kind, unique=True)
                I.arr_write(a, lambda idx, inv=inv: inv(idx) != kk, H.get)
                continue
            W, V = sm
            I.arr_write(a, lambda idx, W=W, inv=inv: z3.And(inv(idx) < kk, W(idx)), V)
        for c in self.cands:
            v = c.at(self, kk)
            if v is not None:
                I.assume(v)
        if self.uniq is None:
            sf = self.search_fact(kk)
            if sf is not None:
                I.assume(sf)
        I.mute += 1
        try:
            out = self.body(kk)
        finally:
            I.mute -= 1
        if out[0] in ('normal', 'exit'):
            raise PathEnd()
        if not I.feasible(z3.BoolVal(True)):
            raise PathEnd()
        if out[0] == 'break':
            return
        raise out[1]

    def normal_exit(self):
        I, k = self.I, self.k
        if self.isfor and self.uniq is None:
            N = zint(self.n)
            if not I.entails(N >= 0):
                N = z3.If(N > 0, N, z3.IntVal(0))
        else:
            N = fresh('N')
            I.assume(N >= 0)
        kpaths = self.paths()
        for i, loc in self.locs.items():
            e = self.entry[i]
            if i in self.ind and self.uniq is None:
                v = self.linear(e, self.ind[i], N)
            elif i in self.reset and self.uniq is None:
                kd = join_kind({kind_of(e), kind_of(self.reset[i])})
                v = z3.If(N == 0, to_kind(e, kd), to_kind(self.reset[i], kd)) if kd else Poison(str(loc))
            else:
                v = self.havoc_value(i, loc)
            if v is not e and v is not MISSING:
                loc.set(I, v)
        for i, l in self.lists.items():
            self.final_list(l, i, N)
        for i, a in self.arrs.items():
            inv = self.inv.get(i)
            sm = self.summary(i, None if self.isfor else N) if inv is not None else None
            if inv is None:
                if any(out.get('writes', {}).get(i) for suf, out in kpaths):
                    H = ufarr('h_' + a.name, a.shape, a.kind, unique=True)
                    I.loose.add(H.name)
                    I.arr_write(a, lambda idx: z3.BoolVal(True), H.get)
            elif sm is not None:
                W, V = sm
                if not self.isfor:
                    I.arr_write(a, lambda idx, W=W, inv=inv: z3.And(inv(idx) < N, W(idx)), V)
                else:
                    I.arr_write(a, W, V)
        for c in self.cands:
            v = c.at(self, N if self.uniq is None else None)
            if v is not None:
                I.assume(v)
        if self.uniq is None:
            sf = self.search_fact(N)
            if sf is not None:
                I.assume(sf)
        if not self.isfor:
            t = I.truth(I.eval(self.s.test, self.env))
            t = conc(t) if is_z(t) else t
            if t is True:
                raise PathEnd()
            if t is not False:
                I.assume(z3.Not(zbool(t)), fact=False)
        if not I.feasible(z3.BoolVal(True)):
            raise PathEnd()

    def final_list(self, l, i, N):
        I, k = self.I, self.k
        items, n0, get0 = self.lentry[i]
        base = L(items, n0, get0)
        ln0 = base.length()
        if self.lmode.get(i) != 'append' or self.uniq is not None:
            self.list_state(l, i, N)
            return
        vals, facts, alts = [], [], []
        ok = True
        table = None                  # list of references to the objects of a table
        for suf, out in self.paths():
            dec = And_([c for c, f in suf if not f])
            alts.append(dec)
            v = [x for lst, x in out['appends'] if lst is l]
            if len(v) == 1 and isinstance(v[0], Obj) and v[0].ref is not None and len(v[0].ref[1]) == 1 \
                    and table in (None, v[0].ref[0]):
                table = v[0].ref[0]
                v = [v[0].ref[1][0]]
            elif table is not None:
                ok = False
                break
            if len(v) != 1 or kind_of(v[0]) not in SC:
                ok = False
                break
            vals.append((dec, v[0]))
            fc = [c for c, f in suf if f]
            if fc:
                facts.append(z3.Implies(dec, And_(fc)))
        if not ok or not vals:
            def get(j):
                c = conc(z3.simplify(z3.And(zint(j) >= 0, zint(j) < zint(ln0))))
                if c is True or (c is not False and I.entails(c)):
                    return I.list_getitem(base, j)
                raise LoopCarried('object built by the loop')
            I.list_set(l, None, z3.simplify(zint(ln0) + N), get)
            return
        t = I.ite_chain(vals) if len(vals) > 1 else vals[0][1]
        t = t if is_z(t) else (zstr(t) if isinstance(t, str) else zreal(t) if kind_of(t) == 'real' else zint(t))
        t, rest = I.skolemise([t, z3.Or(*alts)] + facts, self.kmin, k, self.own())
        tot, facts = rest[0], rest[1:]

        def new(j):
            for f in facts + [tot]:
                I.assume(z3.Implies(z3.And(zint(j) >= 0, zint(j) < N), z3.substitute(f, (k, zint(j)))))
            t1 = z3.substitute(t, (k, zint(j)))
            return t1 if table is None else table.get(z3.simplify(t1))
        r = I.list_concat(base, L(n=N, get=new))
        if not r.sym:
            I.list_set(l, r.items, None, None)
        else:
            I.list_set(l, None, r.n, r.get)


def mentions(t, k):
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.eq(k):
            return True
        if x.get_id() not in seen:
            seen.add(x.get_id())
            todo += x.children()
    return False


class Cand:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def at(self, ctx, k):
        try:
            return self.fn(ctx, k)
        except (LoopCarried, TargetExc):
            return None


def num_cmp(a, b, op):
    if a is MISSING or isinstance(a, Poison) or kind_of(a) not in ('int', 'real') or kind_of(b) not in ('int', 'real'):
        return None
    if kind_of(a) == 'int' and kind_of(b) == 'int':
        x, y = zint(a), zint(b)
    else:
        x, y = zreal(a), zreal(b)
    return x >= y if op == 'ge' else x <= y
