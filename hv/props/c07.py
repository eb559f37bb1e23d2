"""C07: every realisation is simulated anew and written to its own place; exactly the requested formats are written."""
import z3
from hv.common import *
from hv.interp import PathV, StrV, FmtPart

SIM, OUT = 'hyvr.sim', 'hyvr.postprocess.output'
FORMATS = dict(mat='to_mat', py='to_pickle', npz='to_npz', h5='to_hdf5', vtr='to_vtr', mf='to_modflow', mf6='to_mf6', hgs='to_hgs')


def path_is(I, p, base):
    """p is the path base: True/False/condition"""
    if not isinstance(p, PathV):
        raise Unsupported('directory %r' % (p,))
    return I.eq(p, base) if len(p.parts) == len(base.parts) else False


def zb(x):
    return x if is_z(x) else z3.BoolVal(bool(x))


def run(I, hyd):
    for m in (SIM, OUT, 'hyvr.geo.model', 'hyvr.input.parameters'):
        I.module(m)
    n = I.size('numsim')
    name, base = z3.String('runname'), PathV((z3.String('rundir'),))
    outputs = L(n=I.size('n_formats', 0), get=lambda i: z3.Function('fmt', z3.IntSort(), z3.StringSort())(zint(i)))
    settings = D(dict(numsim=n, runname=name, rundir=base, outputs=outputs, overwrite_old_output=False, modelname=name))
    m = I.obj('hyvr.geo.model', 'Model', generate_hydraulics=hyd)
    hydraulics = D({})
    ghost = I.obj('hyvr.geo.model', 'Model', phase=0, written=0)

    def step(want, new, what):
        I.oblige(what + ' is called in its turn', zint(ghost.attrs['phase']) == want, 'pre')
        I.set_attr_raw(ghost, 'phase', new)

    def setup(I, v):
        I.oblige('the given parameter file and overwrite flag are used', zb(v['inifile'] == 'file.ini' and v['flag_ow'] is None), 'pre')
        return L([settings, m, hydraulics], tup=True)

    def geometry(I, v):
        I.oblige('the geometry of the model is generated', zb(v['self'] is m), 'pre')
        step(0, 1, 'generate_model')

    def cells(I, v):
        I.oblige('the cells of the model are assigned', zb(v['model'] is m), 'pre')
        step(1, 2, 'assign_points')

    def params(I, v):
        vs = list(v.values())
        I.oblige('hydraulic parameters are generated for the model from the hydraulics section',
                 zb(v['self'] is m and any(x is hydraulics for x in vs)), 'pre')
        I.oblige('hydraulic parameters only if requested', zb(hyd), 'pre')
        step(2, 3, 'generate_hydraulic_parameters')

    def outs(I, v):
        a = list(v.values())
        I.oblige('the model of this realisation is written', zb(a[0] is m), 'pre')
        if isinstance(a[3], L) and a[3] is not outputs:
            raise Unsupported('a copy of the formats')
        I.oblige('exactly the requested formats', zb(a[3] is outputs), 'pre')
        I.oblige('the run name is the file name', zb(I.eq(a[2], name)), 'pre')
        k = zint(ghost.attrs['written'])
        d = a[1]
        if not isinstance(d, PathV):
            raise Unsupported('directory %r' % (d,))
        if len(d.parts) == 1:
            I.oblige('a single realisation is written into the run directory', z3.And(zb(I.eq(d, base)), n == 1), 'pre')
        elif len(d.parts) == 2:
            I.oblige('inside the run directory', zb(I.eq(PathV(d.parts[:1]), base)), 'pre')
            c = d.parts[1]
            if isinstance(c, str):
                raise Unsupported('constant name of a realisation')
            nums = [p for p in getattr(c, 'parts', ()) if isinstance(p, FmtPart) and is_z(p.v) and z3.is_int(p.v)]
            if not isinstance(c, StrV) or len(nums) != 1 or not set(nums[0].spec) <= set('0123456789d'):
                raise Unsupported('name of a realisation')
            I.oblige('each realisation has the directory with its own number', z3.And(n > 1, nums[0].v == k + 1), 'pre')
        else:
            raise Unsupported('directory depth')
        step(3 if hyd else 2, 0, 'create_outputs')
        I.set_attr_raw(ghost, 'written', z3.simplify(k + 1))

    I.contracts.update({'hyvr.input.parameters.setup_from_inifile': setup, 'hyvr.geo.model.Model.generate_model': geometry,
                        'hyvr.assign_points.assign_points': cells, 'hyvr.geo.model.Model.generate_hydraulic_parameters': params,
                        OUT + '.create_outputs': outs})
    I.path_calls = {'mkdir': lambda I, p, a, k: None}

    def cand(I, ctx):
        yield 'between realisations', lambda ctx, kk: zint(ghost.attrs['phase']) == 0
        yield 'realisations written', lambda ctx, kk: zint(ghost.attrs['written']) == zint(kk)
        yield 'realisations written, from 1', lambda ctx, kk: zint(ghost.attrs['written']) == zint(kk) - 1
    I.loop_cands = [cand]
    I.run(SIM, 'run', ['file.ini'])
    I.oblige('as many realisations as requested are written', zint(ghost.attrs['written']) == n)
    I.oblige('the last realisation is complete', zint(ghost.attrs['phase']) == 0)


def formats(I):
    """create_outputs: one writer per requested format, in order, with the model and <directory>/<run name>"""
    I.module(OUT)
    n = I.size('n_formats', 0)
    F = z3.Function('fmt', z3.IntSort(), z3.StringSort())
    fm = L(n=n, get=lambda i: F(zint(i)))
    m = I.obj('hyvr.geo.model', 'Model')
    ghost = I.obj('hyvr.geo.model', 'Model', written=0)
    base, name = PathV((z3.String('realdir'),)), z3.String('runname')
    missing = z3.Function('library_missing', z3.IntSort(), z3.BoolSort())

    def writer(fmt):
        def h(I, v):
            a = list(v.values())
            k = zint(ghost.attrs['written'])
            I.oblige('the writer of the requested format is called', z3.And(k < n, F(k) == z3.StringVal(fmt)), 'pre')
            I.oblige('with the model', zb(a[0] is m), 'pre')
            I.oblige('with the file of this run', zb(path_is(I, a[1], PathV(base.parts + (name,)))), 'pre')
            I.set_attr_raw(ghost, 'written', z3.simplify(k + 1))
            if I.decide(missing(k)):
                raise TargetExc(ImportError, ('library',))
        return h
    I.contracts.update({OUT + '.' + f: writer(k) for k, f in FORMATS.items()})
    I.opaque_calls['pathlib.Path'] = lambda I, a, k: a[0] if isinstance(a[0], PathV) else PathV((a[0],))
    I.opaque_calls['warnings.warn'] = lambda I, a, k: None
    I.path_calls = {'resolve': lambda I, p, a, k: p, 'absolute': lambda I, p, a, k: p, 'mkdir': lambda I, p, a, k: None}

    def cand(I, ctx):
        yield 'formats written', lambda ctx, kk: zint(ghost.attrs['written']) == zint(kk)
    I.loop_cands = [cand]
    known = lambda s: z3.Or(*[s == z3.StringVal(f) for f in FORMATS])
    r, e = I.run_exc(OUT, 'create_outputs', [m, base, name, fm])
    q = z3.Int('q')
    allk = z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), known(F(q))), patterns=[F(q)])
    if r == 'ok':
        I.oblige('one file per requested format', zint(ghost.attrs['written']) == n)
        (j,) = I.formals(1, 'fmt_index')
        I.oblige('an unknown format is not accepted', z3.Implies(z3.And(j >= 0, j < n), known(F(j))))
    else:
        I.oblige('the error is due to a format which is unknown', z3.Not(allk))


PROOFS = [('realisations', lambda I: run(I, True)), ('without parameters', lambda I: run(I, False)), ('formats', formats)]
TRUSTED = ['decimal numbers of different realisations are different directory names; pathlib joins components',
           'generate_model, assign_points, generate_hydraulic_parameters and the writers by their own contracts (C10-C19, C21)']
