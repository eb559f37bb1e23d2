"""realisations of a run"""
import os
import pathlib

import numpy as np

from hv.conc import guard, inigen

RULE = 'whole runs with stand-ins for model, point assignment and output writer (numsim 0-12, hydraulics on/off) and small real runs; non-trivial: numsim > 1'


def flow(ctx):
    sim = ctx.load('hyvr.sim')
    hp = ctx.load('hyvr.input.parameters')
    ap = ctx.load('hyvr.assign_points')
    out = ctx.load('hyvr.postprocess.output')
    for i in ctx.iter(150):
        r = ctx.rng
        n = r.choice([1, 1, 2, 3, 5, 12, 101])
        hyd = r.random() < .6
        log = []

        class Model:
            generate_hydraulics = hyd
            gen = 0
            state = None

            def generate_model(self):
                Model.gen += 1
                self.state = ['generated', Model.gen]
                log.append('generate')

            def generate_hydraulic_parameters(self, h):
                self.state.append('hydraulics' if h is H else 'wrong hydraulics')
                log.append('hydraulics')
        H = {'any': 1}
        model = Model()

        def f_assign(m):
            m.state.append('assigned')
            log.append('assign')
        with guard.scratch() as root:
            fmts = ['npz', 'py'][:r.randint(1, 2)]
            settings = dict(numsim=n, rundir=pathlib.Path(root) / 'run', runname='nm', outputs=fmts)
            flags = []

            def f_setup(inifile, flag_ow=None):
                flags.append((inifile, flag_ow))
                return settings, model, H

            def f_out(m, d, name, formats):
                log.append(('out', str(pathlib.Path(d).resolve()), name, list(formats), list(m.state), os.path.isdir(str(d))))
            saved = []

            def patch(mod, name, fn):
                if hasattr(mod, name):
                    saved.append((mod, name, getattr(mod, name)))
                    setattr(mod, name, fn)
            for mod in (sim, hp):
                patch(mod, 'setup_from_inifile', f_setup)
            for mod in (sim, ap):
                if hasattr(mod, 'assign_points') and callable(getattr(mod, 'assign_points')):
                    patch(mod, 'assign_points', f_assign)
            for mod in (sim, out):
                patch(mod, 'create_outputs', f_out)
            ow = r.choice([None, True, False])
            try:
                with guard.confined(root):
                    res = ctx.call(sim.run, 'file.ini', ow)
            finally:
                for mod, name, v in reversed(saved):
                    setattr(mod, name, v)
            desc = dict(numsim=n, hydraulics=hyd, outputs=fmts)
            ctx.case((n, hyd, tuple(fmts), ow), trivial=n == 1)
            ctx.must(res, 'run', desc)
            ctx.expect(flags == [('file.ini', ow)], 'the parameter file and the overwrite flag are passed on', desc, ('file.ini', ow), flags)
            outs = [x for x in log if isinstance(x, tuple)]
            base = os.path.realpath(root) + '/run'
            wd = [base] if n == 1 else ['%s/real_%03d' % (base, k) for k in range(1, n + 1)]
            ctx.expect([x[1] for x in outs] == wd, 'one set of outputs per realisation, each in its own directory', desc, wd, [x[1] for x in outs])
            for k, x in enumerate(outs):
                ws = ['generated', k + 1, 'assigned'] + (['hydraulics'] if hyd else [])
                ctx.expect(x[4] == ws, 'what is written is the model generated for this realisation', desc, ws, x[4])
                ctx.expect(x[2] == 'nm' and x[3] == fmts and x[5], 'name, formats and directory of the outputs', desc, ('nm', fmts, True), (x[2], x[3], x[5]))


def real(ctx):
    sim = ctx.load('hyvr.sim')
    for i in ctx.iter(8):
        r = ctx.rng
        S, E, info = inigen.new_ini(r, runnable=True, outputs=['npz', 'py'])
        n = r.randint(1, 3)
        S['run']['numsim'] = str(n)
        S['run'].pop('runname', None)
        S['run'].pop('modeldir', None)
        with guard.scratch() as root:
            ini = os.path.join(root, 'p.ini')
            inigen.write(S, ini)
            with guard.confined(root) as blocked:
                res = ctx.call(sim.run, ini)
            ctx.case((n, i), trivial=n == 1)
            ctx.must(res, 'whole run', S)
            ctx.expect(not blocked, 'touched something outside the run directory', S, None, list(blocked))
            if res[0] == 'exc':
                continue
            snap = guard.snapshot(root)
            names = sorted(k for k in snap if snap[k][0] == 'f' and k != 'p.ini')
            dirs = [''] if n == 1 else ['real_%03d/' % k for k in range(1, n + 1)]
            want = sorted(['p/p_autogenerated_backup.ini'] + ['p/%sp.%s' % (d, e) for d in dirs for e in ('npz', 'pickle')])
            ctx.expect(names == want, 'files of the run', S, want, names)
            m = E['model']
            sh = tuple(int(round(m['l' + a] / m['d' + a])) for a in 'xyz')
            for d in dirs:
                p = os.path.join(root, 'p', d + 'p.npz')
                if os.path.exists(p):
                    z = np.load(p)
                    for k in ('facies', 'ae', 'ha', 'strata', 'azim', 'dip', 'hat'):
                        ctx.expect(k in z and z[k].shape == sh, 'array %s of the output' % k, S, sh, z[k].shape if k in z else sorted(z))


PARTS = [('realisations', flow), ('whole runs', real)]
