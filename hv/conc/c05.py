"""run name, model directory and run directory"""
import builtins
import os
import pathlib

from hv.conc import guard, inigen

RULE = 'random file names (dots, autogenerated-backup suffix), relative/absolute paths, runname/modeldir given or not; non-trivial: all'


def names(ctx):
    f = ctx.get('hyvr.input.parameters', 'parameters')
    cwd0 = os.getcwd()
    for i in ctx.iter(250):
        r = ctx.rng
        S, E, info = inigen.new_ini(r)
        with guard.scratch() as root:
            sub = '/'.join(r.choice(['a', 'b.c', 'mod el', 'run1']) for _ in range(r.randint(1, 3)))
            os.makedirs(os.path.join(root, sub))
            stem = r.choice(['par', 'my.run', 'a_b', 'x.y.z', 'test_parameters', 'abc_autogenerated_backup', 'q.r_autogenerated_backup'])
            fn = stem + '.ini'
            S['run'].pop('runname', None)
            S['run'].pop('modeldir', None)
            rn = md = None
            if r.random() < .5:
                rn = S['run']['runname'] = r.choice(['given', 'n.1', 'two words'])
            k = r.random()
            other = r.choice(['out', 'o/p', 'a/../b'])
            typed = r.choice(['', os.path.join(root, 'typed')])
            if k < .3:
                md = S['run']['modeldir'] = os.path.join(root, other)
            elif k < .45:
                md = S['run']['modeldir'] = other
            elif k < .65:
                md = S['run']['modeldir'] = 'select'
            p = os.path.join(root, sub, fn)
            inigen.write(S, p)
            if r.random() < .3:
                t = open(p, 'rb').read()
                open(p, 'wb').write(b'\xef\xbb\xbf' + t)                  # utf-8 with byte order mark
            how = r.choice(['abs', 'path', 'rel'])
            before = guard.snapshot(root)
            asked = []
            inp = builtins.input
            builtins.input = lambda *a: (asked.append(a), typed)[1]
            try:
                os.chdir(os.path.join(root, sub))
                arg = {'abs': p, 'path': pathlib.Path(p), 'rel': fn}[how]
                with guard.confined(root):
                    res = ctx.call(f, arg)
                here = os.getcwd()
            finally:
                os.chdir(cwd0)
                builtins.input = inp
            desc = dict(file=sub + '/' + fn, how=how, runname=rn, modeldir=md, typed=typed)
            ctx.case(desc)
            res = ctx.must(res, 'parameter file rejected', desc)
            if res is None:
                continue
            run = res[0]
            bk = stem.endswith('_autogenerated_backup')
            ini_dir = os.path.join(root, sub)
            wn = rn if rn is not None else (stem[:-len('_autogenerated_backup')] if bk else stem)
            if bk:
                wm, wr = os.path.dirname(ini_dir), ini_dir
            else:
                if md is None or (md == 'select' and typed == ''):
                    wm = ini_dir
                elif md == 'select':
                    wm = typed
                else:
                    wm = os.path.normpath(os.path.join(here, md))
                wr = os.path.join(wm, wn)
            wm = os.path.normpath(wm)
            ctx.expect(run['runname'] == wn, 'run name', desc, wn, run['runname'])
            ctx.expect(str(run['modeldir']) == wm, 'model directory', desc, wm, run['modeldir'])
            ctx.expect(str(run['rundir']) == os.path.normpath(wr), 'run directory', desc, wr, run['rundir'])
            ctx.expect(guard.snapshot(root) == before, 'reading the parameters changes no files', desc)
            ctx.expect(bool(asked) == (md == 'select' and not bk), 'the user is asked for the directory', desc, md == 'select', asked)


def missing(ctx):
    f = ctx.get('hyvr.input.parameters', 'parameters')
    for i in ctx.iter(6):
        with guard.scratch() as root:
            for arg in (root + '/nothere.ini', pathlib.Path(root) / 'nothere.ini'):
                res = ctx.call(f, arg)
                ctx.case(type(arg).__name__)
                ctx.expect(res[0] == 'exc' and isinstance(res[1], FileNotFoundError), 'missing parameter file', arg, 'FileNotFoundError', res[1])


PARTS = [('names', names), ('missing', missing)]
