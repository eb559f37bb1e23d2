"""directories of a run: nothing is deleted that must not be"""
import configparser
import os
import pathlib
import runpy
import sys
import types

from hv.conc import guard, inigen

RULE = ('random directory trees (nested directories, files, symbolic links to files and directories outside the run directory, '
        'links that dangle), all combinations of the overwrite setting in the file and in the call; the tree is compared before and after; '
        'non-trivial: all')


def fill(r, d, outside, depth=0):
    for j in range(r.randint(0, 4)):
        n = os.path.join(d, r.choice('abcdef') + str(j))
        if os.path.lexists(n):
            continue
        k = r.random()
        if k < .35:
            open(n, 'w').write('content %d' % r.randint(0, 99))
        elif k < .6 and depth < 2:
            os.mkdir(n)
            fill(r, n, outside, depth + 1)
        elif k < .85:
            os.symlink(r.choice(outside), n)
        else:
            os.symlink('/nowhere/at/all', n)


def world(ctx, root):
    r = ctx.rng
    out = os.path.join(root, 'precious')
    os.makedirs(os.path.join(out, 'sub'))
    open(out + '/data.txt', 'w').write('keep')
    open(out + '/sub/more.txt', 'w').write('keep too')
    outside = [out, out + '/data.txt', out + '/sub', '../../precious']
    mdl = os.path.join(root, 'models')
    have_mdl = r.random() < .8
    run = os.path.join(mdl, 'run.x')
    exists = have_mdl and r.random() < .75
    if have_mdl:
        os.mkdir(mdl)
        os.mkdir(mdl + '/run')
        open(mdl + '/run/f', 'w').write('other run')
        open(mdl + '/file', 'w').write('other file')
        os.mkdir(mdl + '/run.x2')
        open(mdl + '/run.x2/f', 'w').write('other run 2')
    if exists:
        os.mkdir(run)
        fill(r, run, outside)
    return mdl, run, exists


def check(ctx, root, before, after, rundir, name, want_over, exists, res, desc, ini_sections):
    rel = os.path.relpath(rundir, root)
    if exists and want_over is not True:
        ctx.expect(res[0] == 'exc' and isinstance(res[1], FileExistsError), 'existing run directory without permission to overwrite', desc,
                   'FileExistsError', res[1])
        ctx.expect(after == before, 'nothing is changed when overwriting is not allowed', desc, sorted(before),
                   sorted(set(before.items()) ^ set(after.items())))
        return
    if ctx.must(res, 'setting up the directories', desc) is None and res[0] == 'exc':
        return
    inside = lambda k: k == rel or k.startswith(rel + '/')
    lost = {k: v for k, v in before.items() if not inside(k) and after.get(k) != v}
    ctx.expect(not lost, 'files outside the run directory are changed', desc, None, lost)
    new = [k for k in after if not inside(k) and k not in before]
    ctx.expect(all(rel.startswith(k + '/') for k in new), 'files created outside the run directory', desc, None, new)
    bk = rel + '/' + name + '_autogenerated_backup.ini'
    ctx.expect(sorted(k for k in after if inside(k)) == sorted([rel, bk]), 'the run directory holds the backup of the parameter file only', desc,
               [rel, bk], sorted(k for k in after if inside(k)))
    if bk in after:
        p = configparser.ConfigParser()
        p.read_string(after[bk][1].decode())
        ctx.expect({s: dict(p[s]) for s in p.sections()} == ini_sections, 'backup of the parameter file', desc, ini_sections)


def direct(ctx):
    f = ctx.get('hyvr.input.parameters', 'set_up_directories')
    for i in ctx.iter(400):
        r = ctx.rng
        S, E, info = inigen.new_ini(r)
        with guard.scratch() as root:
            mdl, run, exists = world(ctx, root)
            in_run = exists and r.random() < .2
            ini = os.path.join(run if in_run else root, 'p_autogenerated_backup.ini' if in_run else 'p.ini')
            inigen.write(S, ini)
            if r.random() < .2:
                t = open(ini, 'rb').read()
                open(ini, 'wb').write(b'\xef\xbb\xbf' + t)
            ini_over, arg = r.choice([True, False]), r.choice([None, True, False])
            rd = dict(modeldir=pathlib.Path(mdl), rundir=pathlib.Path(run), runname='nm', overwrite_old_output=ini_over)
            before = guard.snapshot(root)
            with guard.confined(root) as blocked:
                if r.random() < .5:
                    res = ctx.call(f, rd, ini, arg)
                else:
                    res = ctx.call(f, rd, ini, overwrite_old_output=arg) if arg is not None else ctx.call(f, rd, ini)
            after = guard.snapshot(root)
            eff = ini_over if arg is None else arg
            desc = dict(exists=exists, in_file=ini_over, argument=arg, tree=sorted((k, v[0]) for k, v in before.items()))
            ctx.case((exists, ini_over, arg, len(before), in_run))
            ctx.expect(not blocked, 'touched something outside the scratch directory', desc, None, list(blocked))
            check(ctx, root, before, after, run, 'nm', eff, exists, res, desc, S)
            ctx.expect(rd['rundir'] == pathlib.Path(run), 'the run directory stays the same', desc)


def whole(ctx):
    """through the entry point that parses the file: also nothing is touched when the file is not valid"""
    f = ctx.get('hyvr.input.parameters', 'setup_from_inifile')
    for i in ctx.iter(120):
        r = ctx.rng
        S, E, info = inigen.new_ini(r)
        with guard.scratch() as root:
            mdl, run, exists = world(ctx, root)
            S['run']['runname'] = 'run.x'
            S['run']['modeldir'] = mdl
            bad = r.random() < .35
            good = {s: dict(d) for s, d in S.items()}
            if bad:
                sec = r.choice(list(E['elements']) + ['model', 'hydraulics', 'strata'])
                what = {'model': 'lx', 'hydraulics': 'k_h', 'strata': 'bg_azim'}.get(sec, 'facies')
                del S[sec][what]
            ini = os.path.join(root, 'p.ini')
            inigen.write(S, ini)
            before = guard.snapshot(root)
            arg = r.choice([None, True, False])
            with guard.confined(root) as blocked:
                res = ctx.call(f, ini, arg)
            after = guard.snapshot(root)
            eff = E['run']['overwrite_old_output'] if arg is None else arg
            desc = dict(exists=exists, in_file=S['run'].get('overwrite_old_output'), argument=arg, valid=not bad, tree=sorted((k, v[0]) for k, v in before.items()))
            ctx.case((exists, eff, arg, bad, len(before)))
            ctx.expect(not blocked, 'touched something outside the scratch directory', desc, None, list(blocked))
            if bad:
                ctx.expect(res[0] == 'exc', 'invalid file accepted', desc)
                ctx.expect(before == after, 'an invalid parameter file leaves all files as they are', desc)
            else:
                check(ctx, root, before, after, run, 'run.x', eff, exists, res, desc, good)


def command(ctx):
    """the --overwrite switch of the command line: only with it overwriting is forced"""
    repo = os.environ.get('HV_REPO', '/repo')
    main = os.path.join(repo, 'hyvr', '__main__.py')
    for i in ctx.iter(8):
        for argv, want in ((['f.ini'], ('f.ini', None)), (['--overwrite', 'f.ini'], ('f.ini', True)), (['f.ini', '--overwrite'], ('f.ini', True)),
                           ([], (0, None))):
            calls = []
            stub = types.ModuleType('hyvr')
            stub.run = lambda inifile, flag_ow=None: calls.append((inifile, flag_ow))
            old, olda = sys.modules.get('hyvr'), sys.argv
            sys.modules['hyvr'] = stub
            sys.argv = ['hyvr'] + argv
            try:
                res = ctx.call(runpy.run_path, main)
            finally:
                sys.argv = olda
                if old is not None:
                    sys.modules['hyvr'] = old
                else:
                    del sys.modules['hyvr']
            ctx.case(tuple(argv), trivial=i > 0)
            ctx.must(res, 'command line', argv)
            ctx.expect(calls == [want], 'file and overwrite flag passed on', argv, want, calls)


PARTS = [('set_up_directories', direct), ('setup_from_inifile', whole), ('command line', command)]
