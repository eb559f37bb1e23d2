"""C06: preparing the run directory never destroys anything it must not."""
import z3
from hv.common import *
from hv.interp import PathV, OpaqueAttr

PAR = 'hyvr.input.parameters'
SS, BS = z3.StringSort(), z3.BoolSort()


def zb(x):
    return x if is_z(x) else z3.BoolVal(bool(x))


def directories(I, flag):
    I.module(PAR)
    base, mdir, name = PathV((z3.String('rundir'),)), PathV((z3.String('modeldir'),)), z3.String('runname')
    exists, setting = z3.Bool('rundir_exists'), I.decide(z3.Bool('overwrite_setting'))
    run = D(dict(rundir=base, modeldir=mdir, runname=name, overwrite_old_output=setting, numsim=I.size('numsim')))
    n = I.size('n_entries', 0)
    NAME = z3.Function('entry', z3.IntSort(), SS)
    FILE, DIR, LINK = (z3.Function(x, SS, BS) for x in ('is_file', 'is_dir', 'is_link'))      # is_file and is_dir follow links
    q = z3.String('q')
    I.assume(z3.ForAll([q], z3.And(z3.Not(z3.And(FILE(q), DIR(q))), z3.Or(FILE(q), DIR(q), LINK(q))), patterns=[FILE(q)]))
    ghost = I.obj('hyvr.geo.model', 'Model', removed=0, saved=0) if I.module('hyvr.geo.model') else None
    allowed = z3.Or(z3.Not(exists), zb(flag if flag is not None else setting))
    done = {}

    def within(p, what):
        """an entry of the run directory: its name"""
        if not isinstance(p, PathV):
            raise Unsupported('path %r' % (p,))
        I.oblige(what + ' only if overwriting was requested', allowed, 'pre')
        if len(p.parts) == 1:
            if zb(I.eq(p, base)).eq(zb(True)):
                raise Unsupported(what + ' of the run directory itself')
            I.oblige(what + ' inside the run directory', zb(False), 'pre')
        I.oblige(what + ' inside the run directory', zb(I.eq(PathV(p.parts[:1]), base)), 'pre')
        if len(p.parts) != 2:
            raise Unsupported('deeper path')
        return p.parts[1]

    def remove(x, tree):
        nm = within(x, 'removal')
        if not (is_z(nm) and z3.is_string(nm)):
            raise Unsupported('removal of %r' % (nm,))
        if tree:
            I.oblige('links are not followed', z3.Not(LINK(nm)), 'pre')
            I.oblige('a tree is removed as a directory', DIR(nm), 'pre')
        else:
            I.oblige('directories are not removed as files', z3.Or(LINK(nm), z3.Not(DIR(nm))), 'pre')
        k = zint(ghost.attrs['removed'])
        I.oblige('every entry is removed once', z3.And(k < n, nm == NAME(k)), 'pre')
        I.set_attr_raw(ghost, 'removed', z3.simplify(k + 1))

    def test(fn):
        def h(p):
            if not isinstance(p, PathV):
                raise Unsupported('path %r' % (p,))
            if len(p.parts) == 1 and fn is None:
                return exists if zb(I.eq(p, base)).eq(zb(True)) else fresh('exists', 'bool')
            if fn is None or len(p.parts) != 2 or not zb(I.eq(PathV(p.parts[:1]), base)).eq(zb(True)) or not is_z(p.parts[1]):
                raise Unsupported('test of %r' % (p,))
            return fn(p.parts[1])
        return h

    def listing(p, paths):
        if not (isinstance(p, PathV) and zb(I.eq(p, base)).eq(zb(True))):
            raise Unsupported('listing of %r' % (p,))
        return L(n=n, get=lambda i: PathV(base.parts + (NAME(zint(i)),)) if paths else NAME(zint(i)))

    def mkdir(p):
        I.oblige('only the model directory and the run directory are made', z3.Or(zb(I.eq(p, base)), zb(I.eq(p, mdir))), 'pre')

    def join(I, a, k):
        r = a[0]
        if not isinstance(r, PathV):
            raise Unsupported('join')
        for x in a[1:]:
            r = r.join(I, x)
        return r

    def open_(I, a, k):
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        if mode != 'w' or not isinstance(a[0], PathV):
            raise Unsupported('open')
        within(a[0], 'backup')
        I.oblige('the backup is written after the old files are removed', z3.Or(z3.Not(exists), zint(ghost.attrs['removed']) == n), 'pre')
        return OpaqueAttr('outfile')

    def new_parser(I, a, k):
        done['n'] = done.get('n', 0) + 1
        return OpaqueAttr('parser%d' % done['n'])

    def parser(I, nm, a, k):
        who, meth = (nm.split('.') + [''])[:2]
        if meth in ('read', 'read_file'):
            if a[0] != 'file.ini':
                raise Unsupported('reading %r' % (a[0],))
            done[who] = a[0]
        elif meth == 'write' and isinstance(a[0], OpaqueAttr) and a[0].name == 'outfile':
            I.oblige('the backup holds the settings of the parameter file', zb(done.get(who) == 'file.ini'), 'pre')
            I.set_attr_raw(ghost, 'saved', 1)
        else:
            raise Unsupported('parser.' + meth)
    I.path_calls = {k: (lambda I, p, a, kw, h=h: h(p)) for k, h in dict(
        exists=test(None), is_file=test(FILE), is_dir=test(DIR), is_symlink=test(LINK), mkdir=mkdir,
        unlink=lambda p: remove(p, False), iterdir=lambda p: listing(p, True)).items()}
    f1 = lambda h: (lambda I, a, k: h(a[0]))
    I.opaque_calls.update({'os.listdir': f1(lambda p: listing(p, False)), 'os.path.join': join, 'os.path.exists': f1(test(None)),
                           'os.path.isfile': f1(test(FILE)), 'os.path.isdir': f1(test(DIR)), 'os.path.islink': f1(test(LINK)),
                           'os.remove': f1(lambda p: remove(p, False)), 'os.unlink': f1(lambda p: remove(p, False)),
                           'shutil.rmtree': f1(lambda p: remove(p, True)), 'os.makedirs': f1(mkdir),
                           'configparser.ConfigParser': new_parser})
    I.opaque_prefix = [('parser', parser)]
    I.builtins = dict(I.builtins, open=Builtin('open', open_))
    I.loop_cands = [lambda I, ctx: [('entries removed', lambda ctx, kk: zint(ghost.attrs['removed']) == zint(kk))]]
    r, e = I.run_exc(PAR, 'set_up_directories', [run, 'file.ini', flag])
    if r == 'exc':
        I.oblige('only an existing directory is refused', z3.Not(allowed))
        I.oblige('a refused run changes nothing', zb(ghost.attrs['removed'] == 0 and ghost.attrs['saved'] == 0))
    else:
        I.oblige('without a request to overwrite an existing directory is refused', allowed)
        I.oblige('an existing directory is emptied', z3.Implies(exists, zint(ghost.attrs['removed']) == n))
        I.oblige('a backup of the parameter file is kept', zb(ghost.attrs['saved'] == 1))


PROOFS = [('setting', lambda I: directories(I, None)), ('overwrite', lambda I: directories(I, True)),
          ('keep', lambda I: directories(I, False))]
TRUSTED = ['operating system calls (listdir, unlink, rmtree, mkdir, open) do what is documented; rmtree does not follow links inside the tree',
           'ConfigParser.write writes the settings that read has read', 'entries of a directory are files, directories or links']
