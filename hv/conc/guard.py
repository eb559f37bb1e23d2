"""Keeps every destructive effect of the code under test inside one scratch directory.

An audit hook sees every removal, rename, truncation, directory creation and opening for writing
before it happens and refuses those outside the scratch directory (also when the path leads out of
it through a symbolic link)."""
import contextlib
import os
import shutil
import sys
import tempfile

_state = {'root': None, 'blocked': []}


class Escape(Exception):
    pass


def _abs(path, dir_fd=None):
    if isinstance(path, int):
        try:
            return os.readlink('/proc/self/fd/%d' % path)
        except OSError:
            return None
    path = os.fsdecode(path)
    if not os.path.isabs(path):
        base = os.readlink('/proc/self/fd/%d' % dir_fd) if isinstance(dir_fd, int) and dir_fd >= 0 else os.getcwd()
        path = os.path.join(base, path)
    return path


def _inside(path, follow):
    root = _state['root']
    if path is None:
        return True
    if follow:
        p = os.path.realpath(path)
    else:
        p = os.path.join(os.path.realpath(os.path.dirname(path.rstrip('/'))), os.path.basename(path.rstrip('/')))
    return p.startswith(root + '/')


def _hook(ev, args):
    if _state['root'] is None:
        return
    bad = None
    if ev == 'os.remove' or ev == 'os.rmdir':
        if not _inside(_abs(args[0], args[1] if len(args) > 1 else None), False):
            bad = args[0]
    elif ev == 'os.rename':
        for p, fd in ((args[0], args[2]), (args[1], args[3])):
            if not _inside(_abs(p, fd), False):
                bad = p
    elif ev == 'shutil.rmtree':
        if not _inside(_abs(args[0], args[1] if len(args) > 1 else None), False):
            bad = args[0]
    elif ev in ('os.mkdir', 'os.truncate', 'os.chmod', 'os.chown', 'os.symlink', 'os.link', 'shutil.move'):
        q = args[1] if ev in ('os.symlink', 'os.link', 'shutil.move') else args[0]
        if not _inside(_abs(q), ev != 'os.mkdir'):
            bad = q if not (ev == 'os.mkdir' and os.path.isdir(_abs(q))) else None
    elif ev == 'open':
        path, mode, flags = args
        w = (isinstance(mode, str) and any(c in mode for c in 'wax+')) or (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_TRUNC | os.O_CREAT))
        if w and path is not None and not isinstance(path, int):
            p = _abs(path)
            if not _inside(p, True) and p != '/dev/null':
                bad = path
    elif ev in ('os.system', 'subprocess.Popen', 'os.exec', 'os.posix_spawn'):
        bad = args[0]
    if bad is not None:
        _state['blocked'].append((ev, str(bad)))
        raise Escape('%s on %s refused' % (ev, bad))


_installed = []


@contextlib.contextmanager
def scratch():
    """a scratch directory; the hook is active only inside `confined`"""
    d = os.path.realpath(tempfile.mkdtemp(prefix='hvscratch'))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def confined(root):
    if not _installed:
        sys.addaudithook(_hook)
        _installed.append(1)
    _state['root'], _state['blocked'] = root, []
    old = tempfile.tempdir
    tempfile.tempdir = root
    try:
        yield _state['blocked']
    finally:
        _state['root'] = None
        tempfile.tempdir = old


def snapshot(root):
    """{relative path: ('d',) | ('f', content) | ('l', target)}, links not followed"""
    out = {}
    for dp, dn, fn in os.walk(root, followlinks=False):
        for n in dn + fn:
            p = os.path.join(dp, n)
            k = os.path.relpath(p, root)
            if os.path.islink(p):
                out[k] = ('l', os.readlink(p))
            elif os.path.isdir(p):
                out[k] = ('d',)
            else:
                out[k] = ('f', open(p, 'rb').read())
    return out
