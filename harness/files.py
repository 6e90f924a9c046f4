"""Faults in the file system: hooks on audit events, crashes at chosen points, processes killed while writing."""
import os
import pickle
import resource
import signal
import sys
import time

_armed = None
_installed = False


def _hook(event, args):
    if _armed is not None:
        _armed(event, args)


class Audit:
    """Call ``function(event, args)`` at every audit event (opens, renames, ...) while inside of the block"""

    def __init__(self, function):
        self.function = function

    def __enter__(self):
        global _armed, _installed
        if not _installed:
            sys.addaudithook(_hook)
            _installed = True

        def guarded(event, args):
            global _armed
            keep, _armed = _armed, None
            try:
                self.function(event, args)
            finally:
                if _armed is None and not self.closed:
                    _armed = keep
        self.closed = False
        _armed = guarded
        return self

    def __exit__(self, *args):
        global _armed
        self.closed = True
        _armed = None


def path_of(x):
    if isinstance(x, bytes):
        return os.fsdecode(x)
    return x if isinstance(x, str) else os.fspath(x) if hasattr(x, '__fspath__') else None


def in_child(function, fsize=None, wall=60):
    """Run ``function`` in a forked process. Returns ('ok', value), ('error', text), ('killed', signal) or ('exit', code)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 0)
            if fsize is not None:
                how, n = fsize
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if how == 'kill' else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, resource.RLIM_INFINITY))
            try:
                out = 'ok', function()
            except SystemExit as e:
                out = 'exit', e.code
            except BaseException as e:
                out = 'error', repr(e)
            resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY)) if fsize else None
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f)
        except BaseException:
            code = 9
        os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.time() + wall
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        return 'killed', os.WTERMSIG(status)
    if not data:
        return 'exit', os.WEXITSTATUS(status)
    return pickle.loads(data)


def tree(dirpath):
    """{relative path: contents, link target or None for directories}"""
    out = {}
    for base, dirs, fns in os.walk(dirpath):
        for n in dirs + fns:
            fp = os.path.join(base, n)
            rel = os.path.relpath(fp, dirpath)
            if os.path.islink(fp):
                out[rel] = '->' + os.readlink(fp)
            elif os.path.isdir(fp):
                out[rel] = None
            else:
                with open(fp, 'rb') as f:
                    out[rel] = f.read()
    return out


class Escape(BaseException):
    """The code under test tried to delete something outside of its scratch directory"""


DESTRUCTIVE = ('shutil.rmtree', 'os.remove', 'os.rmdir', 'os.rename', 'os.truncate', 'shutil.move', 'os.chmod', 'os.chown', 'os.link', 'os.symlink')
FORBIDDEN = ('os.system', 'subprocess.Popen', 'os.exec', 'os.posix_spawn')


class Guard(Audit):
    """Refuses destructive calls outside of ``scratch`` before they happen; ``extra`` is called for every event"""

    def __init__(self, scratch, extra=None):
        self.scratch = os.path.realpath(scratch)
        self.deleted, self.escapes = [], []

        def function(event, args):
            if event in DESTRUCTIVE:
                dir_fd = [a for a in args[1:] if isinstance(a, int) and a >= 0] if event in ('os.remove', 'os.rmdir', 'shutil.rmtree') else []
                for a in args[:2]:
                    p = path_of(a) if isinstance(a, (str, bytes)) or hasattr(a, '__fspath__') else None
                    if p is None or (dir_fd and not os.path.isabs(p)):
                        continue
                    # where the last component lies, links in front of it resolved
                    full = os.path.join(os.path.realpath(os.path.dirname(os.path.abspath(p))), os.path.basename(os.path.abspath(p)))
                    if not full.startswith(self.scratch + os.sep):
                        self.escapes.append((event, p))
                        raise Escape(event + ' ' + p)
                    if event in ('shutil.rmtree', 'os.remove', 'os.rmdir'):
                        self.deleted.append(full)
            elif event in FORBIDDEN:
                self.escapes.append((event, str(args)[:200]))
                raise Escape(event)
            if extra:
                extra(event, args)
        super().__init__(function)
