"""Cleaning up deletes exactly the model runs which are older than one week"""
import datetime
import os
import random
import sys
import time
import types
from .. import files
ID = 'C25'
RULE = ('distinct = (kinds and ages of the things in the output directory, where it is, how it was called); the complete tree around the output directory is compared before and after, '
        'destructive calls outside of the scratch directory are refused')
REQUIRED = ['cleanups', 'old runs deleted', 'young runs kept', 'files kept', 'links kept', 'contents of other directories kept', 'nothing to delete', 'by command line', 'default directory', 'seconds from one week',
            'misleading modification times', 'young runs with old contents']
WEEK = 7 * 24 * 3600
NAMES = ['0123456789abcdef0123456789abcdef', 'run', 'run 2', '.hidden', 'übung', 'a.tmp', '-rf', 'final', 'cache', 'follow', 'x' * 80, '~', '*', 'run.bak', 'Run']


class Clock:
    """A clock which is ahead: everything the cleanup module can ask for the time answers ``now``"""

    def __init__(self, now):
        self.now = now

    def __enter__(self):
        import ocelot.io.cleanup as module
        self.module, self.real = module, (time.time, time.time_ns)
        offset = self.now - time.time()
        # time does not stand still while cleaning up, but nearly so
        real = time.time
        fake, fake_ns = (lambda: self.now + min(max(real() + offset - self.now, 0), .001)), (lambda: int(self.now * 1e9))

        class Date(datetime.datetime):
            @classmethod
            def now(cls, tz=None):
                return datetime.datetime.fromtimestamp(fake(), tz)

            @classmethod
            def utcnow(cls):
                return datetime.datetime.utcfromtimestamp(fake())

            @classmethod
            def today(cls):
                return datetime.datetime.fromtimestamp(fake())
        shim = types.ModuleType('datetime')
        shim.__dict__.update(vars(datetime))
        shim.datetime = Date
        self.replaced = []
        for name, value in list(vars(module).items()):
            for a, b in ((self.real[0], fake), (self.real[1], fake_ns), (datetime.datetime, Date), (datetime, shim)):
                if value is a:
                    self.replaced.append((name, value))
                    setattr(module, name, b)
        time.time, time.time_ns = fake, fake_ns

    def __exit__(self, *args):
        time.time, time.time_ns = self.real
        for name, value in self.replaced:
            setattr(self.module, name, value)


def gen_case(rng, index):
    names = rng.sample(NAMES, rng.randint(0, 8)) + ['%032x' % rng.getrandbits(128) for _ in range(rng.randint(0, 4))]
    things = []
    for n in names:
        kind = rng.choice(['run', 'run', 'run', 'run', 'file', 'empty', 'link inside', 'link to outside', 'link to file', 'dangling link', 'run with links', 'deep', 'old contents', 'continued'])
        things.append((n, kind, rng.random() < .5, rng.choice([None, None, -30, 30, -365, 8, -8])))
    return dict(things=things, where=rng.choice(['env', 'env', 'default', 'env relative', 'env link']), cli=rng.random() < .3, twice=rng.random() < .3, delta=rng.choice([0, 0, 0, 0, 1e5, -1e5, 4e6]),
                seed=rng.getrandbits(32))


def make(base, name, kind, outside, rng, mtime):
    p = os.path.join(base, name)
    if kind == 'file':
        with open(p, 'w') as f:
            f.write('notes')
    elif kind.startswith('link') or kind == 'dangling link':
        os.symlink({'link inside': os.path.join(base, 'first'), 'link to outside': os.path.join(outside, 'precious'), 'link to file': os.path.join(outside, 'precious', 'file'),
                    'dangling link': os.path.join(outside, 'nothing')}[kind], p)
    elif kind in ('old contents', 'continued') and os.path.isdir(outside + '.' + name):
        # A young directory with an older one inside
        if kind == 'continued':
            os.rename(outside + '.' + name, p)
        else:
            os.mkdir(p)
            os.rename(outside + '.' + name, os.path.join(p, 'follow'))
        with open(os.path.join(p, 'report.html'), 'w') as f:
            f.write(name)
    else:
        os.mkdir(p)
        if kind != 'empty':
            for fn in ('report.log.json', 'report.html'):
                with open(os.path.join(p, fn), 'w') as f:
                    f.write(name)
        if kind == 'deep':
            os.makedirs(os.path.join(p, 'a', 'b', 'c'))
            with open(os.path.join(p, 'a', 'b', 'c', 'd'), 'w') as f:
                f.write('d')
        if kind == 'run with links':
            os.symlink(os.path.join(outside, 'precious'), os.path.join(p, 'link'))
            os.symlink(os.path.join(outside, 'precious', 'file'), os.path.join(p, 'link2'))
            os.symlink('..', os.path.join(p, 'up'))
    if mtime is not None:
        t = time.time() + mtime * 24 * 3600
        os.utime(p, (t, t), follow_symlinks=False)


def run_case(case, mon):
    from ocelot.io import cleanup_data_directory
    rng = random.Random(case['seed'])
    home = os.environ['XDG_DATA_HOME'] = os.path.join(mon.scratch, 'home')
    os.environ.pop('OCELOT_OUTPUT', None)
    base = os.path.join(home, 'Ocelot', 'model-runs') if case['where'] == 'default' else os.path.join(mon.scratch, 'out')
    outside = os.path.join(mon.scratch, 'outside')
    for p in (base, outside, os.path.join(outside, 'precious'), os.path.join(home, 'Ocelot', 'cache', 'old')):
        os.makedirs(p)
    for p in (os.path.join(outside, 'precious', 'file'), os.path.join(home, 'Ocelot', 'cache', 'old', 'file')):
        with open(p, 'w') as f:
            f.write('precious')
    cwd = os.getcwd()
    if case['where'] == 'env':
        os.environ['OCELOT_OUTPUT'] = base
    elif case['where'] == 'env relative':
        os.environ['OCELOT_OUTPUT'] = 'out'
        os.chdir(mon.scratch)
    elif case['where'] == 'env link':
        os.symlink(base, os.path.join(mon.scratch, 'link'))
        os.environ['OCELOT_OUTPUT'] = os.path.join(mon.scratch, 'link')
    if case['where'] != 'default':
        # Another directory of runs, which is not in use
        os.makedirs(os.path.join(home, 'Ocelot', 'model-runs', 'other'))
    try:
        for name, kind, old, mtime in case['things']:
            if old:
                make(base, name, kind, outside, rng, mtime)
            elif kind in ('old contents', 'continued'):
                os.makedirs(os.path.join(outside + '.' + name, 'follow', 'a'))
                os.mkdir(os.path.join(outside + '.' + name, 'final'))
        time.sleep(.02)
        now = time.time() + WEEK + case['delta']
        time.sleep(.02)
        for name, kind, old, mtime in case['things']:
            if not old:
                make(base, name, kind, outside, rng, mtime)
        before = files.tree(mon.scratch)
        prefix = os.path.relpath(base, mon.scratch)
        gone = set()
        for name, kind, old, mtime in case['things']:
            is_old = old if not case['delta'] else case['delta'] > 0
            directory = kind in ('run', 'deep', 'empty', 'run with links', 'old contents', 'continued')
            if directory and is_old:
                gone.add(os.path.join(prefix, name))
                mon.count('old runs deleted')
            elif directory:
                mon.count('young runs kept')
                mon.count('young runs with old contents', kind in ('old contents', 'continued'))
            else:
                mon.count('files kept' if kind == 'file' else 'links kept')
            if directory and mtime is not None:
                mon.count('misleading modification times')
            mon.seen(kind, is_old, mtime, case['where'])
        want = {k: v for k, v in before.items() if not any(k == g or k.startswith(g + os.sep) for g in gone)}
        guard = files.Guard(mon.scratch)
        for _ in range(1 + case['twice']):
            try:
                with Clock(now), guard:
                    if case['cli']:
                        from ocelot.bin.ocelot_cli import main
                        argv, sys.argv = sys.argv, ['ocelot-cli', 'cleanup']
                        try:
                            main()
                        finally:
                            sys.argv = argv
                    else:
                        cleanup_data_directory()
            except files.Escape:
                pass
            mon.check(not guard.escapes, 'tried to delete something else: {}', guard.escapes)
            after = files.tree(mon.scratch)
            lost, left = sorted(set(want) - set(after)), sorted(set(after) - set(want))
            mon.check(not lost, 'deleted {}', lost[:5])
            mon.check(not left, 'not deleted: {}', left[:5])
            mon.check(after == want, 'changed {}', [k for k in want if want[k] != after[k]][:5])
        mon.count('cleanups')
        mon.count('contents of other directories kept')
        mon.count('nothing to delete', not gone)
        mon.count('by command line', case['cli'])
        mon.count('default directory', case['where'] == 'default')
        mon.count('seconds from one week', not case['delta'] and bool(gone))
        mon.seen('tree', len(gone), len(case['things']), case['where'], case['cli'])
    finally:
        os.chdir(cwd)


KINDS = {'cleanup': (gen_case, run_case)}
PLAN = {'quick': dict(cleanup=900), 'thorough': dict(cleanup=20000)}
