"""The cache never changes what a model run sees: not when files change, not after a crash, not with several processes"""
import os
import random
import shutil
import time
from .. import files, gen, spold
from .c20 import difference
ID = 'C21'
RULE = ('distinct = (sequence of operations) of histories, (point, kind of crash, what was in the cache before) and numbers of concurrent processes; every extraction is '
        'compared with what is in the files at that time')
REQUIRED = ['extractions from cache', 'extractions of changed files', 'changes during extraction', 'killed while writing', 'disk full', 'killed at an event', 'concurrent extractions',
            'correct after crash', 'without cache', 'other directories', 'empty directories', 'files with old time stamps', 'copies with old time stamps',
            'links to files', 'changed link targets', 'another directory moved into place', 'another parent moved into place', 'links to another directory']


class Source:
    """A directory of files and what they say"""

    def __init__(self, rng, dirpath, n):
        self.rng, self.dirpath = rng, dirpath
        self.names = gen.Names(rng)
        os.makedirs(dirpath)
        self.want = {}
        for _ in range(n):
            self.add()
        self.settle()

    def add(self, old=None):
        fp = os.path.join(self.dirpath, self.rng.choice(['', '', '.']) + gen.uid(self.rng) + self.rng.choice(['.spold', '.spold', '.SPOLD']))
        self.write(fp)
        return fp

    def write(self, fp, how='in place'):
        ds = [spold.random_dataset(self.rng, self.names) for _ in range(self.rng.choice([1, 1, 2]))]
        temp = fp + '.new' if how == 'replace' else fp
        if how != 'target':
            spold.Writer(self.rng).file(temp, ds)
        now = time.time()
        if how == 'replace':
            # an older copy is moved into place
            os.utime(temp, (now - 9e5, now - 9e5))
            os.replace(temp, fp)
        elif how == 'copy':
            # cp -p keeps the time stamps
            os.utime(fp, (now - 9e5, now - 9e5))
        elif how == 'target':
            # The file which the link points to is replaced
            target = os.path.realpath(fp)
            spold.Writer(self.rng).file(target + '.new', ds)
            os.replace(target + '.new', target)
        else:
            os.utime(fp, (now, now))
        self.want[fp] = [spold.plain(d, fp) for d in ds]

    def settle(self, seconds=100):
        """Make everything older, including the directory"""
        for fp in list(self.want):
            t = os.stat(fp).st_mtime - seconds
            os.utime(fp, (t, t))
        t = os.stat(self.dirpath).st_mtime - seconds
        os.utime(self.dirpath, (t, t))

    def link(self, fp, outside):
        """Put the file elsewhere, and a link in its place"""
        os.makedirs(outside, exist_ok=True)
        target = os.path.join(outside, gen.uid(self.rng))
        os.rename(os.path.realpath(fp), target)
        if os.path.islink(fp):
            os.remove(fp)
        os.symlink(target, fp)

    def swap(self, how):
        """Put another, older, directory in the place of this one"""
        top = os.path.dirname(self.dirpath)
        n = str(self.rng.getrandbits(40))
        if how == 'parent':
            shutil.copytree(top, top + n, symlinks=True)
            new = os.path.join(top + n, os.path.basename(self.dirpath))
            if os.path.islink(new):
                return False
        else:
            new = os.path.join(top, n)
            shutil.copytree(self.dirpath, new, symlinks=True)
        fps = [fp for fp in sorted(self.want) if not os.path.islink(fp)]
        for fp in fps[:1]:
            copy = os.path.join(new, os.path.relpath(fp, self.dirpath))
            ds = [spold.random_dataset(self.rng, self.names)]
            spold.Writer(self.rng).file(copy, ds)
            self.want[fp] = [spold.plain(d, fp) for d in ds]
        t = time.time() - 9e5
        for fn in os.listdir(new):
            if not os.path.islink(os.path.join(new, fn)):
                os.utime(os.path.join(new, fn), (t, t))
        os.utime(new, (t, t))
        time.sleep(.01)
        # Nothing was changed since then
        if how == 'parent':
            os.rename(top, top + n + '.old')
            os.rename(top + n, top)
        elif how == 'link':
            if os.path.islink(self.dirpath):
                os.remove(self.dirpath)
            else:
                os.rename(self.dirpath, new + '.old')
            os.symlink(new, self.dirpath)
        else:
            os.rename(self.dirpath, new + '.old')
            os.rename(new, self.dirpath)
        return bool(fps)

    def check(self, mon, got, what):
        by = {}
        for ds in got:
            by.setdefault(ds['filepath'], []).append(ds)
        mon.check(set(by) == set(self.want), '{}: extracted {} files, {} are there', what, len(by), len(self.want))
        for fp in by:
            d = difference(by[fp], self.want[fp])
            mon.check(d is None, '{}: {}', what, d)


def prepare(mon):
    os.environ['XDG_DATA_HOME'] = os.path.join(mon.scratch, 'home')
    os.environ.pop('OCELOT_OUTPUT', None)
    os.makedirs(os.environ['XDG_DATA_HOME'])


def caches(mon):
    return {k: v for k, v in files.tree(os.path.join(mon.scratch, 'home')).items() if v is not None}


OPS = ['extract', 'extract', 'extract', 'change', 'change', 'replace', 'remove', 'add', 'other', 'nocache', 'rename', 'spoil', 'during', 'elsewhere', 'clear', 'old', 'copy', 'links', 'target', 'swap', 'swap']


def gen_history(rng, index):
    ops = [rng.choice(OPS) for _ in range(gen.size(rng, 3, 10))]
    return rng.getrandbits(32), ops + ['extract']


def run_history(case, mon):
    from ocelot.io import extract_directory
    seed, ops = case
    rng = random.Random(seed)
    prepare(mon)
    src = Source(rng, os.path.join(mon.scratch, 'top', 'data'), rng.randint(1, 4))
    others = []
    changed = True
    mon.seen(*ops)
    for i, op in enumerate(ops):
        what = 'after ' + ', '.join(ops[:i + 1])
        fps = sorted(src.want)
        if op == 'extract':
            path = src.dirpath
            if rng.random() < .2:
                path = os.path.relpath(src.dirpath)
                if os.path.realpath(path) != os.path.realpath(src.dirpath):
                    path = src.dirpath
            elif rng.random() < .1:
                path += os.sep
            opened = set()

            def watch(event, args):
                if event == 'open':
                    opened.add(path_of(args[0]))
            from ..files import path_of
            with files.Audit(watch):
                got = extract_directory(path, use_mp=not fps)   # the progress bar of serial extraction insists on files
            src.check(mon, got, what)
            if changed:
                mon.count('extractions of changed files')
            elif not opened & set(src.want):
                mon.count('extractions from cache')
            changed = False
            if rng.random() < .3 and got:
                # What one run does with its data is no business of the next
                got[0]['exchanges'].clear()
                got[0]['name'] = 'spoiled'
            time.sleep(.01)
        elif op == 'nocache':
            before = caches(mon)
            src.check(mon, extract_directory(src.dirpath, False, use_mp=not fps), what + ' (without cache)')
            mon.check(caches(mon) == before, '{}: extraction without cache changed the cache', what)
            mon.count('without cache')
        elif op in ('change', 'replace') and fps:
            src.write(rng.choice(fps), 'replace' if op == 'replace' else 'in place')
            mon.count('files with old time stamps', op == 'replace')
            changed = True
        elif op == 'copy' and fps:
            src.write(rng.choice(fps), 'copy')
            mon.count('copies with old time stamps')
            changed = True
        elif op == 'links' and fps:
            src.link(rng.choice(fps), os.path.join(mon.scratch, 'outside'))
            mon.count('links to files')
            changed = True
        elif op == 'target' and fps:
            if not any(os.path.islink(fp) for fp in fps):
                src.link(rng.choice(fps), os.path.join(mon.scratch, 'outside'))
                src.settle()
                time.sleep(.01)
                src.check(mon, extract_directory(src.dirpath, use_mp=False), what + ' (links)')
                time.sleep(.01)
            src.write(rng.choice([fp for fp in fps if os.path.islink(fp)]), 'target')
            mon.count('changed link targets')
            changed = True
        elif op == 'swap':
            how = rng.choice(['directory', 'parent', 'link'])
            if src.swap(how):
                mon.count({'directory': 'another directory moved into place', 'parent': 'another parent moved into place', 'link': 'links to another directory'}[how])
            changed = True
        elif op == 'remove' and fps:
            fp = rng.choice(fps)
            os.remove(fp)
            del src.want[fp]
            changed = True
        elif op == 'clear' and rng.random() < .5:
            for fp in fps:
                os.remove(fp)
            src.want.clear()
            mon.count('empty directories')
            changed = True
        elif op == 'add':
            src.add()
            changed = True
        elif op == 'rename' and fps:
            fp = rng.choice(fps)
            new = os.path.join(src.dirpath, gen.uid(rng) + '.spold')
            os.rename(fp, new)
            src.want[new] = [dict(ds, filepath=new) for ds in src.want.pop(fp)]
            changed = True
        elif op == 'other':
            with open(os.path.join(src.dirpath, rng.choice(['readme.txt', '.hidden', 'x.bak'])), 'w') as f:
                f.write('x')
        elif op == 'spoil':
            # Temporary files of other runs, unknown files
            d = os.path.join(mon.scratch, 'home', 'Ocelot', 'cache')
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, rng.choice(['x.pickle', 'x.tmp', '0' * 32 + '.pickle'])), 'wb') as f:
                f.write(b'broken')
        elif op == 'old':
            # time passes
            src.settle(1000)
            d = os.path.join(mon.scratch, 'home')
            for base, _, fns in os.walk(d):
                for n in fns:
                    fp = os.path.join(base, n)
                    t = os.stat(fp).st_mtime - 1000
                    os.utime(fp, (t, t))
        elif op == 'elsewhere':
            o = Source(rng, os.path.join(mon.scratch, 'data{}'.format(i)), rng.randint(1, 2))
            others.append(o)
            o.check(mon, extract_directory(o.dirpath, use_mp=False), what + ' (another directory)')
            for x in others:
                x.check(mon, extract_directory(x.dirpath, use_mp=False), what + ' (another directory, cached)')
            mon.count('other directories')
        elif op == 'during' and len(fps) > 1:
            # One of the files changes after the extraction has begun
            seen = []

            def change(event, args):
                if event == 'open' and path_of(args[0]) in src.want and not seen:
                    seen.append(path_of(args[0]))
                elif event == 'open' and path_of(args[0]) in src.want and len(seen) == 1 and path_of(args[0]) != seen[0]:
                    time.sleep(.01)
                    seen.append('done')
                    src.write(seen[0])
            from ..files import path_of
            fp = rng.choice(fps)
            src.write(fp)        # so that the cache is not used
            with files.Audit(change):
                extract_directory(src.dirpath, use_mp=False)
            mon.count('changes during extraction', len(seen) > 1)
            time.sleep(.01)
            src.check(mon, extract_directory(src.dirpath, use_mp=False), what)
            changed = False


def gen_crash(rng, index):
    return rng.getrandbits(32), rng.choice(['kill', 'full', 'event']), rng.choice(['nothing', 'fresh', 'stale']), rng.choice([0, 1, 100, 4096, 8192, 20000, 65536, 'any', 'any', 'any', 'any']), rng.randrange(1, 16)


def run_crash(case, mon):
    """Whatever happens to one run while it fills the cache, the next one sees the data"""
    from ocelot.io import extract_directory
    seed, how, before, size, n = case
    rng = random.Random(seed)
    prepare(mon)
    src = Source(rng, os.path.join(mon.scratch, 'data'), rng.choice([1, 2, 4, 12]))
    if before != 'nothing':
        extract_directory(src.dirpath, use_mp=False)
        src.settle()
        if before == 'stale':
            src.write(sorted(src.want)[0])
        else:
            d = os.path.join(mon.scratch, 'home')
            for base, _, fns in os.walk(d):
                for f in fns:
                    os.utime(os.path.join(base, f), (1, 1))
    if size == 'any':
        full = files.in_child(lambda: sum(len(repr(ds)) for ds in extract_directory(src.dirpath, False, use_mp=False)))
        size = rng.randrange(1, max(2, full[1] // 2))

    if how == 'event':
        def work():
            count = [0]

            def crash(event, args):
                home = os.path.join(mon.scratch, 'home')
                if event in ('open', 'os.rename', 'os.utime', 'os.remove', 'os.mkdir', 'os.link', 'shutil.move', 'os.truncate') and any(
                        isinstance(a, (str, bytes)) and files.path_of(a).startswith(home) for a in args):
                    count[0] += 1
                    if count[0] == n:
                        os._exit(77)
            with files.Audit(crash):
                extract_directory(src.dirpath, use_mp=False)
            return count[0]
        res = files.in_child(work)
        mon.count('killed at an event', res == ('exit', 77))
    else:
        res = files.in_child(lambda: extract_directory(src.dirpath, use_mp=False), (how, size))
        if res[0] == 'killed':
            mon.count('killed while writing')
        elif res[0] == 'error':
            mon.count('disk full')
    if res[0] == 'ok' and how != 'event':
        src.check(mon, res[1], 'first run')
        mon.count('not crashed')
    mon.seen(how, before, res[0], n if how == 'event' else size > 8192)
    time.sleep(.01)
    what = 'after a run which was {} ({}, {} in the cache before)'.format(res[0], how, before)
    for i in range(2):
        try:
            got = extract_directory(src.dirpath, use_mp=False)
        except Exception as e:
            mon.fail('{}: extraction fails with {!r}', what, e)
        src.check(mon, got, what)
    mon.count('correct after crash')


def gen_many(rng, index):
    return rng.getrandbits(32), rng.randint(2, 5), rng.random() < .3


def run_many(case, mon):
    """Several processes at once"""
    from ocelot.io import extract_directory
    import threading
    seed, n, mp = case
    rng = random.Random(seed)
    prepare(mon)
    src = Source(rng, os.path.join(mon.scratch, 'data'), rng.randint(2, 10))
    results = [None] * n
    delays = [rng.random() * .02 for _ in range(n)]

    def one(i):
        def work():
            time.sleep(delays[i])
            return extract_directory(src.dirpath, use_mp=mp and i == 0)
        results[i] = files.in_child(work)
    threads = [threading.Thread(target=one, args=(i,)) for i in range(n)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    for r in results:
        mon.check(r[0] == 'ok', 'one of {} processes ended with {}', n, r)
        src.check(mon, r[1], 'one of {} processes'.format(n))
        mon.count('concurrent extractions')
    mon.seen('many', n, mp, len(src.want))
    src.check(mon, extract_directory(src.dirpath, use_mp=False), 'after {} processes'.format(n))


KINDS = {'history': (gen_history, run_history), 'crash': (gen_crash, run_crash), 'many': (gen_many, run_many)}
PLAN = {'quick': dict(history=500, crash=500, many=60), 'thorough': dict(history=12000, crash=12000, many=1500)}
