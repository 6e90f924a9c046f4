"""A complete model run, from files and command line to saved results"""
import contextlib
import io
import os
import pickle
import random
import sys
import webbrowser
from .. import e2e, files, gen, spold
from . import c28
ID = 'C36'
RULE = ('distinct = (system model, how it was started, save strategy, followed files, cache, features of the database) of complete runs from files written by an independent writer; all saved results, '
        'followed datasets and opened pages are compared with what was asked for, and the final results with the reference model')
REQUIRED = ['model runs', 'by command line', 'by function', 'model cutoff', 'model cutoff_ecoinvent_row', 'model consequential', 'default model', 'intermediate results', 'followed states', 'pages opened', 'pages not opened',
            'runs from cache', 'runs without cache', 'inputs compared', 'products compared', 'environmental exchanges compared', 'production volumes compared', 'distributions compared', 'refused commands',
            'interrupted commands', 'files changed between runs']
MODELS = ['cutoff', 'cutoff', 'cutoff_ecoinvent_row', 'consequential']


def world(rng, model):
    if model == 'consequential':
        return c28.Case(rng, rng.choice(['mixed', 'small', 'recycling', 'combined', 'alloc', 'zero', 'groups']))
    return e2e.Case(rng, rng.choice(['mixed', 'alloc', 'combined', 'recycling', 'groups', 'links', 'row', 'zero', 'small']))


def gen_run(rng, index):
    runs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        model = rng.choice(MODELS)
        runs.append(dict(model=model, cli=rng.random() < .7, default=model == 'cutoff' and rng.random() < .4, show=rng.random() < .4,
                         save=rng.choice([None, None, '1', '4', '7', '2:9', '3:20:4', '0:0', '50:60']), follow=rng.choice([None, None, 'name', 'all', 'nothing']), cache=rng.random() < .7, new=rng.random() < .4))
    return dict(runs=runs, worlds=[world(rng, 'consequential' if any(r['model'] == 'consequential' for r in runs) else 'cutoff') for _ in runs], env=rng.random() < .5, relative=rng.random() < .2,
                seed=rng.getrandbits(32))


class Browser:
    """Records pages instead of opening them"""

    def __enter__(self):
        self.pages, self.real = [], {}
        for n in ('open', 'open_new', 'open_new_tab'):
            self.real[n] = getattr(webbrowser, n)
            setattr(webbrowser, n, lambda url, *args, **kw: self.pages.append(url) or True)
        self.real['get'] = webbrowser.get
        webbrowser.get = lambda *args: self
        self.open = self.open_new = self.open_new_tab = webbrowser.open
        return self

    def __exit__(self, *args):
        for n, f in self.real.items():
            setattr(webbrowser, n, f)


def command(args):
    """The command line in this process. Returns (exit code, exception)"""
    from ocelot.bin.ocelot_cli import main
    argv, sys.argv = sys.argv, ['ocelot-cli'] + args
    try:
        main()
        return 0
    except SystemExit as e:
        return e.code
    finally:
        sys.argv = argv


def flat(config):
    for f in config:
        if hasattr(f, '__iter__') and not hasattr(f, '__wrapped__'):
            yield from flat(f)
        else:
            yield f


def saves(s, index):
    if s is None:
        return index % 1000 == 0
    if ':' not in s:
        return index % int(s) == 0
    p = [int(x) for x in s.split(':')]
    return p[0] <= index <= p[1] and (index - p[0]) % (p[2] if len(p) > 2 else 1) == 0


def load(fp):
    with open(fp, 'rb') as f:
        return pickle.load(f)


class Place:
    def __init__(self, case, mon):
        self.mon = mon
        os.environ['XDG_DATA_HOME'] = os.path.join(mon.scratch, 'home')
        os.makedirs(os.environ['XDG_DATA_HOME'], exist_ok=True)
        if case['env']:
            os.environ['OCELOT_OUTPUT'] = self.out = os.path.join(mon.scratch, 'out')
        else:
            os.environ.pop('OCELOT_OUTPUT', None)
            self.out = os.path.join(mon.scratch, 'home', 'Ocelot', 'model-runs')
        os.makedirs(self.out)
        self.source = os.path.join(mon.scratch, 'data')

    def runs(self):
        return set(os.listdir(self.out))

    def write(self, rng, w):
        if os.path.isdir(self.source):
            for fn in os.listdir(self.source):
                os.remove(os.path.join(self.source, fn))
        return spold.write_directory(rng, self.source, [spold.clean_for_file(ds) for ds in w.data()])


def full_oracle(w, mon, data, model):
    out = e2e.Output(mon, data)
    e2e.activities(w, mon, out)
    if model == 'consequential':
        e2e.environment(w, mon, out)
        e2e.inputs(w, mon, out)
        e2e.volumes(w, mon, out, lambda k, ds: 'production volume' in e2e.ref.product(w.ref.by_key[k]))
    else:
        e2e.products(w, mon, out)
        e2e.environment(w, mon, out)
        e2e.inputs(w, mon, out)
        e2e.volumes(w, mon, out)
    e2e.uncertainties(w, mon, out)


def run_run(case, mon):
    import ocelot
    from ocelot.model import mapping
    rng = random.Random(case['seed'])
    place = Place(case, mon)
    old = None
    for r, w in zip(case['runs'], case['worlds']):
        if old is None or r['new'] or (isinstance(old, c28.Case) != (r['model'] == 'consequential')):
            if r['model'] == 'consequential' and not isinstance(w, c28.Case):
                continue
            if r['model'] != 'consequential' and isinstance(w, c28.Case):
                # The reference model of the same kind
                w = world(rng, r['model'])
            mon.count('files changed between runs', old is not None)
            old = w
            written = place.write(rng, w)
        w = old
        mon.sample = r, w
        names = sorted(os.path.basename(fp) for fp in written)
        follow = {None: None, 'name': rng.choice(names), 'all': '.', 'nothing': 'no such file'}[r['follow']]
        n = len(list(flat(mapping[r['model']])))
        before = place.runs()
        source = place.source
        cwd = os.getcwd()
        result = None
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), Browser() as browser, files.Guard(mon.scratch):
            if case['relative']:
                os.chdir(mon.scratch)
                source = 'data'
            try:
                if r['cli']:
                    options = []
                    if not r['show']:
                        options.append('--noshow')
                    if r['save'] is not None:
                        options += rng.choice([['--save=' + r['save']], ['--save', r['save']]])
                    if follow is not None:
                        options += rng.choice([['--follow=' + follow], ['--follow', follow]])
                    args = ['run', source] + ([] if r['default'] else [r['model']])
                    at = rng.choice([1, len(args)])
                    code = command(args[:at] + options + args[at:])
                    mon.check(not code, 'exit code {}', code)
                    mon.count('by command line')
                else:
                    result = ocelot.system_model(source, *([] if r['default'] else [rng.choice([r['model'], mapping[r['model']]])]), show=r['show'], use_cache=r['cache'], save_strategy=r['save'], follow=follow)
                    mon.count('by function')
            finally:
                os.chdir(cwd)
        mon.count('model runs')
        mon.count('model ' + r['model'])
        mon.count('default model', r['default'])
        mon.count('runs from cache' if r['cache'] or r['cli'] else 'runs without cache')
        new = place.runs() - before
        mon.check(before <= place.runs(), 'other runs are gone')
        mon.check(len(new) == 1, '{} new directories', len(new))
        d = os.path.join(place.out, new.pop())
        if result:
            mon.check(os.path.realpath(result[0].directory) == os.path.realpath(d), 'another directory was returned')
        for fn in ('report.html', 'report.log.json'):
            mon.check(os.path.isfile(os.path.join(d, fn)), '{} is missing', fn)
        final = load(os.path.join(d, 'final-results.pickle'))
        if result:
            mon.check(result[1] == final, 'saved results are not the returned ones')
        full_oracle(w, mon, final, r['model'])
        got = sorted(int(x.split('.')[0]) for x in os.listdir(d) if x.endswith('.pickle') and x != 'final-results.pickle')
        want = [i for i in range(n) if saves(r['save'], i)]
        mon.check(got == want, 'saved intermediate results {}, expected {} ({})', got, want, r['save'])
        mon.count('intermediate results', len(got))
        last = [x for x in os.listdir(d) if x.startswith('{}.'.format(n - 1))]
        if last:
            mon.check(load(os.path.join(d, last[0])) == final, 'results after the last function are not the final ones')
        fd = os.path.join(d, 'follow')
        followed = os.listdir(fd) if os.path.isdir(fd) else []
        states = sorted(int(x.split('.')[0]) for x in followed)
        if r['follow'] in (None, 'nothing'):
            mon.check(not followed, 'datasets followed which were not asked for: {}', followed[:3])
        else:
            mon.check(states == sorted(set(states)) and set(states) <= set(range(n)), 'followed states {}', states)
            if r['follow'] == 'all':
                mon.check(states == list(range(n)), 'followed states {} of {}', states, n)
            have = [ds for ds in final if follow in ds['filepath']]
            mon.check(bool(have) == (n - 1 in states), 'final state of the followed datasets is {}', 'missing' if have else 'there')
            for x in followed:
                s = load(os.path.join(fd, x))
                mon.check(s['datasets'] and all(follow in ds['filepath'] for ds in s['datasets']), 'followed datasets of other files')
                mon.count('followed states')
                if int(x.split('.')[0]) == n - 1:
                    mon.check(s['datasets'] == have, 'followed datasets are not those of the final results')
        page = os.path.join(d, 'report.html')
        mon.check(len(browser.pages) == bool(r['show']), '{} pages opened', len(browser.pages))
        if browser.pages:
            mon.check(browser.pages[0].startswith('file:///') and browser.pages[0].endswith(os.path.basename(d) + '/report.html'), 'page {} opened', browser.pages[0])
            mon.count('pages opened')
        else:
            mon.count('pages not opened')
        mon.seen(r['model'], r['cli'], r['save'], r['follow'], r['cache'], sorted(w.world.features)[:3])


# -- commands which can't be carried out

def gen_command(rng, index):
    return dict(what=rng.choice(['unknown model', 'no directory', 'bad strategy', 'interrupt', 'interrupt', 'usage']), world=world(rng, 'cutoff'), env=rng.random() < .5, seed=rng.getrandbits(32))


def run_command(case, mon):
    rng = random.Random(case['seed'])
    place = Place(case, mon)
    place.write(rng, case['world'])
    what = case['what']
    mon.sample = what
    args = ['run', place.source, '--noshow']
    if what == 'unknown model':
        args.insert(2, rng.choice(['cut', 'Cutoff', 'cutoff-ecoinvent', 'apos', 'x']))
    elif what == 'no directory':
        args[1] = os.path.join(mon.scratch, 'nowhere')
    elif what == 'bad strategy':
        args.append('--save=' + rng.choice(['x', '0', '-1', '1:x', '1.5', '']))
    elif what == 'usage':
        args = rng.choice([['run'], [], ['nothing', place.source], ['run', place.source, 'cutoff', 'more'], ['validate'], ['run', place.source, '--unknown']])
    seen = []

    def extra(event, a):
        # An interrupt at some time while results or logs are written
        if what == 'interrupt' and event == 'open' and isinstance(a[0], str) and a[0].startswith(place.out) and not seen and rng.random() < .3:
            seen.append(a[0])
            raise KeyboardInterrupt()
    tree = files.tree(place.source)
    code = error = None
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), Browser() as browser, files.Guard(mon.scratch, extra):
        try:
            code = command(args)
        except Exception as e:
            error = e
    if what == 'interrupt' and not seen:
        mon.check(error is None and not code, 'run failed: {!r} {}', error, code)
        mon.count('not interrupted')
        return
    if what == 'interrupt':
        mon.check(error is None and code == 1, 'interrupted run ended with {!r}, exit code {}', error, code)
        mon.check(not place.runs(), 'interrupted run left {}', place.runs())
        mon.count('interrupted commands')
    else:
        mon.check(error is not None or code, '{} was accepted', args)
        if what in ('unknown model', 'no directory', 'usage'):
            mon.check(not place.runs(), 'refused command left {}', place.runs())
        mon.count('refused commands')
    mon.check(not browser.pages, 'page opened')
    mon.check(files.tree(place.source) == tree, 'source files changed')
    mon.seen(what, args[2:], os.path.basename(seen[0]) if seen else None)


KINDS = {'run': (gen_run, run_run), 'command': (gen_command, run_command)}
PLAN = {'quick': dict(run=160, command=100), 'thorough': dict(run=4000, command=1500)}
CHUNK = {'run': 5, 'command': 5}
