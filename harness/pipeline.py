"""Complete model runs with made-up transformation functions, next to a plain simulation of what they have to do."""
import html.parser
import copy
import functools
import json
import logging
import os
import pickle
import random
import re

from . import files, gen, spold
from .core import HarnessError

DOCS = [None, 'Does something.', 'Does *something*.\n\n    Indented paragraph with ``code``.\n\n    * a\n    * list\n', 'Größer & <b>', '']
NAMES = ['step', 'add_things', 'drop', 'régler', 'f', 'x_y_z']


class Boom(Exception):
    pass


class Step:
    """One transformation function: what it does to the data, and what it writes to the logs"""

    def __init__(self, rng, i, run):
        self.i = i
        self.kind = rng.choice(['function', 'function', 'partial', 'wrapper', 'filtered', 'single', 'lambda', 'callable'])
        self.name = '{}_{}'.format(rng.choice(NAMES), i) if rng.random() < .8 else rng.choice(NAMES)
        self.doc = rng.choice(DOCS)
        self.table = {'title': 'Table of {}'.format(i), 'columns': ['a', 'b']} if rng.random() < .4 else None
        self.logs = rng.choice([0, 0, 1, 3]) if self.kind in ('function', 'partial', 'callable') else 0
        self.details = rng.choice([0, 0, 1, 2])
        self.op = rng.choice(['mark', 'mark', 'split', 'drop', 'reverse', 'new list'])
        if self.kind in ('wrapper', 'filtered', 'single'):
            self.op = rng.choice(['mark', 'split', 'drop'])
        self.salt = rng.randrange(5)
        self.token = 'tok{}x{}x'.format(run, i)
        if self.kind == 'lambda':
            self.name, self.doc, self.table = '<lambda>', None, None

    def __repr__(self):
        return 'Step({i}, {kind}, {name!r}, {op}, logs={logs}, details={details})'.format(**vars(self))

    # What it does: the same rules for the simulation and for the function in the model run
    def one(self, ds):
        """Datasets which replace ``ds``"""
        n = sum(map(ord, ds['id'])) + len(ds['trace'])
        ds['trace'] = ds['trace'] + [self.i]
        if self.op == 'split' and n % 3 == self.salt % 3 and len(ds['trace']) < 6:
            other = copy.deepcopy(ds)
            other['name'] += ' (copy of {})'.format(self.i)
            return [ds, other]
        if self.op == 'drop' and n % 5 == self.salt:
            return []
        return [ds]

    def chosen(self, ds):
        return sum(map(ord, ds['name'])) % 2 == self.salt % 2

    def all(self, data):
        if self.kind == 'filtered':
            return [x for ds in data for x in (self.one(ds) if self.chosen(ds) else [ds])]
        out = [x for ds in data for x in self.one(ds)]
        if self.op == 'reverse':
            out.reverse()
        return out

    def elements(self):
        cell = lambda k: [k, 'if(a<b;{};c)'.format(k), 'Größe & <b>' + ['\u2028', '\x85', '', '\u2029'][self.salt % 4], None, 1.5e-7, '', [k]][(self.salt + k) % 7]
        # (characters at which text, but not a file, is cut into lines)
        odd = ['', '\u2028', '', '\x85', '\u2029', ''][self.salt % 6]
        els = [[self.token + str(k), cell(k)] if self.table else '{}{} <i>element</i> {}ü'.format(self.token, k, odd) for k in range(self.logs)]
        return els + els[:self.salt == 3]

    def messages(self, data):
        return [(ds.get('id'), os.path.basename(ds['filepath']), '{}d{}'.format(self.token, k)) for k in range(self.details) for ds in data[:2]]


def build(step, calls, fault=None):
    """The transformation function for ``step``; ``calls`` records each call"""
    from ocelot.wrapper import TransformationWrapper
    from ocelot.transformations.utils import single_input
    logger, detailed = logging.getLogger('ocelot'), logging.getLogger('ocelot-detailed')

    def report(data):
        for k, el in enumerate(step.elements()):
            logger.info({'type': 'table element' if step.table else 'list element', 'data': el})
            if fault and fault[0] == step.i and fault[1] == 'between' and k == 0:
                raise fault[2]
        for k in range(step.details):
            for ds in data[:2]:
                detailed.info({'ds': ds, 'message': '{}d{}'.format(step.token, k), 'function': step.name})

    def before(data):
        calls.append((step.i, [ds['trace'] for ds in data]))
        if fault and fault[0] == step.i and fault[1] == 'before':
            raise fault[2]

    if step.kind in ('function', 'lambda', 'partial', 'callable'):
        def function(data, extra=None):
            before(data)
            report(data)
            out = step.all(data)
            if step.op != 'new list':
                data[:] = out
                out = data
            if fault and fault[0] == step.i and fault[1] == 'after':
                raise fault[2]
            return out
        f = function
    else:
        def function(ds):
            calls.append((step.i, [ds['trace']]))
            if fault and fault[0] == step.i and fault[1] in ('before', 'between', 'after'):
                raise fault[2]
            if step.details:
                for k in range(step.details):
                    detailed.info({'ds': ds, 'message': '{}d{}'.format(step.token, k), 'function': step.name})
            return step.one(ds)
    function.__name__, function.__doc__ = step.name, step.doc
    if step.table:
        function.__table__ = step.table
    if step.kind == 'lambda':
        inner = function
        f = lambda data: inner(data)
    elif step.kind == 'partial':
        f = functools.partial(function, extra=3)
    elif step.kind == 'wrapper':
        f = TransformationWrapper(function)
    elif step.kind == 'filtered':
        f = TransformationWrapper(function, step.chosen)
    elif step.kind == 'single':
        f = single_input(function)
    elif step.kind == 'callable':
        class Callable:
            def __call__(self, data):
                return function(data)
        f = Callable()
        f.__name__, f.__doc__ = step.name, step.doc
        if step.table:
            f.__table__ = step.table
    return f


def nest(rng, fs):
    """Random nesting of lists, tuples and collections, same order"""
    from ocelot import Collection
    out, i = [], 0
    while i < len(fs):
        if rng.random() < .25 and len(fs) - i > 1:
            n = rng.randint(1, min(4, len(fs) - i))
            out.append(nest(rng, fs[i:i + n]))
            i += n
        else:
            out.append(fs[i])
            i += 1
    kind = rng.choice(['list', 'tuple', 'collection'])
    if kind == 'collection':
        return Collection('some name', *out)
    return tuple(out) if kind == 'tuple' else out


class Run:
    """A planned model run"""

    def __init__(self, rng, run, n_steps=None, strategy=None):
        self.run = run
        n = gen.size(rng, 1, 7, 30) if n_steps is None else n_steps
        self.steps = [Step(rng, i, run) for i in range(n)]
        self.seed = rng.getrandbits(32)
        self.strategy = self.some_strategy(rng, n)
        self.follow = rng.random() < .4
        self.cached = rng.random() < .7
        self.fault = None

    @staticmethod
    def some_strategy(rng, n):
        x = rng.random()
        if x < .2:
            return None
        if x < .4:
            return rng.randint(1, 6)
        if x < .5:
            return str(rng.randint(1, 6))
        a = rng.randint(0, n)
        b = rng.randint(0, n + 2)
        return '{}:{}'.format(a, b) if x < .75 else '{}:{}:{}'.format(a, b, rng.randint(1, 4))

    def saves(self, index):
        s = self.strategy
        if s is None:
            return index % 1000 == 0
        if ':' not in str(s):
            return index % int(s) == 0
        p = [int(x) for x in s.split(':')]
        return p[0] <= index <= p[1] and (index - p[0]) % (p[2] if len(p) > 2 else 1) == 0

    def __repr__(self):
        return 'Run({}, steps={}, strategy={!r}, follow={}, fault={})'.format(self.run, self.steps, self.strategy, self.follow, self.fault)


class Bench:
    """Scratch directories for model runs, with some things in them which are nobody's business"""

    def __init__(self, rng, mon, n=None):
        self.mon, self.rng = mon, rng
        os.environ['XDG_DATA_HOME'] = os.path.join(mon.scratch, 'home')
        os.makedirs(os.environ['XDG_DATA_HOME'])
        if rng.random() < .5:
            os.environ['OCELOT_OUTPUT'] = self.out = os.path.join(mon.scratch, 'out')
        else:
            os.environ.pop('OCELOT_OUTPUT', None)
            self.out = os.path.join(mon.scratch, 'home', 'Ocelot', 'model-runs')
        os.makedirs(self.out)
        names = gen.Names(rng)
        self.source = os.path.join(mon.scratch, 'data')
        data = [spold.random_dataset(rng, names, odd=False) for _ in range(n or rng.randint(1, 5))]
        want = spold.write_directory(rng, self.source, data)
        from ocelot.io import extract_directory
        for base, dirs, fns in os.walk(self.source):
            for x in fns:
                os.utime(os.path.join(base, x), (1e9, 1e9))
        os.utime(self.source, (1e9, 1e9))
        self.data = extract_directory(self.source, use_mp=False)
        if sorted(d['filepath'] for d in self.data) != sorted(fp for fp, lst in want.items() for _ in lst):
            raise HarnessError('extraction does not work, see C20')
        self.others = rng.random() > .25
        if not self.others:
            return
        os.makedirs(os.path.join(self.out, 'bystander', 'deep'))
        with open(os.path.join(self.out, 'bystander', 'deep', 'file'), 'w') as f:
            f.write('precious')
        with open(os.path.join(self.out, 'notes.txt'), 'w') as f:
            f.write('precious')

    def follow(self, run):
        return os.path.basename(random.Random(run.seed).choice(self.data)['filepath'])[:8] if run.follow else None

    def expect(self, run):
        """[(data before, data after)] per step"""
        data = copy.deepcopy(self.data)
        for ds in data:
            ds['trace'] = []
        out = []
        for step in run.steps:
            before = copy.deepcopy(data)
            data = step.all(copy.deepcopy(data))
            out.append((before, copy.deepcopy(data)))
        return out

    def go(self, run, calls):
        """The real thing"""
        import ocelot
        rng = random.Random(run.seed + 1)

        def start(data):
            for ds in data:
                ds['trace'] = []
            return data
        fs = [build(s, calls, run.fault) for s in run.steps]
        first = run.steps[0]
        # the first function sees extracted data: let it begin the trace
        real = fs[0]
        mark = _Marked(real, start) if not isinstance(real, functools.partial) else functools.partial(_Marked(real, start))
        fs[0] = mark
        config = nest(rng, fs)
        return ocelot.system_model(self.source, config, show=False, use_cache=run.cached, save_strategy=run.strategy, follow=self.follow(run))

    def runs(self):
        return {n for n in os.listdir(self.out) if os.path.isdir(os.path.join(self.out, n)) and n != 'bystander'}


class _Marked:
    def __init__(self, f, start):
        self.f, self.start = f, start
        base = f.func if isinstance(f, functools.partial) else f
        self.__name__, self.__doc__ = base.__name__, base.__doc__
        self.__table__ = getattr(base, '__table__', None)

    def __call__(self, data):
        return self.f(self.start(data))


def load(fp):
    with open(fp, 'rb') as f:
        return pickle.load(f)


def loglines(fp):
    with open(fp, encoding='utf-8') as f:
        return [json.loads(line) for line in f]


def check_calls(mon, run, expect, calls, upto=None):
    """Each function once, in order, with the result of the one before"""
    pos = 0
    for step, (before, after) in zip(run.steps, expect):
        if upto is not None and step.i > upto:
            break
        traces = [ds['trace'] for ds in before]
        if step.kind == 'filtered':
            traces = [ds['trace'] for ds in before if step.chosen(ds)]
        if step.kind in ('wrapper', 'filtered', 'single'):
            want = [(step.i, [t]) for t in traces]
        else:
            want = [(step.i, traces)]
        got = calls[pos:pos + len(want)]
        if upto is not None and step.i == upto:
            want = want[:len(calls) - pos]
        mon.check(got[:len(want)] == want, 'function {} was called with {}, expected {}', step.i, got, want)
        pos += len(want)
        mon.count('functions called')
    mon.check(pos == len(calls), 'functions called again: {}', calls[pos:])


def describe(step):
    return {'name': step.name, 'description': step.doc, 'table': step.table}


def check_log(mon, run, expect, fp, report_id, count, upto=None):
    lines = loglines(fp)
    times = [x.pop('time', None) for x in lines]
    mon.check(all(isinstance(t, float) for t in times), 'log messages without time')
    want = [{'type': 'report start', 'uuid': report_id, 'count': count}]
    for step, (before, after) in zip(run.steps, expect):
        n = len(before)
        if upto is not None and step.i > upto:
            break
        want.append(dict(describe(step), index=step.i, type='function start', count=n))
        els = [{'type': 'table element' if step.table else 'list element', 'data': el} for el in step.elements()]
        if upto is not None and step.i == upto:
            got = lines[len(want):]
            mon.check(got == els[:len(got)], 'log goes on with {}, expected the beginning of {}', got, els)
            mon.check(lines[:len(want)] == want, 'log differs: {}', first_difference(lines, want))
            return
        want += els
        want.append(dict(describe(step), index=step.i, type='function end', count=len(after)))
        mon.count('log messages', len(els) + 2)
    want.append({'type': 'report end'})
    mon.check(lines == want, 'log differs: {}', first_difference(lines, want))


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return 'line {} is {}, expected {}'.format(i, x, y)
    return '{} lines, expected {}; rest {}'.format(len(a), len(b), (a[len(b):] or b[len(a):])[:2])


def check_details(mon, run, expect, fp, upto=None):
    lines = loglines(fp)
    want = []
    for step, (before, after) in zip(run.steps, expect):
        if upto is not None and step.i >= upto:
            break
        if step.kind in ('wrapper', 'filtered', 'single'):
            want += [(step.name, ds['id'], os.path.basename(ds['filepath']), '{}d{}'.format(step.token, k))
                     for ds in before if step.kind != 'filtered' or step.chosen(ds) for k in range(step.details)]
        else:
            want += [(step.name,) + m for m in step.messages(before)]
    got = [(x['function'], x['dataset']['id'], x['dataset']['filename'], x['message']) for x in lines]
    if upto is not None:
        mon.check(got[:len(want)] == want, 'detailed log differs: {}', first_difference(got, want))
        token = run.steps[upto].token
        mon.check(all(token in g[3] for g in got[len(want):]), 'detailed log has messages of other functions or runs: {}', got[len(want):])
    else:
        mon.check(got == want, 'detailed log differs: {}', first_difference(got, want))
    mon.count('detailed messages', len(want))


class Page(html.parser.HTMLParser):
    """What a browser shows of a report: heading, column labels, table rows and list items of each function"""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.heads, self.columns, self.rows, self.items, self.links = {}, {}, {}, {}, {}
        self.i, self.where, self.cells = None, None, []
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        m = re.fullmatch(r'function(\d+)(-container)?', a.get('id') or '')
        if m:
            self.i = int(m.group(1))
            if not m.group(2):
                self.where = self.heads.setdefault(self.i, [''])
        elif tag == 'a' and re.fullmatch(r'#function\d+', a.get('href') or ''):
            self.where = self.links.setdefault(int(a['href'][9:]), [''])
        elif self.i is not None and tag in ('th', 'td', 'li'):
            kind = {'th': self.columns, 'li': self.items, 'td': None}[tag]
            self.where = self.cells if kind is None else kind.setdefault(self.i, [])
            self.where.append('')
        elif tag == 'tr':
            self.cells = []
        elif tag == 'span':
            self.where = None

    def handle_endtag(self, tag):
        if tag == 'tr' and self.cells:
            self.rows.setdefault(self.i, []).append(tuple(map(squeeze, self.cells)))
            self.cells = []
        if tag in ('tr', 'th', 'td', 'li', 'h2', 'a'):
            self.where = None

    def handle_data(self, data):
        if self.where:
            self.where[-1] += data


def squeeze(x):
    return ' '.join(str(x).split())


def check_tables(mon, text, lines):
    """Each section of the report shows all rows which its function has logged, and nothing else"""
    page = Page(text)
    rows, meta, current = {}, {}, None
    for x in lines:
        if x['type'] == 'function start':
            current = x['index']
            meta[current], rows[current] = x, []
        elif x['type'] == 'table element':
            rows[current].append(tuple(squeeze(c) for c in x['data']))
    for i, x in meta.items():
        for where in (page.heads, page.links):
            mon.check(i in where and squeeze(x['name']) in squeeze(where[i][0]), 'report does not show the name {} of function {}, but {}', x['name'], i, where.get(i))
        if x['table']:
            mon.check([squeeze(c) for c in x['table']['columns']] == list(map(squeeze, page.columns.get(i, []))), 'report of {} labels columns {}', x['name'], page.columns.get(i))
            got, want = sorted(page.rows.get(i, [])), sorted(rows[i])
            mon.check(got == want, 'table of {} shows other rows than logged: {}', x['name'], first_difference(got, want))
            mon.count('rows of tables', len(want))
            mon.count('repeated rows', len(set(want)) < len(want))
            mon.count('rows with markup', sum(1 for r in want for c in r if '<' in c or '&' in c))


def check_html(mon, run, expect, fp, report_id):
    with open(fp, encoding='utf-8') as f:
        text = f.read()
    check_tables(mon, text, loglines(os.path.join(os.path.dirname(fp), 'report.log.json')))
    mon.check(report_id in text, 'report does not name its run')
    check_figures(mon, text, loglines(os.path.join(os.path.dirname(fp), 'report.log.json')))
    starts = [text.find('id="function{}"'.format(s.i)) for s in run.steps]
    mon.check(all(x >= 0 for x in starts) and starts == sorted(starts), 'report does not show all functions in order: {}', starts)
    for a, b, step, (_, after) in zip(starts, starts[1:] + [len(text)], run.steps, expect):
        part = text[a:b]
        tokens = re.findall(r'tok\d+x\d+x\d+', part)
        want = [re.search(r'tok\d+x\d+x\d+', str(el)).group(0) for el in step.elements()]
        mon.check(sorted(tokens) == sorted(want), 'report of function {} shows {}, expected {}', step.i, tokens, want)
        mon.check(re.search('after application: {}\\b'.format(len(after)), part), 'report of function {} does not show {} datasets', step.i, len(after))
        if step.table:
            mon.check(step.table['title'] in part and all(c in part for c in step.table['columns']), 'report of function {} has no table', step.i)
        mon.count('report sections')


def series(text, chart):
    """The numbers which a chart of the report draws"""
    at = text.find('new Chartist')
    while at >= 0 and chart not in text[at:text.find(',', at)]:
        at = text.find('new Chartist', at + 1)
    m = re.search(r'series\s*:\s*\[\s*(\[.*?\])\s*\]', text[at:], re.S) if at >= 0 else None
    return m and json.loads(m.group(1))


def check_figures(mon, text, lines):
    """Times and numbers of datasets in the report are those of the log"""
    ends = [x for x in lines if x['type'] == 'function end']
    times = [x['time'] for x in lines if x['type'] in ('report start', 'function end', 'report end')]
    m = re.search(r'Input datasets:\s*(\d+)', text)
    mon.check(m and int(m.group(1)) == lines[0]['count'], 'report shows {} input datasets, log has {}', m and m.group(1), lines[0]['count'])
    m = re.search(r'Time:\s*([\d.]+)\s*seconds', text)
    mon.check(m and abs(float(m.group(1)) - (times[-1] - times[0])) <= .0501, 'report shows {} seconds, log has {}', m and m.group(1), times[-1] - times[0])
    got = series(text, 'countChart')
    want = [lines[0]['count']] + [x['count'] for x in ends]
    mon.check(got == want, 'report draws {} datasets, log has {}', got, want)
    got = series(text, 'timingChart')
    mon.check(got is not None and len(got) == len(times) and all(abs(g - (t - times[0])) < 1e-3 for g, t in zip(got, times)), 'report draws times {}, log has {}', got, times)
    start = {x['index']: x['time'] for x in lines if x['type'] == 'function start'}
    got = [int(x) for x in re.findall(r'Total time:\s*(\d+)\s*seconds', text)]
    want = [x['time'] - start[x['index']] for x in ends]
    mon.check(len(got) == len(want) and all(abs(g + .5 - w) <= .5001 for g, w in zip(got, want)), 'report shows function times {}, log has {}', got, want)
    mon.count('figures of reports')


def check_slow(mon, directory, scratch, rng):
    """The report of the same log, if the functions had taken their time"""
    from ocelot.report import HTMLReport
    lines = loglines(os.path.join(directory, 'report.log.json'))
    t = lines[0]["time"]
    for x in lines:
        t += rng.choice([0., .001, rng.random(), rng.uniform(1, 9), rng.uniform(10, 4000)])
        x['time'] = t
    os.makedirs(scratch)
    fp = os.path.join(scratch, 'report.log.json')
    with open(fp, 'w', encoding='utf-8') as f:
        for x in lines:
            f.write(json.dumps(x, ensure_ascii=rng.random() < .5) + '\n')
    HTMLReport(fp)
    with open(os.path.join(scratch, 'report.html'), encoding='utf-8') as f:
        check_figures(mon, f.read(), lines)


def check_saved(mon, bench, run, expect, directory, final=True, upto=None):
    got = {}
    for fn in os.listdir(directory):
        if fn.endswith('.pickle'):
            key = 'final' if fn.startswith('final-results') else int(re.match(r'(\d+)\.', fn).group(1))
            mon.check(key not in got, 'two saved results for {}', key)
            got[key] = load(os.path.join(directory, fn))
            if key != 'final':
                slug = re.sub('[^a-z_0-9]', '', run.steps[key].name)
                mon.check(slug[:1] in fn, 'saved result {} does not name its function', fn)
    want = {s.i: after for s, (_, after) in zip(run.steps, expect) if run.saves(s.i) and (upto is None or s.i < upto)}
    if final:
        want['final'] = expect[-1][1]
    mon.check(set(got) == set(want), 'saved results {}, expected {} for {!r}', sorted(map(str, got)), sorted(map(str, want)), run.strategy)
    for k in want:
        mon.check(got[k] == want[k], 'saved result {} differs from the data at that time', k)
        mon.count('saved results compared')
    mon.seen('strategy', str(run.strategy)[:5], len(run.steps), sorted(map(str, want))[:6])
    follow = bench.follow(run)
    fdir = os.path.join(directory, 'follow')
    mon.check(os.path.isdir(fdir) == bool(follow), 'directory for followed datasets: {}', os.path.isdir(fdir))
    if follow:
        got = {}
        for fn in os.listdir(fdir):
            x = load(os.path.join(fdir, fn))
            mon.check(x['index'] not in got, 'step {} was saved twice', x['index'])
            got[x['index']] = x
        want = {}
        for s, (_, after) in zip(run.steps, expect):
            chosen = [ds for ds in after if follow in ds['filepath']]
            if chosen and (upto is None or s.i < upto):
                want[s.i] = chosen
        mon.check(set(got) == set(want), 'followed dataset saved after {}, expected {}', sorted(got), sorted(want))
        for k in want:
            mon.check(got[k]['datasets'] == want[k], 'followed dataset differs after function {}', k)
            mon.check(got[k]['follow string'] == follow, 'followed dataset has the wrong search string {!r}', got[k]['follow string'])
            mon.check(got[k]['function name'] == run.steps[k].name, 'followed dataset has the wrong function name {!r}', got[k]['function name'])
            mon.count('followed datasets compared')
