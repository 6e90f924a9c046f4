"""Every run has its own, complete log and report"""
import logging
import os
import random
from .. import e2e, files, gen, pipeline, spold
ID = 'C22'
RULE = ('distinct = (steps, kinds, outcome) of sequences of model runs in one process; every line of both logs, and every section of the report, of every run is compared with what '
        'happened in that run, again after later runs')
REQUIRED = ['model runs', 'failed runs', 'log messages', 'detailed messages', 'report sections', 'figures of reports', 'runs after a failed run', 'runs after another run', 'real models', 'rows of real models', 'consequential rows', 'rows of tables', 'repeated rows', 'rows with markup']


def gen_runs(rng, index):
    runs = [pipeline.Run(rng, i) for i in range(rng.choice([2, 2, 3, 4]))]
    for r in runs:
        if rng.random() < .3:
            r.fault = rng.randrange(len(r.steps)), rng.choice(['before', 'between', 'after']), pipeline.Boom('planned')
    return runs


def run_runs(case, mon):
    bench = pipeline.Bench(random.Random(case[0].seed), mon)
    done, failed = {}, False
    for n, run in enumerate(case):
        calls, known, expect = [], bench.runs(), bench.expect(run)
        error = None
        try:
            manager, data = bench.go(run, calls)
        except pipeline.Boom as e:
            error = e
        new = bench.runs() - known
        mon.check(len(new) == 1, '{} new output directories', len(new))
        directory = os.path.join(bench.out, min(new))
        # A function may not have reached its fault (nothing to log, no datasets)
        upto = run.fault[0] if error else None
        mon.check(error is None or run.fault is not None, 'unexpected {!r}', error)
        report_id = os.path.basename(directory)
        pipeline.check_log(mon, run, expect, os.path.join(directory, 'report.log.json'), report_id, len(bench.data), upto)
        pipeline.check_details(mon, run, expect, os.path.join(directory, 'detailed.log.json'), upto)
        if error is None:
            mon.check(manager.report_id == report_id, 'report id {}', manager.report_id)
            pipeline.check_html(mon, run, expect, os.path.join(directory, 'report.html'), report_id)
            mon.check(os.path.isdir(os.path.join(directory, 'assets')), 'report without assets')
            if n % 2:
                pipeline.check_slow(mon, directory, os.path.join(mon.scratch, 'slow', str(n)), random.Random(run.seed))
            mon.count('runs after a failed run', failed)
        else:
            mon.count('failed runs')
            failed = True
        mon.count('runs after another run', n > 0)
        for d, t in done.items():
            now = files.tree(d)
            changed = [k for k in set(t) | set(now) if t.get(k) != now.get(k)]
            mon.check(not changed, 'output of an earlier run changed: {}', changed)
        done[directory] = files.tree(directory)
        mon.count('model runs')
    mon.seen(*[(tuple(s.kind for s in r.steps), r.fault and r.fault[:2]) for r in case])


def gen_real(rng, index):
    return e2e.Case(rng, rng.choice(sorted(gen.PROFILES))), rng.getrandbits(32)


def run_real(case, mon):
    """The built-in model: log and report agree with the data before and after each function"""
    import ocelot
    from ocelot.collection import unwrap_functions
    world, seed = case
    mon.sample = world
    rng = random.Random(seed)
    bench = pipeline.Bench(rng, mon, 1)
    data = [spold.clean_for_file(ds) for ds in world.data()]
    source = os.path.join(mon.scratch, 'world')
    spold.write_directory(rng, source, data, fancy=False, several=False)
    from ocelot.io import extract_directory
    for fn in os.listdir(source):
        os.utime(os.path.join(source, fn), (1e9, 1e9))
    os.utime(source, (1e9, 1e9))
    extracted = extract_directory(source, use_mp=False)
    n0 = len(extracted)
    known = bench.runs()
    manager, result = ocelot.system_model(source, rng.choice([None, 'cutoff', ocelot.cutoff_config]), save_strategy=1)
    d = manager.directory
    lines = pipeline.loglines(os.path.join(d, 'report.log.json'))
    functions = unwrap_functions([ocelot.cutoff_config])
    starts = [x for x in lines if x['type'] == 'function start']
    ends = [x for x in lines if x['type'] == 'function end']
    name = lambda f: getattr(f, 'func', f).__name__ if not hasattr(f, '__name__') else f.__name__
    mon.check([x['name'] for x in starts] == [name(f) for f in functions] == [x['name'] for x in ends], 'functions in the log: {}', [x['name'] for x in starts])
    mon.check(lines[0]['type'] == 'report start' and lines[0]['count'] == n0 and lines[-1]['type'] == 'report end', 'begin or end of the log: {} {}', lines[0], lines[-1])
    saved = {}
    for fn in os.listdir(d):
        if fn.endswith('.pickle') and fn[0].isdigit():
            saved[int(fn.split('.')[0])] = len(pipeline.load(os.path.join(d, fn)))
    mon.check(sorted(saved) == list(range(len(functions))), 'saved after {}', sorted(saved))
    before = n0
    current, rows = None, {}
    for x in lines:
        if x['type'] == 'function start':
            mon.check(current is None and x['count'] == before, '{} starts with {} datasets after {}', x['name'], x['count'], before)
            current = x['index']
            rows[current] = []
        elif x['type'] == 'function end':
            mon.check(x['index'] == current and x['count'] == saved[current], '{} ends with {} datasets, saved were {}', x['name'], x['count'], saved[current])
            before, current = x['count'], None
        elif x['type'] in ('table element', 'list element'):
            mon.check(current is not None, 'message outside of functions: {}', x)
            rows[current].append(x)
    mon.check(before == len(result), 'log ends with {} datasets, result has {}', before, len(result))
    with open(os.path.join(d, 'report.html'), encoding='utf-8') as f:
        text = f.read()
    pipeline.check_tables(mon, text, lines)
    pos = [text.find('id="function{}"'.format(i)) for i in range(len(functions))]
    mon.check(min(pos) > 0 and pos == sorted(pos), 'report does not show all functions')
    for i, (a, b) in enumerate(zip(pos, pos[1:] + [len(text)])):
        part = text[a:b]
        want = sum(1 for r in rows[i])
        got = part.count('<tr>') - 1 if '<tbody>' in part else part[part.rfind('<ul>'):].count('<li>')
        mon.check(got == want, 'report of {} shows {} rows, {} were logged', name(functions[i]), got, want)
        mon.count('rows of real models', want)
    for x in pipeline.loglines(os.path.join(d, 'detailed.log.json')):
        mon.check(set(x) == {'time', 'message', 'function', 'dataset'} and isinstance(x['message'], str), 'detailed message {}', x)
    mon.count('real models')
    mon.seen('real', len(data), sum(map(len, rows.values())))


def gen_consequential(rng, index):
    from .. import conseq
    return conseq.constrained(rng)


def run_consequential(case, mon):
    import ocelot
    from ocelot.transformations.consequential import handle_constrained_markets, delete_activity_links_to_constrained_markets
    data, n_links, n_conditional = case
    bench = pipeline.Bench(random.Random(len(data)), mon, 1)

    def put(_):
        return data
    manager, result = ocelot.system_model(bench.source, [put, delete_activity_links_to_constrained_markets, handle_constrained_markets])
    current, rows = None, {}
    for x in pipeline.loglines(os.path.join(manager.directory, 'report.log.json')):
        if x['type'] == 'function start':
            current = x['name']
        elif x['type'] == 'table element':
            rows.setdefault(current, []).append(x['data'])
    n = len(rows.get('handle_constrained_markets', ()))
    mon.check(n == n_conditional, '{} rows for {} conditional exchanges', n, n_conditional)
    mon.count('consequential rows', n)
    mon.seen('consequential', n)


KINDS = {'runs': (gen_runs, run_runs), 'real': (gen_real, run_real), 'consequential': (gen_consequential, run_consequential)}
PLAN = {'quick': dict(runs=200, real=60, consequential=20), 'thorough': dict(runs=5000, real=1200, consequential=300)}
