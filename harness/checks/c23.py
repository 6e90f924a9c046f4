"""Each transformation function runs exactly once, in order, on the result of the one before; exactly the requested states are saved"""
import os
import random
from .. import files, gen, pipeline
ID = 'C23'
RULE = 'distinct = (save strategy, number of functions, saved states) and sequences of function kinds; every call, return value and saved file is compared with a simulation'
REQUIRED = ['model runs', 'functions called', 'saved results compared', 'followed datasets compared', 'kind partial', 'kind wrapper', 'kind filtered', 'kind single', 'kind lambda', 'kind callable',
            'runs from cache', 'runs without cache', 'strategies', 'bad strategies refused', 'bad configurations refused', 'unknown names']


def gen_run(rng, index):
    return [pipeline.Run(rng, i) for i in range(rng.choice([1, 1, 2, 3]))]


def run_run(case, mon):
    bench = pipeline.Bench(random.Random(case[0].seed), mon)
    before = files.tree(bench.source)
    done = {}
    for run in case:
        calls = []
        known = bench.runs()
        expect = bench.expect(run)
        manager, data = bench.go(run, calls)
        pipeline.check_calls(mon, run, expect, calls)
        mon.check(data == expect[-1][1], 'the model run returned something else than its last function')
        new = bench.runs() - known
        mon.check(len(new) == 1 and os.path.samefile(manager.directory, os.path.join(bench.out, min(new))), 'output directories {} for {}', new, manager.directory)
        mon.check(manager.report_id in manager.directory, 'directory {} does not carry the id of the run', manager.directory)
        pipeline.check_saved(mon, bench, run, expect, manager.directory)
        mon.check(files.tree(bench.source) == before, 'source files changed')
        for d, t in done.items():
            mon.check(files.tree(d) == t, 'output of an earlier run changed')
        done[manager.directory] = files.tree(manager.directory)
        mon.count('model runs')
        mon.count('runs from cache' if run.cached else 'runs without cache')
        for s in run.steps:
            mon.count('kind ' + s.kind)
        mon.seen(*[s.kind for s in run.steps])
    if bench.others:
        with open(os.path.join(bench.out, 'bystander', 'deep', 'file')) as f:
            mon.check(f.read() == 'precious', 'other files in the output directory changed')


def gen_strategy(rng, index):
    return [pipeline.Run.some_strategy(rng, rng.randint(0, 40)) for _ in range(20)], rng.choice(['0', 0, -3, 'a', '1:', ':', '1:2:', 'x:3', '1:b', '1.5', '']), rng.random()


def run_strategy(case, mon):
    from ocelot.results import SaveStrategy
    strategies, bad, x = case
    for s in strategies:
        r = pipeline.Run.__new__(pipeline.Run)
        r.strategy = s
        strat = SaveStrategy(s)
        got = [i for i in range(60) if strat(i)]
        want = [i for i in range(60) if r.saves(i)]
        mon.check(got == want, 'strategy {!r} saves {}, expected {}', s, got, want)
        mon.count('strategies')
        mon.seen(str(s))
    try:
        SaveStrategy(bad)
    except ValueError:
        mon.count('bad strategies refused')
    else:
        mon.fail('strategy {!r} accepted', bad)


def gen_bad(rng, index):
    return pipeline.Run(rng, 0), rng.choice(['number', 'none', 'nested', 'object', 'name', 'name', 'unknown model', 'unknown model'])


def run_bad(case, mon):
    """Something which is no function in the configuration is found before anything runs"""
    import ocelot
    from ocelot.errors import InvalidTransformationFunction
    run, how = case
    bench = pipeline.Bench(random.Random(run.seed), mon, 1)
    calls = []
    fs = [pipeline.build(s, calls) for s in run.steps]
    wrong = {'number': 3, 'none': None, 'nested': [3.5], 'object': object()}.get(how, random.Random(run.seed).choice(['cutof', 'Cutoff', 'cutoff ', 'apos', 'consequential_config', 'cutoff_ecoinvent', 'x', 'cutoff,consequential']))
    if how == 'unknown model':
        fs = wrong
    else:
        fs.insert(run.seed % (len(fs) + 1), wrong)
    mon.count('unknown names', how in ('name', 'unknown model'))
    try:
        ocelot.system_model(bench.source, fs)
    except InvalidTransformationFunction:
        mon.count('bad configurations refused')
        mon.seen('bad', how)
    else:
        mon.fail('configuration with {!r} accepted', wrong)
    mon.check(not calls, 'functions were called')
    mon.check(not bench.runs(), 'output directory created')


KINDS = {'run': (gen_run, run_run), 'strategy': (gen_strategy, run_strategy), 'bad': (gen_bad, run_bad)}
PLAN = {'quick': dict(run=250, strategy=300, bad=60), 'thorough': dict(run=8000, strategy=6000, bad=600)}
