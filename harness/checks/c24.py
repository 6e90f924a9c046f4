"""An interrupted run leaves nothing of itself behind, and everything else alone"""
import os
import random
import signal
import threading
import time
from .. import files, gen, pipeline
ID = 'C24'
RULE = ('distinct = (point of interruption: function and place, file event, or time of a signal; number of functions, runs before); after every interruption all files in all '
        'directories are compared with those before')
REQUIRED = ['interrupted in a function', 'interrupted at a file event', 'interrupted by a signal', 'runs after an interrupted one', 'earlier runs kept', 'interrupted while writing the report',
            'interrupted while saving']


def gen_function(rng, index):
    runs = [pipeline.Run(rng, i) for i in range(rng.choice([1, 2]))]
    bad = pipeline.Run(rng, 7)
    bad.fault = rng.randrange(len(bad.steps)), rng.choice(['before', 'between', 'after']), KeyboardInterrupt()
    return runs, bad, pipeline.Run(rng, 8)


def gen_event(rng, index):
    runs = [pipeline.Run(rng, i, n_steps=rng.randint(1, 3)) for i in range(rng.choice([0, 1]))]
    bad = pipeline.Run(rng, 7, n_steps=rng.randint(1, 4))
    bad.strategy = 1
    return runs, bad, pipeline.Run(rng, 8, n_steps=2), rng.choice(['save', 'final', 'html', 'assets', 'any']), rng.random()


def snapshot(bench, mon):
    return files.tree(mon.scratch)


def same(mon, before, after, what, ignore=()):
    changed = sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0) and not any(k.startswith(i) for i in ignore))
    mon.check(not changed, '{}: {}', what, [('missing ' if k not in after else 'new ' if k not in before else 'changed ') + k for k in changed[:5]])


def normal(mon, bench, run):
    calls = []
    expect = bench.expect(run)
    known = bench.runs()
    manager, data = bench.go(run, calls)
    pipeline.check_calls(mon, run, expect, calls)
    mon.check(data == expect[-1][1], 'wrong result')
    new = bench.runs() - known
    mon.check(len(new) == 1, '{} new output directories', len(new))
    pipeline.check_log(mon, run, expect, os.path.join(manager.directory, 'report.log.json'), manager.report_id, len(bench.data))
    pipeline.check_saved(mon, bench, run, expect, manager.directory)


def interrupted(mon, bench, bad, extra=None, where=''):
    """Run ``bad``; returns whether it was interrupted"""
    before = files.tree(mon.scratch)
    guard = files.Guard(mon.scratch, extra)
    code = None
    try:
        with guard:
            bench.go(bad, [])
    except SystemExit as e:
        code = e.code
    except KeyboardInterrupt:
        mon.fail('interrupted run did not end itself {}', where)
    except files.Escape:
        pass
    mon.check(not guard.escapes, 'tried to delete or change something else: {}', guard.escapes)
    if code is None:
        return False
    mon.check(code == 1, 'interrupted run ended with code {!r}', code)
    after = files.tree(mon.scratch)
    same(mon, before, after, 'after an interruption {}'.format(where))
    return True


def run_function(case, mon):
    runs, bad, last = case
    bench = pipeline.Bench(random.Random(bad.seed), mon)
    for r in runs:
        normal(mon, bench, r)
        mon.count('earlier runs kept')
    if interrupted(mon, bench, bad, where='in function {} ({})'.format(*bad.fault[:2])):
        mon.count('interrupted in a function')
        mon.seen('function', len(bad.steps), bad.fault[:2], len(runs), bad.steps[bad.fault[0]].kind)
    normal(mon, bench, last)
    mon.count('runs after an interrupted one')


def run_event(case, mon):
    runs, bad, last, target, x = case
    bench = pipeline.Bench(random.Random(bad.seed), mon)
    for r in runs:
        normal(mon, bench, r)
        mon.count('earlier runs kept')
    # How many such events are there?
    known = bench.runs()

    def relevant(event, args):
        if event != 'open':
            return False
        p = files.path_of(args[0]) if isinstance(args[0], (str, bytes)) else None
        if not p or not os.path.abspath(p).startswith(bench.out + os.sep):
            return False
        rel = os.path.relpath(p, bench.out).split(os.sep)
        if rel[0] in known or rel[0] == 'bystander' or len(rel) < 2:
            return False
        mode = args[1]
        if isinstance(mode, str) and not set(mode) & set('wax+'):
            return False
        fn = rel[-1]
        if fn == 'detailed.log.json' and 'any' != target:
            return False
        return {'save': fn.endswith('.pickle') and fn[0].isdigit(), 'final': fn.startswith('final-results'), 'html': fn == 'report.html', 'assets': 'assets' in rel,
                'any': fn != 'report.log.json'}[target]
    events = []

    def count(event, args):
        if relevant(event, args):
            events.append(1)
    with files.Guard(mon.scratch, count):
        bench.go(bad, [])
    if not events:
        mon.count('no such event')
        return
    n = int(x * len(events))
    known |= bench.runs()
    seen = []

    def interrupt(event, args):
        if relevant(event, args):
            seen.append(1)
            if len(seen) == n + 1:
                raise KeyboardInterrupt
    # Looking up the output directory swallows everything; that is before the run
    if interrupted(mon, bench, bad, interrupt, 'while writing ({}, event {})'.format(target, n)):
        mon.count('interrupted at a file event')
        mon.count('interrupted while writing the report', target in ('html', 'assets'))
        mon.count('interrupted while saving', target in ('save', 'final'))
        mon.seen('event', target, n, len(bad.steps))
    else:
        mon.fail('an interrupt while writing ({}, event {}) was ignored', target, n)
    normal(mon, bench, last)
    mon.count('runs after an interrupted one')


def gen_signal(rng, index):
    return pipeline.Run(rng, 7, n_steps=rng.randint(1, 5)), pipeline.Run(rng, 8, n_steps=2), rng.random() * .05


def run_signal(case, mon):
    """A real signal, at any time while functions are at work"""
    bad, last, delay = case
    bench = pipeline.Bench(random.Random(bad.seed), mon)
    flag = os.path.join(mon.scratch, 'flag')
    pidfile = os.path.join(mon.scratch, 'pid')
    with open(pidfile, 'w') as f:
        f.write('')
    before = files.tree(mon.scratch)

    def work():
        signal.signal(signal.SIGINT, signal.default_int_handler)
        import ocelot

        def begin(data):
            with open(pidfile, 'w') as f:
                f.write(str(os.getpid()) + '\n')
            return data

        def busy(data):
            t = time.time()
            while time.time() - t < .004:
                sum(range(100))
            return data

        def wait(data):
            for _ in range(4000):
                time.sleep(.005)
            return data
        guard = files.Guard(mon.scratch)
        with guard:
            try:
                ocelot.system_model(bench.source, [begin] + [busy] * 5 + [wait], save_strategy=1)
            except SystemExit as e:
                return e.code, guard.escapes
        return None, guard.escapes
    result = []
    t = threading.Thread(target=lambda: result.append(files.in_child(work)))
    t.start()
    pid = ''
    deadline = time.time() + 60
    while not pid.endswith('\n') and t.is_alive() and time.time() < deadline:
        time.sleep(.001)
        with open(pidfile) as f:
            pid = f.read()
    if pid.endswith('\n'):
        time.sleep(delay)
        os.kill(int(pid), signal.SIGINT)
    t.join()
    with open(pidfile, 'w') as f:
        f.write('')
    mon.check(result[0][0] == 'ok', 'interrupted process ended with {}', result[0])
    code, escapes = result[0][1]
    mon.check(not escapes, 'tried to delete or change something else: {}', escapes)
    mon.check(code == 1, 'interrupted process ended with code {!r}', code)
    same(mon, before, files.tree(mon.scratch), 'after a signal')
    mon.count('interrupted by a signal')
    mon.seen('signal', int(delay * 500))
    normal(mon, bench, last)
    mon.count('runs after an interrupted one')


KINDS = {'function': (gen_function, run_function), 'event': (gen_event, run_event), 'signal': (gen_signal, run_signal)}
PLAN = {'quick': dict(function=150, event=120, signal=50), 'thorough': dict(function=4000, event=3000, signal=1200)}
