"""Case loop shared by all checks: seeding, workers, monitors, verdicts, evidence, replay files.

Verdicts are three-valued.  exit 0: held on everything observed.  exit 1: a monitor saw a violation
(``VIOLATION property=<id> replay=<path>``).  exit 2: no answer (the harness itself failed, or a monitor
that must have been reached never was).
"""
import argparse
import collections
import concurrent.futures
import concurrent.futures.process
import hashlib
import importlib
import json
import multiprocessing
import os
import pprint
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')   # another tree only while developing the checks
CASE_CPU = 90          # CPU seconds for one case; ordinary cases need well below one
MAX_VIOLATIONS = 3


class Violation(Exception):
    pass


class Hang(BaseException):
    pass


class HarnessError(Exception):
    """The check itself is at fault: never a verdict on the code"""


class Monitor:
    """What the oracle of one case observed"""

    def __init__(self, prop, known=()):
        self.prop = prop
        self.counts = collections.Counter()
        self.sigs = set()
        self.sample = None
        self.known_ids = set(known)
        self.known_hits = []
        self.context = []

    def count(self, name, n=1):
        self.counts[name] += n

    def seen(self, *sig):
        """Register a distinct non-trivial situation"""
        self.sigs.add(hashlib.md5(repr(sig).encode('utf8', 'replace')).hexdigest()[:12])

    def fail(self, msg, *args):
        raise Violation(msg.format(*args) if args else msg)

    def check(self, cond, msg, *args):
        if not cond:
            self.fail(msg, *args)

    def known(self, key, msg):
        """Report through the known-findings file if listed there, else as a violation"""
        if key in self.known_ids:
            if (key, msg) not in self.known_hits:
                self.known_hits.append((key, msg))
        else:
            raise Violation(msg)


def load_known(prop):
    fp = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if not os.path.exists(fp):
        return {}
    with open(fp) as f:
        return {x['key']: x['what'] for x in json.load(f)['known'] if x['property'] == prop}


def case_rng(seed, prop, kind, index):
    return random.Random('{}|{}|{}|{}'.format(seed, prop, kind, index))


def import_repo():
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter('ignore')
    import ocelot
    where = os.path.abspath(ocelot.__file__)
    if not where.startswith(REPO + os.sep):
        raise HarnessError('ocelot imported from {}'.format(where))
    return ocelot


def _on_alarm(signum, frame):
    raise Hang()


_module = None
_known = {}
_lines = None


def watch_lines():
    """Which lines of the repository are executed (each is reported once, so this costs next to nothing)"""
    global _lines
    m = getattr(sys, 'monitoring', None)
    if m is None or _lines is not None:
        return
    prefix = os.path.join(REPO, 'ocelot') + os.sep

    def line(code, n):
        if code.co_filename.startswith(prefix) and code.co_flags & 1:
            _lines.add((code.co_filename[len(prefix):], n))
        return m.DISABLE
    try:
        m.use_tool_id(m.COVERAGE_ID, 'verif')
        m.register_callback(m.COVERAGE_ID, m.events.LINE, line)
        _lines = set()
        m.set_events(m.COVERAGE_ID, m.events.LINE)
    except ValueError:
        pass


def all_lines():
    """Lines inside of the functions of the repository"""
    out = set()
    prefix = os.path.join(REPO, 'ocelot') + os.sep
    for base, _, fns in os.walk(prefix):
        for fn in fns:
            if fn.endswith('.py'):
                fp = os.path.join(base, fn)
                with open(fp, encoding='utf-8') as f, warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    todo = [compile(f.read(), fp, 'exec')]
                while todo:
                    code = todo.pop()
                    todo += [c for c in code.co_consts if hasattr(c, 'co_lines')]
                    if code.co_flags & 1:   # a function, not a module or class
                        out |= {(fp[len(prefix):], n) for _, _, n in code.co_lines() if n and n != code.co_firstlineno}
    return out


def run_case(kind, seed, index, want_sample=False):
    """Generate and run one case. Returns a plain dict"""
    mod = _module
    mon = Monitor(mod.ID, _known)
    res = {'kind': kind, 'index': index, 'status': 'held'}
    gen, run = mod.KINDS[kind]
    rng = case_rng(seed, mod.ID, kind, index)
    t0 = time.time()
    case = None
    signal.signal(signal.SIGPROF, _on_alarm)
    scratch = None
    try:
        case = gen(rng, index)
    except BaseException:
        res.update(status='harness', detail=traceback.format_exc())
        return res
    cwd = os.getcwd()
    try:
        scratch = tempfile.mkdtemp(prefix='case-')
        mon.scratch = scratch
        mon.rng = rng
        signal.setitimer(signal.ITIMER_PROF, getattr(mod, 'CASE_CPU', CASE_CPU))
        run(case, mon)
    except Violation as e:
        res.update(status='violation', detail=str(e))
    except HarnessError:
        res.update(status='harness', detail=traceback.format_exc())
    except Hang:
        res.update(status='hang', detail='no result within {} s of CPU time'.format(CASE_CPU))
    except (MemoryError, OSError) as e:
        # OSError can come from the sandbox (disk, descriptors); checks that expect one catch it themselves
        if isinstance(e, OSError) and getattr(mod, 'OSERROR_IS_VIOLATION', True) and e.errno not in (28, 24, 12, 23):
            res.update(status='violation', detail='unexpected exception\n' + traceback.format_exc())
        else:
            res.update(status='harness', detail=traceback.format_exc())
    except BaseException:
        # The unchanged code answers every generated case without an exception
        res.update(status='violation', detail='unexpected exception\n' + traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir(cwd)
        if scratch:
            shutil.rmtree(scratch, ignore_errors=True)
    res.update(counts=dict(mon.counts), sigs=mon.sigs, known=mon.known_hits, wall=time.time() - t0)
    if res['status'] != 'held' or want_sample:
        text = pprint.pformat(mon.sample if mon.sample is not None else case, width=150, compact=True)
        res['case'] = text if len(text) < 200000 else text[:200000] + '...'
        res['context'] = mon.context
    return res


def run_chunk(args):
    kind, seed, indices, samples = args
    out = []
    devnull = open(os.devnull, 'w')
    so, se = sys.stdout, sys.stderr
    sys.stdout = sys.stderr = devnull
    try:
        for i in indices:
            r = run_case(kind, seed, i, want_sample=i in samples)
            out.append(r)
            if r['status'] == 'violation':
                break
    finally:
        sys.stdout, sys.stderr = so, se
        devnull.close()
    if _lines and out:
        out[-1]['lines'] = set(_lines)
        _lines.clear()
    return out


def explore(mod, tier, seed, jobs, only=None, scale=1.0):
    plan = mod.PLAN[tier]
    tasks = []
    for kind, n in plan.items():
        if only and kind != only:
            continue
        n = max(1, int(n * scale))
        size = getattr(mod, 'CHUNK', {}).get(kind) or max(1, min(50, n // (jobs * 4) or 1))
        for a in range(0, n, size):
            tasks.append((kind, seed, list(range(a, min(a + size, n))), {0, 1} if a == 0 else set()))
    # Interleave kinds
    random.Random(0).shuffle(tasks)
    agg = {'cases': 0, 'lines': set(), 'counts': collections.Counter(), 'sigs': set(), 'known': {}, 'samples': [],
           'violations': [], 'harness': [], 'hang': [], 'kinds': collections.Counter(), 'maxwall': 0}

    def absorb(r):
        agg['cases'] += 1
        agg['kinds'][r['kind']] += 1
        agg['counts'].update(r.get('counts', {}))
        agg['sigs'] |= r.get('sigs', set())
        agg['lines'] |= r.get('lines', set())
        agg['maxwall'] = max(agg['maxwall'], r.get('wall', 0))
        for k, m in r.get('known', ()):
            agg['known'].setdefault(k, m)
        if r['status'] == 'held':
            if 'case' in r:
                agg['samples'].append({'kind': r['kind'], 'index': r['index'], 'case': r['case'][:3000]})
        else:
            agg[{'violation': 'violations', 'harness': 'harness', 'hang': 'hang'}[r['status']]].append(r)

    if jobs <= 1:
        for t in tasks:
            for r in run_chunk(t):
                absorb(r)
            if len(agg['violations']) >= MAX_VIOLATIONS or len(agg['harness']) >= 3:
                break
        return agg

    ctx = multiprocessing.get_context('fork')
    pool = concurrent.futures.ProcessPoolExecutor(jobs, mp_context=ctx)
    futures = {pool.submit(run_chunk, t): t for t in tasks}
    broken = []
    try:
        for f in concurrent.futures.as_completed(futures):
            try:
                rs = f.result()
            except concurrent.futures.process.BrokenProcessPool:
                broken.append(futures[f])
                continue
            for r in rs:
                absorb(r)
            if len(agg['violations']) >= MAX_VIOLATIONS or len(agg['harness']) >= 3 or len(agg['hang']) >= 2:
                for g in futures:
                    g.cancel()
                break
    finally:
        pool.shutdown(wait=True, cancel_futures=True)
    if broken and not agg['violations']:
        agg['harness'].append({'kind': broken[0][0], 'index': broken[0][2][0], 'status': 'harness',
                               'detail': 'a worker process died'})
    return agg


def write_replay(prop, seed, r, tier):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    fp = os.path.join(d, '{}-{}-{}-{}.json'.format(prop, r['kind'], seed, r['index']))
    with open(fp, 'w', encoding='utf-8') as f:
        json.dump({'property': prop, 'kind': r['kind'], 'seed': seed, 'index': r['index'], 'tier': tier,
                   'detail': r['detail'], 'case': r.get('case'), 'context': [str(c) for c in r.get('context', ())],
                   'how': './check.sh {} --replay {}'.format(prop, fp)}, f, indent=1, ensure_ascii=False)
    return fp


def main(argv=None):
    global _module, _known
    p = argparse.ArgumentParser()
    p.add_argument('prop')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    p.add_argument('--jobs', type=int, default=int(os.environ.get('VERIF_JOBS') or min(8, os.cpu_count() or 1)))
    p.add_argument('--replay')
    p.add_argument('--kind')
    p.add_argument('--index', type=int)
    p.add_argument('--scale', type=float, default=1.0)
    args = p.parse_args(argv)
    t0 = time.time()
    try:
        import_repo()
        mod = importlib.import_module('harness.checks.' + args.prop.lower())
        if hasattr(mod, 'setup'):
            mod.setup()
    except BaseException:
        traceback.print_exc()
        print('INCONCLUSIVE property={} (the check could not start)'.format(args.prop))
        return 2
    _module, _known = mod, load_known(mod.ID)
    random.seed(0)

    if args.replay or args.index is not None:
        if args.replay:
            with open(args.replay) as f:
                rep = json.load(f)
            kind, seed, index = rep['kind'], rep['seed'], rep['index']
        else:
            kind, seed, index = args.kind or next(iter(mod.KINDS)), args.seed, args.index
        r = run_case(kind, seed, index, want_sample=True)
        print(r.get('case', ''))
        print(r['status'], r.get('counts'))
        print(r.get('detail', ''))
        if r['status'] == 'violation':
            print('VIOLATION property={} replay={}'.format(mod.ID, args.replay or write_replay(mod.ID, seed, r, args.tier)))
            return 1
        return 0 if r['status'] == 'held' else 2

    watch_lines()
    agg = explore(mod, args.tier, args.seed, args.jobs, args.kind, args.scale)

    # A hang is only believed when it repeats on its own
    for h in agg['hang'][:1]:
        r = run_case(h['kind'], args.seed, h['index'])
        if r['status'] == 'hang':
            r['status'] = 'violation'
        if r['status'] == 'violation':
            agg['violations'].append(r)

    missing = [c for c in getattr(mod, 'REQUIRED', ()) if not agg['counts'].get(c)]
    status = 0
    print('{}: {} cases, {} distinct situations, {}'.format(
        mod.ID, agg['cases'], len(agg['sigs']), json.dumps(dict(sorted(agg['counts'].items())))))
    for key, what in _known.items():
        if key in agg['known']:
            print('KNOWN-FINDING: property={} {}'.format(mod.ID, what))
    if agg['violations']:
        status = 1
        for r in agg['violations'][:MAX_VIOLATIONS]:
            fp = write_replay(mod.ID, args.seed, r, args.tier)
            print('---', r['kind'], r['index'])
            print(r['detail'][-3000:])
            print('VIOLATION property={} replay={}'.format(mod.ID, fp))
    elif agg['harness'] or agg['hang']:
        status = 2
        for r in (agg['harness'] + agg['hang'])[:2]:
            print(r['kind'], r['index'], r['detail'])
        print('INCONCLUSIVE property={} (harness)'.format(mod.ID))
    elif missing and not args.kind:
        status = 2
        print('INCONCLUSIVE property={} monitors never reached: {}'.format(mod.ID, missing))

    try:
        total = all_lines()
    except (SyntaxError, OSError):
        total = set()
    if os.environ.get('VERIF_LINES'):
        with open(os.environ['VERIF_LINES'], 'a') as f:
            f.writelines('{}:{}\n'.format(*x) for x in sorted(agg['lines']))
    by_file = collections.Counter(f for f, _ in agg['lines'] & total)
    evidence = {
        'property': mod.ID, 'tier': args.tier, 'seed': args.seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': agg['cases'],
            'distinct_nontrivial': len(agg['sigs']),
            'rule': mod.RULE,
            'samples': agg['samples'][:3] or [{'note': 'no held sample case', 'violations': len(agg['violations'])}],
            'monitor_observations': dict(sorted(agg['counts'].items())),
            'cases_by_workload': dict(agg['kinds']),
            'repository_lines_executed': {'total': len(agg['lines'] & total), 'of': len(total), 'by_file': dict(sorted(by_file.items()))},
            'slowest_case_s': round(agg['maxwall'], 2),
            'known_findings_seen': sorted(agg['known']),
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(agg['violations']),
    }
    evdir = os.environ.get('EVIDENCE_DIR') or os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    with open(os.path.join(evdir, mod.ID + '.json'), 'w', encoding='utf-8') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=False)
    print('{} {} in {:.1f} s'.format(mod.ID, {0: 'held', 1: 'VIOLATED', 2: 'no answer'}[status], time.time() - t0))
    return status
