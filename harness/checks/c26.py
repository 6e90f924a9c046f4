"""The result of a system model doesn't depend on the order of its input, on earlier runs, or on the process it runs in"""
import copy
import os
import pickle
import random
import subprocess
import sys
from .. import core, e2e, gen
from ..core import HarnessError
from . import c28
ID = 'C26'
RULE = ('distinct = (features of the database, model, kind of change: order of datasets, exchanges, properties, parameters; other hash seed; other databases before) of repeated model runs; '
        'all activities with all exchanges, amounts, distributions and codes are compared')
REQUIRED = ['shuffled databases', 'repeated runs', 'runs after others', 'runs in other processes', 'activities compared', 'exchanges compared', 'cutoff', 'cutoff_ecoinvent_row', 'consequential', 'overlapping areas of the same size']
CHUNK = {'process': 1}

WORKER = r"""
import sys, pickle, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, sys.argv[1])
import ocelot
from ocelot.model import mapping
with open(sys.argv[2], 'rb') as f:
    jobs = pickle.load(f)
out = []
for name, data in jobs:
    out.append(mapping[name](data))
with open(sys.argv[3], 'wb') as f:
    pickle.dump(out, f)
"""


RC = ', Recycled Content cut-off'


def make(rng, **opts):
    model = rng.choice(['cutoff', 'cutoff', 'cutoff', 'cutoff_ecoinvent_row', 'consequential'])
    if model == 'consequential':
        return model, c28.Case(rng, rng.choice(['mixed', 'small', 'row', 'recycling', 'combined']))
    return model, e2e.Case(rng, rng.choice(sorted(gen.PROFILES)), **opts)


def gen_shuffle(rng, index):
    return make(rng) + (rng.getrandbits(32),)


def gen_history(rng, index):
    return [make(rng) for _ in range(rng.randint(2, 4))] + [rng.getrandbits(32)]


def gen_process(rng, index):
    return [make(rng, p_twins=.4) for _ in range(10)] + [rng.getrandbits(31)]


def shuffled(data, rng):
    data = copy.deepcopy(data)
    rng.shuffle(data)
    for ds in data:
        rng.shuffle(ds['exchanges'])
        rng.shuffle(ds['parameters'])
        for e in ds['exchanges']:
            rng.shuffle(e['properties'])
    return data


def model(name):
    from ocelot.model import mapping
    return mapping[name]


def number(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def canon(data):
    """{(name, location, product): dataset}, exchanges by what and from whom"""
    out = {}
    for ds in data:
        k = ds['name'], ds['location'], ds['reference product']
        if k in out:
            k += (ds['code'],)
        out[k] = ds
    return out


def exchanges(ds, codes):
    out = {}
    for e in ds['exchanges']:
        k = e['type'], e['name'], e.get('unit'), codes.get(e.get('code'), e.get('code')), str(e.get('original id')) if not ds['name'].endswith(RC) else ''
        out.setdefault(k, []).append(e)
    return out


def merged(c):
    """Activities which were merged from several; only their amounts are defined"""
    return {k for k, ds in c.ref.by_key.items() if any(e.get('_merged') for e in ds['exchanges'])}


def compare(mon, c, a, b, what):
    """Two results of the same model for the same database"""
    no_uncertainty = merged(c)
    ca, cb = canon(a), canon(b)
    mon.check(set(ca) == set(cb), '{}: activities differ: {}', what, sorted(set(ca) ^ set(cb))[:4])
    # Exchanges with recycled content activities by their names, see below
    recycled = [{ds['code']: k for k, ds in z.items() if k[0].endswith(RC)} for z in (ca, cb)]
    for k in ca:
        x, y = ca[k], cb[k]
        mon.count('activities compared')
        new = k[0].endswith(RC)
        for f in ('code', 'type', 'id', 'filepath', 'name', 'technology level', 'start date'):
            if new and x.get(f) != y.get(f) and f not in ('type', 'name'):
                mon.known('recycled content metadata', 'recycled content activities take their metadata (and with it their code) from whichever producer comes last in the input')
                continue
            mon.check(x.get(f) == y.get(f), '{}: {} of {} is {} or {}', what, f, k, x.get(f), y.get(f))
        ex, ey = exchanges(x, recycled[0]), exchanges(y, recycled[1])
        for q in set(ex) ^ set(ey):
            mon.check(not any(e['amount'] for e in ex.get(q, []) + ey.get(q, [])), '{}: {} has an exchange {} only once', what, k, q)
        for q in set(ex) & set(ey):
            lists = [sorted(z[q], key=lambda e: (e['amount'], str(e.get('uncertainty')))) for z in (ex, ey)]
            mon.check(len(lists[0]) == len(lists[1]), '{}: {} has {} or {} exchanges {}', what, k, len(lists[0]), len(lists[1]), q)
            for m, n in zip(*lists):
                mon.check(e2e.close(m['amount'], n['amount'], tol=1e-9), '{}: amount of {} in {} is {!r} or {!r}', what, q, k, m['amount'], n['amount'])
                u, v = m.get('uncertainty') or {}, n.get('uncertainty') or {}
                if k in no_uncertainty:
                    u = v = {}
                mon.check(u.get('type') == v.get('type'), '{}: distribution of {} in {} is {} or {}', what, q, k, u, v)
                for p in u:
                    if number(u[p]):
                        mon.check(number(v.get(p)) and e2e.close(u[p], v[p], abs(m['amount']) if p in ('minimum', 'maximum') else 1e-3 if p == 'mu' else 0, 1e-7), '{}: distribution of {} in {} is {} or {}', what, q, k, u, v)
                p, r = (m.get('production volume') or {}).get('amount', 0), (n.get('production volume') or {}).get('amount', 0)
                mon.check(e2e.close(p, r, tol=1e-6), '{}: production volume of {} in {} is {!r} or {!r}', what, q, k, p, r)
                mon.count('exchanges compared')


def run_shuffle(case, mon):
    name, c, seed = case
    mon.sample = c
    rng = random.Random(seed)
    first = model(name)(c.data())
    second = model(name)(shuffled(c.data(), rng))
    compare(mon, c, first, second, name + ', other order')
    mon.count('shuffled databases')
    mon.count(name)
    mon.seen('shuffle', name, sorted(c.world.features), len(first))


def run_history(case, mon):
    *cs, seed = case
    rng = random.Random(seed)
    results = [model(name)(c.data()) for name, c in cs]
    keep = copy.deepcopy(results)
    order = list(range(len(cs)))
    rng.shuffle(order)
    for i in order:
        name, c = cs[i]
        mon.sample = c
        again = model(name)(c.data())
        compare(mon, c, results[i], again, name + ', same again')
        mon.count('repeated runs')
        mon.count('runs after others')
        mon.seen('history', name, sorted(c.world.features)[:5], order)
    mon.check(results == keep, 'a later run changed the result of an earlier one')


def run_process(case, mon):
    *cs, seed = case
    jobs = os.path.join(mon.scratch, 'jobs')
    with open(jobs, 'wb') as f:
        pickle.dump([(name, c.data()) for name, c in cs], f)
    procs = []
    for i, s in enumerate((str(seed), str(seed // 2 + 1))):
        out = os.path.join(mon.scratch, 'out{}'.format(i))
        env = dict(os.environ, PYTHONHASHSEED=s, PYTHONDONTWRITEBYTECODE='1')
        procs.append((out, subprocess.Popen([sys.executable, '-W', 'ignore', '-c', WORKER, core.REPO, jobs, out], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    here = [model(name)(c.data()) for name, c in cs]
    for out, p in procs:
        _, err = p.communicate()
        mon.check(p.returncode == 0, 'model run failed in another process: {}', err.decode('utf8', 'replace')[-1500:])
        with open(out, 'rb') as f:
            there = pickle.load(f)
        for (name, c), a, b in zip(cs, here, there):
            mon.sample = c
            compare(mon, c, a, b, name + ', other process')
            mon.count('runs in other processes')
            mon.count('overlapping areas of the same size', 'groups of equal size' in c.world.features)
            mon.seen('process', name, sorted(c.world.features)[:5], len(a))


KINDS = {'shuffle': (gen_shuffle, run_shuffle), 'history': (gen_history, run_history), 'process': (gen_process, run_process)}
PLAN = {'quick': dict(shuffle=320, history=40, process=9), 'thorough': dict(shuffle=12000, history=1500, process=250)}
