"""Codes identify activities"""
import copy
import itertools
import os
import pickle
import random
import subprocess
import sys
from .. import core, gen
ID = 'C27'
RULE = ('distinct = (fields which differ, kinds of difference, number of activities) of pairs and sets of activities; codes of all pairs are compared with whether the activities are the same')
REQUIRED = ['sets of activities', 'pairs compared', 'duplicates refused', 'differences in case only', 'differences in one field', 'differences in other fields', 'missing fields', 'other processes', 'similar letters',
            'shifted boundaries']
FIELDS = ('name', 'reference product', 'unit', 'location', 'start date', 'end date')
OTHER = ('id', 'type', 'filepath', 'technology level', 'exchanges', 'economic scenario', 'parent', 'access restricted', 'parameters', 'dataset author')
ALIKE = [('ss', 'ß'), ('s', 'ſ'), ('fi', 'ﬁ'), ('é', 'e\u0301'), ('é', 'e'), ('i', 'ı'), ('5', '５'), ('²', '2'), ('µ', 'μ'), ('Å', 'A\u030a'), ('e', 'е'), (' ', '\u00a0'), (' ', '  '),
         (' ', '\t'), ('', ' '), ('', '\u200b'), ('-', '–'), ("'", '’'), (' ', ''), (',', ''), ('-', '_'), (';', ','), ('0', 'O'), ('l', '1'), ('ö', 'oe'), ('å', 'a'), ('½', '1/2'), ('…', '...')]
CHUNK = {'process': 2}


def identity(ds):
    return tuple(str(ds.get(f, '')).lower() for f in FIELDS)


def ambiguous(a, b):
    """Different, but the same letters in a row"""
    return identity(a) != identity(b) and ''.join(identity(a)) == ''.join(identity(b))


def activity(rng, names):
    ds = gen.dataset(rng, names.new(), rng.choice(['GLO', 'RoW', 'RER', 'FR', 'US-WECC', 'Europe without Switzerland']), rng.choice(['transforming activity', 'market activity', 'market group']), [])
    ds['reference product'] = names.new()
    if rng.random() < .5:
        ds['unit'] = rng.choice(gen.UNITS)
    return ds


def vary(rng, ds, names):
    """A copy which differs a little, and what was changed"""
    new = copy.deepcopy(ds)
    what = rng.choice(['field', 'field', 'case', 'other', 'other', 'missing', 'letter', 'alike'])
    f = rng.choice(FIELDS)
    if what == 'field':
        new[f] = {'name': names.new, 'reference product': names.new, 'unit': lambda: rng.choice(gen.UNITS), 'location': lambda: rng.choice(['GLO', 'CH', 'RoW', 'BR']),
                  'start date': lambda: '20{:02d}-01-01'.format(rng.randrange(30)), 'end date': lambda: '20{:02d}-12-31'.format(rng.randrange(30))}[f]()
    elif what == 'letter':
        v = str(new.get(f, ''))
        i = rng.randint(0, len(v))
        new[f] = v[:i] + rng.choice('abcxyz ,-é1') + v[i + rng.choice([0, 1]):]
    elif what == 'alike':
        # Other letters (or spaces) which look, sort, fold or normalise like the same
        a, b = rng.choice(ALIKE)
        f = rng.choice(FIELDS[:4])
        v = str(new.get(f, ''))
        i = rng.randint(0, len(v))
        if a in v and rng.random() < .7:
            i = v.index(a)
            v = v[:i] + v[i + len(a):]
        ds[f], new[f] = v[:i] + a + v[i:], v[:i] + b + v[i:]
    elif what == 'case':
        for f in FIELDS[:4]:
            v = new.get(f)
            if v and rng.random() < .7:
                w = rng.choice([v.upper(), v.lower(), v.title(), v.swapcase()])
                if w.lower() == v.lower():
                    new[f] = w
    elif what == 'missing':
        if f not in ('name', 'location'):
            if new.get(f):
                new.pop(f)
            else:
                new[f] = ''
    else:
        f = rng.choice(OTHER)
        new[f] = rng.choice(['something', '2001-01-01', gen.uid(rng)]) if f != 'exchanges' else [gen.emission(rng, 1)]
    return new, what


def gen_codes(rng, index):
    names = gen.Names(rng)
    data = [activity(rng, names) for _ in range(rng.randint(1, 5))]
    whats = []
    for _ in range(rng.randint(0, 6)):
        new, what = vary(rng, rng.choice(data), names)
        data.append(new)
        whats.append(what)
    rng.shuffle(data)
    return data, whats


def codes(data):
    from ocelot.transformations.identifying import add_unique_codes
    return add_unique_codes(data)


def run_codes(case, mon):
    from ocelot.transformations.utils import activity_hash
    from ocelot.errors import IdenticalDatasets
    data, whats = case
    before = copy.deepcopy(data)
    hashes = [activity_hash(ds) for ds in data]
    mon.check(data == before, 'the hash function changed a dataset')
    unclear = False
    for (a, x), (b, y) in itertools.combinations(list(zip(data, hashes)), 2):
        if ambiguous(a, b):
            unclear = True
            continue
        same = identity(a) == identity(b)
        mon.check((x == y) == same, 'codes of {} and {} are {}', [a.get(f) for f in FIELDS], [b.get(f) for f in FIELDS], 'the same' if x == y else 'different')
        mon.count('pairs compared')
    mon.count('differences in case only', whats.count('case'))
    mon.count('differences in one field', whats.count('field') + whats.count('letter'))
    mon.count('differences in other fields', whats.count('other'))
    mon.count('similar letters', whats.count('alike'))
    mon.count('missing fields', whats.count('missing'))
    if unclear:
        return
    duplicates = len({identity(ds) for ds in data}) < len(data)
    try:
        out = codes(copy.deepcopy(data))
    except IdenticalDatasets:
        mon.check(duplicates, 'different datasets were refused: {}', [identity(ds) for ds in data])
        mon.count('duplicates refused')
        mon.seen('refused', sorted(whats))
        # Without the duplicates there is nothing to refuse
        data = list({identity(ds): ds for ds in data}.values())
        out = codes(copy.deepcopy(data))
    else:
        mon.check(not duplicates, 'identical datasets were accepted: {}', [identity(ds) for ds in data])
    mon.check(len(out) == len(data), 'number of datasets changed')
    for a, b in zip(data, out):
        mon.check({k: v for k, v in b.items() if k != 'code'} == {k: v for k, v in a.items() if k != 'code'}, 'dataset was changed')
        mon.check(isinstance(b['code'], str) and b['code'], 'code {!r}', b['code'])
    mon.check(len({b['code'] for b in out}) == len(out), 'two activities have the same code')
    # Again, in another order, on its own: the same
    want = {identity(b): b['code'] for b in out}
    again = copy.deepcopy(out)
    mon.rng.shuffle(again)
    for b in codes(again):
        mon.check(b['code'] == want[identity(b)], 'the code of {} changes with the order or when it is added again', identity(b))
    one = copy.deepcopy(mon.rng.choice(data))
    mon.check(codes([one])[0]['code'] == want[identity(one)], 'the code of an activity depends on the other ones')
    mon.count('sets of activities')
    mon.seen('set', len(data), sorted(whats), len({ds.get('unit') for ds in data}))


def gen_shift(rng, index):
    names = gen.Names(rng)
    a = activity(rng, names)
    a['unit'] = rng.choice(gen.UNITS)
    b = copy.deepcopy(a)
    i = rng.randrange(len(FIELDS) - 1)
    f, g = FIELDS[i], FIELDS[i + 1]
    n = rng.randint(1, len(a[f]))
    b[f], b[g] = a[f][:-n], a[f][-n:] + a[g]
    return a, b


def run_shift(case, mon):
    from ocelot.errors import IdenticalDatasets
    a, b = case
    mon.count('shifted boundaries')
    try:
        codes([copy.deepcopy(a), copy.deepcopy(b)])
    except IdenticalDatasets:
        mon.known('boundary shift', 'activities whose name, product, unit, location and dates differ, but have the same letters in a row, are taken as identical')


def gen_process(rng, index):
    names = gen.Names(rng)
    return [activity(rng, names) for _ in range(60)], rng.getrandbits(31)


WORKER = r"""
import sys, pickle, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, sys.argv[1])
from ocelot.transformations.identifying import add_unique_codes
with open(sys.argv[2], 'rb') as f:
    data = pickle.load(f)
with open(sys.argv[3], 'wb') as f:
    pickle.dump([ds['code'] for ds in add_unique_codes(data)], f)
"""


def run_process(case, mon):
    data, seed = case
    fp, out = os.path.join(mon.scratch, 'data'), os.path.join(mon.scratch, 'out')
    with open(fp, 'wb') as f:
        pickle.dump(data, f)
    p = subprocess.run([sys.executable, '-W', 'ignore', '-c', WORKER, core.REPO, fp, out], env=dict(os.environ, PYTHONHASHSEED=str(seed)), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    mon.check(p.returncode == 0, 'failed in another process: {}', p.stderr.decode('utf8', 'replace')[-1000:])
    with open(out, 'rb') as f:
        there = pickle.load(f)
    here = [ds['code'] for ds in codes(copy.deepcopy(data))]
    mon.check(here == there, 'codes are different in another process')
    mon.count('other processes')
    mon.seen('process', seed % 7)


KINDS = {'codes': (gen_codes, run_codes), 'shift': (gen_shift, run_shift), 'process': (gen_process, run_process)}
PLAN = {'quick': dict(codes=9000, shift=200, process=4), 'thorough': dict(codes=200000, shift=2000, process=60)}
