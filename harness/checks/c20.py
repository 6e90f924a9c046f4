"""Extraction reads exactly what the files say"""
import copy
import os
from .. import gen, spold
ID = 'C20'
RULE = ('distinct = (type, number and kinds of exchanges, distributions, optional fields present) of extracted datasets and kinds of broken files; every field of every '
        'dataset is compared with what was written')
REQUIRED = ['datasets', 'exchanges', 'properties', 'parameters', 'distributions', 'production volumes', 'conditional exchanges', 'several datasets in one file', 'other files ignored',
            'parallel extractions', 'broken files refused', 'broken files refused in parallel', 'real files', 'datasets with the same id']


def gen_files(rng, index):
    names = gen.Names(rng)
    data = [spold.random_dataset(rng, names) for _ in range(gen.size(rng, 1, 8, 40))]
    if rng.random() < .3:
        # Nothing is said about datasets being different
        i = rng.randrange(len(data))
        other = copy.deepcopy(data[i])
        if rng.random() < .6:
            other = dict(spold.random_dataset(rng, names), id=other['id'])
        data.insert(rng.choice([i, i + 1, rng.randrange(len(data) + 1)]), other)
    return data, rng.getrandbits(32), rng.random() < .5


def difference(a, b, path=''):
    if type(a) is not type(b):
        return '{}: {!r} instead of {!r}'.format(path, a, b)
    if isinstance(a, dict):
        if set(a) != set(b):
            return '{}: fields {} instead of {}'.format(path, sorted(a, key=str), sorted(b, key=str))
        for k in a:
            d = difference(a[k], b[k], path + '/' + str(k))
            if d:
                return d
    elif isinstance(a, list):
        if len(a) != len(b):
            return '{}: {} instead of {} elements'.format(path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, '{}[{}]'.format(path, i))
            if d:
                return d
    elif a != b:
        return '{}: {!r} instead of {!r}'.format(path, a, b)


def observe(mon, ds):
    mon.count('datasets')
    mon.count('parameters', len(ds['parameters']))
    kinds = set()
    for e in ds['exchanges']:
        mon.count('exchanges')
        mon.count('properties', len(e['properties']))
        mon.count('conditional exchanges', e.get('conditional exchange', False))
        mon.count('production volumes', 'production volume' in e)
        if 'uncertainty' in e:
            mon.count('distributions')
        kinds.add((e['type'], e.get('uncertainty', {}).get('type'), 'activity link' in e, 'formula' in e))
    mon.seen(ds['type'], sorted(map(str, kinds))[:4], ds['parent'] is None)


def compare(mon, got, want):
    """``want``: {filepath: [dataset]}"""
    by_file = {}
    for ds in got:
        by_file.setdefault(ds.get('filepath'), []).append(ds)
    missing = set(want) - set(by_file)
    mon.check(not missing, 'nothing extracted from {}', sorted(map(os.path.basename, missing))[:3])
    extra = set(by_file) - set(want)
    mon.check(not extra, 'extracted {}', [str(x) for x in extra][:3])
    for fp, lst in want.items():
        d = difference(by_file[fp], lst)
        mon.check(d is None, '{}: {}', os.path.basename(fp), d)


def run_files(case, mon):
    from ocelot.io.extract_ecospold2 import extract_ecospold2_directory
    import random
    data, seed, mp = case
    rng = random.Random(seed)
    dp = os.path.join(mon.scratch, rng.choice(['data', 'my data', 'dätä.spold']))
    want = spold.write_directory(rng, dp, data)
    for n in rng.sample(['readme.txt', 'spold', 'x.spold.bak', 'x.xml', '.DS_Store', 'a.spoldx'], 3):
        with open(os.path.join(dp, n), 'w') as f:
            f.write('<broken')
        mon.count('other files ignored')
    os.makedirs(os.path.join(dp, 'sub'))
    spold.Writer(rng).file(os.path.join(dp, 'sub', 'x.spold'), data[:1])
    got = extract_ecospold2_directory(dp, False)
    compare(mon, got, want)
    for lst in want.values():
        mon.count('several datasets in one file', len(lst) > 1)
        mon.count('datasets with the same id', len({ds['id'] for ds in lst}) < len(lst))
        for ds in lst:
            observe(mon, ds)
    if mp:
        again = extract_ecospold2_directory(dp, True)
        compare(mon, again, want)
        d = difference(again, got)
        mon.check(d is None, 'parallel and serial extraction differ: {}', d)
        mon.count('parallel extractions')


def gen_broken(rng, index):
    names = gen.Names(rng)
    data = [spold.random_dataset(rng, names) for _ in range(gen.size(rng, 1, 6))]
    return data, rng.getrandbits(32), rng.choice(['truncated', 'empty', 'type', 'level', 'group', 'amount', 'no amount', 'class', 'two classes', 'access', 'not xml', 'distribution', 'location', 'encoding', 'link']), rng.random() < .3


def run_broken(case, mon):
    """One broken file: the extraction fails instead of returning the rest"""
    import random
    data, seed, how, mp = case
    rng = random.Random(seed)
    want = spold.write_directory(rng, mon.scratch, data, fancy=False)
    fp = rng.choice(sorted(want))
    with open(fp, encoding='utf-8') as f:
        text = f.read()
    import re
    if how in ('encoding', 'link'):
        if how == 'link':
            # a name in the directory which leads to no file
            os.symlink(os.path.join(mon.scratch, 'nowhere'), os.path.join(os.path.dirname(fp), 'zz.spold'))
        else:
            # bytes which are no text in the encoding the file declares
            at = rng.choice([m.end() for m in re.finditer('<(?:baseName|name|shortname|activityName|unitName)[^>]*>', text)])
            with open(fp, 'wb') as f:
                f.write(text[:at].encode('utf-8') + b'\xff\xfe' + text[at:].encode('utf-8'))
        refused(mon, mp, how)
        return
    new = {'truncated': lambda: text[:rng.randrange(60, len(text) - 12)],
           'empty': lambda: '',
           'not xml': lambda: 'hello',
           'type': lambda: re.sub('specialActivityType="\\d+"', 'specialActivityType="11"', text, count=1),
           'level': lambda: text.replace('<technology technologyLevel', '<technology technologyLevel="7" x').replace('<technology>', '<technology technologyLevel="7">'),
           'group': lambda: re.sub('<(out|in)putGroup>\\d<', r'<\1putGroup>9<', text),
           'amount': lambda: re.sub(' amount="[^"]*"', ' amount="many"', text, count=1),
           'no amount': lambda: re.sub(' amount="[^"]*"', '', text),
           'class': lambda: text.replace('<outputGroup>', '<classification><classificationSystem>By-product classification</classificationSystem><classificationValue>unknown</classificationValue></classification><outputGroup>'),
           'two classes': lambda: text.replace('<outputGroup>', ''.join('<classification><classificationSystem>By-product classification</classificationSystem><classificationValue>{}</classificationValue></classification>'.format(x) for x in ('Waste', 'Recyclable')) + '<outputGroup>'),
           'access': lambda: re.sub('accessRestrictedTo="\\d"', 'accessRestrictedTo="8"', text),
           'distribution': lambda: text.replace('<outputGroup>', '<uncertainty><weird a="3"/></uncertainty><outputGroup>'),
           'location': lambda: re.sub('<geography.*?</geography>', '', text)}[how]()
    if how == 'distribution':
        # not next to another distribution of the same exchange
        new = re.sub('<uncertainty>(?!<weird).*?</uncertainty>', '', new, flags=re.S)
    if new == text:
        mon.count('unchanged')
        return
    with open(fp, 'w', encoding='utf-8') as f:
        f.write(new)
    refused(mon, mp, how)


def refused(mon, mp, how):
    from ocelot.io.extract_ecospold2 import extract_ecospold2_directory
    try:
        got = extract_ecospold2_directory(mon.scratch, mp)
    except Exception:
        mon.count('broken files refused' + (' in parallel' if mp else ''))
        mon.seen('broken', how, mp)
    else:
        mon.fail('a directory with a broken file ({}) was extracted: {} datasets', how, len(got))


def gen_real(rng, index):
    return None


def run_real(case, mon):
    """The files which come with the tests, read without any XML library"""
    import re
    from ocelot.io.extract_ecospold2 import generic_extractor
    from ..core import REPO
    dp = os.path.join(REPO, 'tests', 'data')
    for fn in sorted(os.listdir(dp)):
        if not fn.endswith('.spold'):
            continue
        with open(os.path.join(dp, fn), encoding='utf-8-sig') as f:
            text = re.sub('<!--.*?-->', '', f.read(), flags=re.S)
        got = generic_extractor(os.path.join(dp, fn))
        mon.check(len(got) == len(re.findall('<(child)?[aA]ctivityDataset', text)), '{}: {} datasets', fn, len(got))
        for tag in ('intermediateExchange', 'elementaryExchange'):
            heads = re.findall('<{}\\s(.*?)>'.format(tag), text, flags=re.S)
            amounts = [float(re.search('\\samount="(.*?)"', ' ' + h).group(1)) for h in heads]
            mon.check([e['amount'] for e in got[0]['exchanges'] if e['tag'] == tag] == amounts, '{}: amounts differ', fn)
        mon.check(len(got[0]['parameters']) == len(re.findall('<parameter\\s', text)), '{}: parameters differ', fn)
        mon.check(sum(len(e['properties']) for e in got[0]['exchanges']) == len(re.findall('<property\\s', text)), '{}: properties differ', fn)
        mon.count('real files')


KINDS = {'files': (gen_files, run_files), 'broken': (gen_broken, run_broken), 'real': (gen_real, run_real)}
PLAN = {'quick': dict(files=900, broken=500, real=1), 'thorough': dict(files=20000, broken=6000, real=1)}
