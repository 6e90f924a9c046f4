"""Validation accepts the documented format, and nothing else"""
import contextlib
import copy
import io
import os
import random
import sys
from .. import gen, spold
ID = 'C33'
RULE = ('distinct = (kind of mutation, place) of datasets against the internal schema, and (kinds and numbers of invalid datasets, how it was called) of validated directories; '
        'what is reported has to be exactly what was made invalid')
REQUIRED = ['valid datasets accepted', 'invalid datasets refused', 'directories validated', 'directories without errors', 'directories with errors', 'invalid datasets reported', 'xsd: files validated', 'xsd: valid files',
            'xsd: invalid files', 'by command line', 'missing fields', 'unknown fields', 'wrong types', 'wrong values', 'datasets of model runs accepted']
PEDIGREE = [k for k, _ in spold.PEDIGREE]
ENUMS = {'access restricted': spold.ACCESS, 'technology level': spold.LEVELS, 'type': spold.TYPES}
DIST = {'lognormal': (['mean', 'variance with pedigree uncertainty'], ['mu', 'variance']), 'normal': (['mean', 'variance with pedigree uncertainty'], ['variance']),
        'uniform': (['minimum', 'maximum'], []), 'triangular': (['minimum', 'mode', 'maximum'], []), 'beta': (['minimum', 'mode', 'maximum'], []), 'binomial': (['n', 'p'], []),
        'undefined': (['minimum', 'maximum', 'standard deviation 95%'], []), 'gamma': (['scale', 'shape'], [])}
TOP = ['exchanges', 'parameters', 'access restricted', 'economic scenario', 'end date', 'filepath', 'id', 'parent', 'location', 'name', 'start date', 'technology level', 'type', 'dataset author', 'data entry',
       'ISIC classification']
METHODS = ['combined production with byproduct', 'combined production without byproduct', 'constrained market', 'economic allocation', 'no allocation', 'recycling activity', 'true value allocation', 'waste treatment']


def valid(rng, names, unique=False):
    ds = spold.random_dataset(rng, names, odd=False)
    ds['filepath'] = '/data/x.spold'
    for e in ds['exchanges']:
        if rng.random() < .1 and e['tag'] == 'intermediateExchange' and 'production volume' in e and rng.random() < .3:
            e['production volume']['subtracted activity link volume'] = gen.num(rng)
    return ds


def extras(rng, ds):
    """Fields which are added during a model run"""
    if rng.random() < .3:
        ds['code'] = gen.uid(rng)
    if rng.random() < .3:
        ds['allocation method'] = rng.choice(METHODS)
    if rng.random() < .3:
        ds['reference product'] = ds['name']
    if rng.random() < .2:
        ds['suppliers'] = [{}]
    for e in ds['exchanges']:
        if e['tag'] == 'intermediateExchange' and e['type'] == 'byproduct' and rng.random() < .2:
            e['type'] = 'dropped product'
        for k in ('properties', 'conditional exchange', 'production volume'):
            if rng.random() < .1:
                e.pop(k, None)
    return ds


def places(ds):
    """(kind, object, required, optional)"""
    out = [('dataset', ds, TOP)]
    for e in ds['exchanges']:
        env = e['tag'] == 'elementaryExchange'
        out.append(('elementary' if env else 'intermediate', e, ['amount', 'id', 'name', 'tag', 'type', 'unit'] + ['compartment', 'subcompartment'] * env))
        for p in e.get('properties', []):
            out.append(('property', p, ['amount', 'id', 'name', 'unit']))
        if 'production volume' in e:
            out.append(('production volume', e['production volume'], ['amount']))
    for p in ds['parameters']:
        out.append(('parameter', p, []))
    for kind, o, _ in list(out):
        if 'uncertainty' in o:
            u = o['uncertainty']
            out.append(('uncertainty', u, DIST[u['type']][0] + ['type', 'pedigree matrix']))
    return out


def mutate(rng, ds):
    """Make one thing invalid. Returns what, or None"""
    kind, o, required = rng.choice(places(ds))
    how = rng.choice(['missing', 'unknown', 'type', 'type', 'value'])
    if how == 'missing':
        if not required:
            return
        k = rng.choice(required)
        del o[k]
        return 'missing fields', kind, k
    if how == 'unknown':
        k = rng.choice(['comment', 'Amount', 'amounts', 'year', 'formulae', ' name'])
        o[k] = rng.choice([1., 'x', None, []])
        return 'unknown fields', kind, k
    if how == 'type':
        k = rng.choice(list(o))
        v = o[k]
        if k == 'pedigree matrix':
            if v and rng.random() < .7:
                j = rng.choice(list(v))
                v[j] = rng.choice([str(v[j]), float(v[j]), None])
            else:
                o[k] = rng.choice([None, [], 'x', 5])
        elif isinstance(v, bool):
            o[k] = rng.choice([None, 'yes', 'True'])
        elif isinstance(v, float):
            o[k] = rng.choice([str(v), None, [v], {'amount': v}])
        elif isinstance(v, list):
            o[k] = rng.choice([None, 'x', {}, 5., [5.], ['x']]) if k != 'suppliers' else None
        elif isinstance(v, dict):
            o[k] = rng.choice([None, 'x', [], 5.])
        elif v is None:
            # The only field which can be missing altogether is the parent
            o[k] = rng.choice([5, 5., [], b'x'])
        else:
            o[k] = rng.choice([5, 5., [v], v.encode()] + ([None] if k != 'parent' else []))
        return 'wrong types', kind, k
    if kind == 'dataset':
        k = rng.choice(list(ENUMS) + ['allocation method'])
        o[k] = rng.choice(['', 'something', o.get(k, 'x') + ' ', o.get(k, 'x').upper(), 'unknown'])
    elif kind in ('elementary', 'intermediate'):
        k = rng.choice(['type', 'tag'])
        o[k] = {'type': rng.choice(['materials/fuels', 'services', '', 'Byproduct', 'from technosphere' if kind == 'elementary' else 'to environment']),
                'tag': rng.choice(['', 'exchange', 'elementaryExchange' if kind == 'intermediate' else 'intermediateExchange'])}[k]
        if kind == 'intermediate' and rng.random() < .3:
            k = 'byproduct classification'
            o.update(type='byproduct', tag='intermediateExchange')
            o[k] = rng.choice(['Waste', 'allocatable', '', 'by-product'])
    elif kind == 'uncertainty':
        k = 'type'
        o[k] = rng.choice([t for t in DIST if set(DIST[t][0]) != set(DIST[o['type']][0]) and not set(DIST[t][0] + DIST[t][1]) >= set(DIST[o['type']][0]) >= set(DIST[t][0])] + ['Lognormal', 'weibull', ''])
    else:
        return
    return 'wrong values', kind, k


def gen_schema(rng, index):
    names = gen.Names(rng)
    ds = valid(rng, names)
    if rng.random() < .4:
        extras(rng, ds)
    return ds, rng.getrandbits(32)


def run_schema(case, mon):
    from ocelot.io import dataset_schema
    from voluptuous import Invalid
    ds, seed = case
    rng = random.Random(seed)
    mon.sample = ds
    before = copy.deepcopy(ds)
    try:
        dataset_schema(ds)
    except Invalid as err:
        mon.fail('valid dataset was refused: {}', err)
    mon.check(ds == before, 'validation changed the dataset')
    mon.count('valid datasets accepted')
    for _ in range(6):
        new = copy.deepcopy(ds)
        what = mutate(rng, new)
        if not what:
            continue
        mon.sample = new
        try:
            dataset_schema(new)
        except Invalid:
            mon.count('invalid datasets refused')
            mon.count(what[0])
            mon.seen(*what)
        else:
            mon.fail('invalid dataset was accepted: {}', what)


def gen_world(rng, index):
    return [spold.clean_for_file(ds) for ds in gen.World(rng, **gen.PROFILES[rng.choice(sorted(gen.PROFILES))]).clean()]


def run_world(data, mon):
    from ocelot.io import dataset_schema
    for ds in data:
        mon.sample = ds
        dataset_schema(ds)
        mon.count('datasets of model runs accepted')


# -- directories

class Run:
    """stdout and files of a validation"""

    def __init__(self, mon, cli, *args):
        self.out = io.StringIO()
        err = io.StringIO()
        cwd = os.getcwd()
        work = os.path.join(mon.scratch, 'work')
        os.makedirs(work, exist_ok=True)
        os.chdir(work)
        try:
            with contextlib.redirect_stdout(self.out), contextlib.redirect_stderr(err):
                if cli:
                    from ocelot.bin.ocelot_cli import main
                    argv, sys.argv = sys.argv, ['ocelot-cli'] + list(args)
                    try:
                        main()
                    finally:
                        sys.argv = argv
                    mon.count('by command line')
                else:
                    import ocelot
                    {'validate': ocelot.validate_directory, 'xsd': ocelot.validate_directory_against_xsd}[args[0]](*(list(args[1:]) + [os.path.join(ocelot.data_dir, 'EcoSpold02.xsd')] * (
                        args[0] == 'xsd' and len(args) == 2)))
        finally:
            os.chdir(cwd)
        self.out = self.out.getvalue()
        self.log = os.path.join(work, 'ocelot-validation-errors.log')
        self.text = open(self.log, encoding='utf-8').read() if os.path.exists(self.log) else None
        self.files = sorted(os.listdir(work))


def spoil(rng, ds):
    """Something which can be written and extracted, but isn't in the documented format"""
    how = rng.choice(['isic', 'group', 'distribution', 'group', 'parameter'])
    if how == 'isic':
        ds['ISIC classification'] = None
    elif how == 'group':
        e = rng.choice([e for e in ds['exchanges'] if e['tag'] == 'intermediateExchange'])
        for k in ('production volume', 'byproduct classification'):
            e.pop(k, None)
        e['conditional exchange'] = False
        e['type'] = rng.choice(['materials/fuels', 'electricity/heat', 'services', 'material for treatment', 'stock addition'])
    elif how == 'distribution':
        rng.choice(ds['exchanges'])['uncertainty'] = {'type': 'uniform', 'minimum': 1., 'pedigree matrix': {}}
    else:
        ds['parameters'].append({'id': gen.uid(rng), 'name': 'x', 'amount': 1., 'unit': 'kg', 'uncertainty': {'type': 'triangular', 'minimum': 1., 'maximum': 2., 'pedigree matrix': {}}})
    return how


def gen_directory(rng, index):
    names = gen.Names(rng)
    data = [valid(rng, names) for _ in range(rng.randint(1, 9))]
    for ds in data:
        for e in ds['exchanges']:
            e.get('production volume', {}).pop('subtracted activity link volume', None)
    n = rng.choice([0, 0, 1, 1, 1, 2, len(data)])
    bad = {}
    for i in rng.sample(range(len(data)), min(n, len(data))):
        bad[i] = spoil(rng, data[i])
    return data, bad, rng.getrandbits(32)


def run_directory(case, mon):
    data, bad, seed = case
    rng = random.Random(seed)
    d = os.path.join(mon.scratch, 'data')
    spold.write_directory(rng, d, data)
    with open(os.path.join(d, 'notes.txt'), 'w') as f:
        f.write('not a dataset')
    cli = rng.random() < .4
    run = Run(mon, cli, 'validate', d)
    mon.count('directories validated')
    ids = {i: data[i]['id'] for i in range(len(data))}
    if not bad:
        mon.check('No errors found' in run.out, 'errors in valid files: {} {}', run.out[-300:], (run.text or '')[:1500])
        mon.check(run.text is None, 'wrote errors of valid files')
        mon.count('directories without errors')
    else:
        mon.check('No errors found' not in run.out and 'errors found' in run.out, 'invalid datasets ({}) are not reported: {}', bad, run.out[-300:])
        mon.check(run.text is not None and os.path.basename(run.log) in run.out, 'errors are not written to the log, or its name not told: {}', run.files)
        found = {i for i, x in ids.items() if x in run.text}
        # Datasets with the same kind of error may be reported together
        mon.check(found and found <= set(bad), 'reported datasets {}, invalid are {}', sorted(found), bad)
        number = int(run.out.split(' errors found')[0].split()[-1])
        mon.check(number == len(found), '{} errors announced, {} written', number, len(found))
        mon.check(d in run.text, 'the directory is not named')
        mon.count('invalid datasets reported', len(found))
        mon.count('directories with errors')
    mon.seen('directory', sorted(bad.values()), len(data) > 4, cli)


XBAD = ['attribute', 'no id', 'no amount', 'amount', 'type', 'element', 'no name', 'group', 'order', 'uuid', 'twice', 'date', 'level', 'geography']


def gen_xsd(rng, index):
    names = gen.Names(rng)
    data = []
    for _ in range(rng.randint(1, 8)):
        ds = valid(rng, names)
        n = 0
        for o in [o for e in ds['exchanges'] for o in [e, e.get('production volume', {})] + e['properties']] + ds['parameters']:
            if o.get('uncertainty', {}).get('type') == 'gamma':
                # The format demands another field for it, which is not in the documented format
                del o['uncertainty']
            if 'variable' in o:
                n += 1
                o['variable'] = 'v{}'.format(n)
        data.append(ds)
    n = rng.choice([0, 0, 1, 1, 2, 3, len(data)])
    return data, {i: rng.choice(XBAD) for i in rng.sample(range(len(data)), min(n, len(data)))}, rng.getrandbits(32)


def damage(rng, fp, how):
    """Break the format of a file; it is still XML"""
    from lxml import etree
    ns = '{%s}' % spold.NS
    tree = etree.parse(fp)
    root = tree.getroot()
    excs = [e for e in root.iter() if isinstance(e.tag, str) and e.tag.endswith('Exchange')]
    e = rng.choice(excs)
    activity = next(root.iter(ns + 'activity'))
    if how == 'attribute':
        rng.choice([e, activity]).set('unknown', '1')
    elif how == 'no id':
        rng.choice([e, activity]).attrib.pop('id')
    elif how == 'no amount':
        e.attrib.pop('amount')
    elif how == 'amount':
        e.set('amount', rng.choice(['much', '', '1,5', '0x10']))
    elif how == 'type':
        activity.set('specialActivityType', rng.choice(['99', 'market', '-1']))
    elif how == 'element':
        e.append(etree.Element(ns + 'unknown'))
    elif how == 'no name':
        e.remove(e.find(ns + 'name'))
    elif how == 'group':
        g = [c for c in e if c.tag.endswith('Group')][0]
        g.text = rng.choice(['17', 'x'])
    elif how == 'order':
        flow = next(root.iter(ns + 'flowData'))
        parent = flow.getparent()
        parent.remove(flow)
        parent.insert(0, flow)
    elif how == 'uuid':
        rng.choice([e, activity]).set('id', rng.choice(['abc', '123', '']))
    elif how == 'twice':
        flow = next(root.iter(ns + 'flowData'))
        for _ in range(2):
            p = etree.Element(ns + 'parameter', parameterId=gen.uid(rng), amount='1', variableName='twice')
            etree.SubElement(p, ns + 'name', {'{http://www.w3.org/XML/1998/namespace}lang': 'en'}).text = 'x'
            flow.append(p)
    elif how == 'date':
        next(root.iter(ns + 'timePeriod')).set('startDate', rng.choice(['soon', '2010-13-01', '1.1.2010']))
    elif how == 'level':
        next(root.iter(ns + 'technology')).set('technologyLevel', '9')
    else:
        g = next(root.iter(ns + 'geography'))
        g.remove(g[0])
    tree.write(fp, xml_declaration=True, encoding='utf-8')


def run_xsd(case, mon):
    data, bad, seed = case
    rng = random.Random(seed)
    d = os.path.join(mon.scratch, 'data')
    os.makedirs(d)
    fns = []
    for i, ds in enumerate(data):
        fns.append('{}{}'.format(gen.uid(rng), rng.choice(['.spold', '.spold', '.SPOLD'])))
        fp = os.path.join(d, fns[-1])
        spold.Writer(rng, False).file(fp, [ds])
        if i in bad:
            damage(rng, fp, bad[i])
    if rng.random() < .5:
        with open(os.path.join(d, 'notes.txt'), 'w') as f:
            f.write('not a dataset')
    cli = rng.random() < .4
    run = Run(mon, cli, 'xsd', d)
    mon.count('xsd: files validated', len(data))
    mon.count('xsd: valid files', len(data) - len(bad))
    mon.count('xsd: invalid files', len(bad))
    for i, fn in enumerate(fns):
        mon.check((fn in run.out) == (i in bad), '{} file {} was {}reported', 'invalid ({})'.format(bad[i]) if i in bad else 'valid', fn, '' if fn in run.out else 'not ')
    mon.check(('All files valid' in run.out) == (not bad), 'it says {!r}, but {} of {} files are invalid', run.out[-200:], len(bad), len(data))
    mon.seen('xsd', sorted(bad.values()), len(data) > 4, cli)


KINDS = {'schema': (gen_schema, run_schema), 'world': (gen_world, run_world), 'directory': (gen_directory, run_directory), 'xsd': (gen_xsd, run_xsd)}
PLAN = {'quick': dict(schema=1500, world=60, directory=120, xsd=150), 'thorough': dict(schema=60000, world=2000, directory=3000, xsd=4000)}
