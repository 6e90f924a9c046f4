"""Ecospold2 files: random datasets in the internal format, and a writer which knows nothing of the reader under test."""
import os
from xml.sax.saxutils import escape

from . import gen

NS = 'http://www.EcoInvent.org/EcoSpold02'
TYPES = {'transforming activity': '0', 'market activity': '1', 'market group': '10', 'IO activity': '2', 'residual activity': '3', 'production mix': '4',
         'import activity': '5', 'supply mix': '6', 'export activity': '7', 're-export activity': '8', 'correction activity': '9'}
LEVELS = {'undefined': '0', 'new': '1', 'modern': '2', 'current': '3', 'old': '4', 'outdated': '5'}
GROUPS = {'from environment': ('inputGroup', '4'), 'from technosphere': ('inputGroup', '5'), 'materials/fuels': ('inputGroup', '1'),
          'electricity/heat': ('inputGroup', '2'), 'services': ('inputGroup', '3'),
          'reference product': ('outputGroup', '0'), 'byproduct': ('outputGroup', '2'), 'to environment': ('outputGroup', '4'),
          'material for treatment': ('outputGroup', '3'), 'stock addition': ('outputGroup', '5')}
ACCESS = {'public': '0', 'licensees': '1', 'results only': '2', 'restricted': '3'}
CLASSES = {'allocatable product': 'allocatable product', 'waste': 'Waste', 'recyclable': 'Recyclable'}
PEDIGREE = [('reliability', 'reliability'), ('completeness', 'completeness'), ('temporal correlation', 'temporalCorrelation'),
            ('geographical correlation', 'geographicalCorrelation'), ('further technology correlation', 'furtherTechnologyCorrelation')]
PARAM = {'maximum': 'maxValue', 'minimum': 'minValue', 'mean': 'meanValue', 'variance with pedigree uncertainty': 'varianceWithPedigreeUncertainty',
         'standard deviation 95%': 'standardDeviation95', 'mu': 'mu', 'variance': 'variance', 'n': 'n', 'p': 'p', 'shape': 'shape', 'scale': 'scale'}
DEFAULT = {k: 5 for k, _ in PEDIGREE}


def attr(s):
    return '"{}"'.format(escape(s, {'"': '&quot;', '\n': '&#10;', '\t': '&#9;', '\r': '&#13;'}))


class Writer:
    """Writes one file; ``fancy`` adds everything the format allows and the model does not need"""

    def __init__(self, rng, fancy=True):
        self.rng, self.fancy = rng, fancy
        self.out = []

    def maybe(self, p=.3):
        return self.fancy and self.rng.random() < p

    def number(self, x):
        if x == int(x) and abs(x) < 1e15 and self.rng.random() < .5:
            return '%d' % x
        s = repr(float(x))
        if self.maybe(.1):
            s = '%.17e' % x
        if self.maybe(.05):
            s = s.upper()
        return s

    def tag(self, name, attrs, *children):
        attrs = [a for a in attrs if a[1] is not None]
        if self.maybe():
            self.rng.shuffle(attrs)
        text = '<' + name + ''.join(' {}={}'.format(k, attr(v)) for k, v in attrs)
        body = ''.join(children)
        if not body and self.maybe(.5):
            return text + ' />'
        return text + '>' + ('\n' if body.startswith('<') and self.maybe(.7) else '') + body + '</' + name + '>' + ('\n  ' if self.maybe(.5) else '')

    def words(self, name, text):
        """An element in several languages, English first"""
        body = escape(text)
        if self.maybe(.05) and ']]>' not in text:
            body = '<![CDATA[{}]]>'.format(text)
        s = '<{0} xml:lang="en">{1}</{0}>'.format(name, body) if self.rng.random() < .9 else '<{0}>{1}</{0}>'.format(name, body)
        if self.maybe(.2):
            s += '<{0} xml:lang="de">{1}</{0}>'.format(name, 'anders &amp; übersetzt')
        return s

    def uid(self):
        return gen.uid(self.rng)

    def comment(self, p=.2):
        return self.words('comment', 'uncertainty, property and <parameter> are only words') if self.maybe(p) else ''

    def uncertainty(self, u, name='uncertainty'):
        kind = u['type']
        pars = []
        for k, v in u.items():
            if k in ('type', 'pedigree matrix'):
                continue
            if k == 'mode':
                key = 'mostLikelyValue' if kind == 'triangular' else 'mostFrequentValue'
            else:
                key = PARAM[k]
            pars.append((key, '%d' % v if k == 'n' else self.number(v)))
        pm = u['pedigree matrix']
        keep = pm and not (pm == DEFAULT and kind in ('lognormal', 'normal') and self.rng.random() < .7)
        return self.tag(name, [], self.tag(kind, pars), self.tag('pedigreeMatrix', [(b, str(pm[a])) for a, b in PEDIGREE]) if keep else '', self.comment())

    def spaced(self, s):
        if s is None:
            return s
        return self.rng.choice([' ', '', '\n', '  ']) + s + self.rng.choice([' ', '', '\t']) if self.maybe(.15) else s

    def maths(self, o):
        return [('variableName', self.spaced(o.get('variable'))), ('mathematicalRelation', self.spaced(o.get('formula')))]

    def prop(self, p):
        return self.tag('property', [('propertyId', p['id']), ('amount', self.number(p['amount'])), ('unitId', self.uid() if self.maybe() else None)] + self.maths(p),
                        self.words('name', p['name']),
                        '' if p['unit'] == 'dimensionless' and self.rng.random() < .5 else self.words('unitName', p['unit']),
                        self.uncertainty(p['uncertainty']) if 'uncertainty' in p else '', self.comment())

    def parameter(self, p):
        return self.tag('parameter', [('parameterId', p['id']), ('amount', self.number(p['amount']))] + self.maths(p),
                        self.words('name', p['name']), '' if p['unit'] == 'dimensionless' and self.rng.random() < .5 else self.words('unitName', p['unit']),
                        self.uncertainty(p['uncertainty']) if 'uncertainty' in p else '', self.comment())

    def classification(self, system, value):
        return self.tag('classification', [('classificationId', self.uid())], self.words('classificationSystem', system), self.words('classificationValue', value))

    def exchange(self, e):
        inter = e['tag'] == 'intermediateExchange'
        attrs = [('id', e['id']), ('unitId', self.uid()), ('amount', self.number(e['amount']))] + self.maths(e)
        attrs.append(('intermediateExchangeId' if inter else 'elementaryExchangeId', self.uid()))
        if self.maybe(.2):
            attrs += [('sourceId', self.uid()), ('sourceYear', '2008'), ('sourceFirstAuthor', 'amount="3"'), ('isCalculatedAmount', 'true')]
        body = [self.words('name', e['name']), self.words('unitName', e['unit']), self.comment()]
        if 'uncertainty' in e:
            body.append(self.uncertainty(e['uncertainty']))
        if self.maybe(.2):
            body.append(self.words('synonym', 'another name'))
        body += [self.prop(p) for p in e['properties']]
        if self.maybe(.1):
            body.append(self.tag('transferCoefficient', [('exchangeId', self.uid()), ('amount', '3'), ('mathematicalRelation', '1 + 2')],
                                 self.uncertainty({'type': 'uniform', 'minimum': 1., 'maximum': 5., 'pedigree matrix': {}})))
        if self.maybe(.1):
            body.append('<tag>a tag</tag>')
        if inter:
            attrs.append(('activityLinkId', e.get('activity link', '' if self.maybe(.05) and e.get('_emptylink') else None)))
            pv = e.get('production volume')
            if pv:
                if pv['amount'] or self.rng.random() < .5:
                    attrs.append(('productionVolumeAmount', self.number(pv['amount'])))
                attrs += [('productionVolumeVariableName', self.spaced(pv.get('variable'))), ('productionVolumeMathematicalRelation', self.spaced(pv.get('formula')))]
                if self.maybe(.2):
                    body.append(self.words('productionVolumeComment', 'a comment'))
                if 'uncertainty' in pv:
                    body.append(self.uncertainty(pv['uncertainty'], 'productionVolumeUncertainty'))
            elif self.maybe(.1):
                # Means nothing for inputs
                attrs.append(('productionVolumeAmount', '77'))
            cls = [self.classification('CPC', '{}: {}'.format(self.rng.randrange(9999), 'Waste'))] if self.maybe(.4) else []
            if 'byproduct classification' in e:
                cls.append(self.classification('By-product classification', CLASSES[e['byproduct classification']]))
                if self.maybe(.08):
                    cls.append(cls[-1])
            self.rng.shuffle(cls)
            body += cls
        else:
            body.append(self.tag('compartment', [('subcompartmentId', self.uid())], self.words('compartment', e['compartment']), self.words('subcompartment', e['subcompartment'])))
        body.append('<{0}>{1}</{0}>'.format(*GROUPS[e['type']]))
        return self.tag(e['tag'], attrs, *body)

    def dataset(self, ds):
        cls = [self.classification(self.rng.choice(['ISIC rev.4 ecoinvent', 'ISIC', 'ISIC rev.4', 'UN ISIC rev.4']), ds['ISIC classification'])] if ds['ISIC classification'] is not None else []
        if self.maybe(.4):
            cls.append(self.classification(self.rng.choice(['EcoSpold01Categories', 'CPC', 'NACE']), 'metals/extraction'))
        self.rng.shuffle(cls)
        ints = [self.exchange(e) for e in ds['exchanges'] if e['tag'] == 'intermediateExchange']
        elem = [self.exchange(e) for e in ds['exchanges'] if e['tag'] == 'elementaryExchange']
        pars = [self.parameter(p) for p in ds['parameters']]
        start = self.words('includedActivitiesStart', 'from & to') if self.maybe() else ''
        general = self.tag('generalComment', [], self.tag('text', [('xml:lang', 'en'), ('index', '0')], 'a &lt;b&gt; {x}')) if self.maybe() else ''
        desc = self.tag('activityDescription', [],
                        self.tag('activity', [('id', ds['id']), ('activityNameId', self.uid()), ('parentActivityId', ds['parent']), ('type', '1'),
                                              ('specialActivityType', TYPES[ds['type']]), ('inheritanceDepth', '0' if self.maybe() else None)],
                                 self.words('activityName', ds['name']), start, general),
                        *cls,
                        self.tag('geography', [('geographyId', self.uid())], self.words('shortname', ds['location'])),
                        self.tag('technology', [('technologyLevel', None if ds['technology level'] == 'undefined' and self.rng.random() < .5 else LEVELS[ds['technology level']])]),
                        self.tag('timePeriod', [('startDate', ds['start date']), ('endDate', ds['end date']), ('isDataValidForEntirePeriod', 'true')]),
                        self.tag('macroEconomicScenario', [('macroEconomicScenarioId', self.uid())], self.words('name', ds['economic scenario'])))
        admin = self.tag('administrativeInformation', [],
                         self.tag('dataEntryBy', [('personId', self.uid()), ('personName', ds['data entry']), ('personEmail', 'a@b.ch')]),
                         self.tag('dataGeneratorAndPublication', [('personId', self.uid()), ('personName', ds['dataset author']), ('personEmail', 'c@d.ch'),
                                                                  ('isCopyrightProtected', 'true'), ('accessRestrictedTo', ACCESS[ds['access restricted']])]),
                         self.tag('fileAttributes', [('majorRelease', '3'), ('minorRelease', '0'), ('majorRevision', '9'), ('minorRevision', '0')]))
        return self.tag(self.rng.choice(['activityDataset', 'activityDataset', 'childActivityDataset']) if self.fancy else 'activityDataset', [],
                        desc, self.tag('flowData', [], *(ints + elem + pars)), self.tag('modellingAndValidation', []), admin)

    def file(self, fp, datasets, bom=None):
        body = self.tag('ecoSpold', [('xmlns', NS)], *[self.dataset(ds) for ds in datasets])
        text = '<?xml version="1.0" encoding="utf-8"?>\n' + body
        if bom if bom is not None else self.maybe(.5):
            text = '\ufeff' + text
        with open(fp, 'wb') as f:
            f.write(text.encode('utf-8'))


def plain(ds, filepath):
    """What a reader has to find in the file written for ``ds``: exchanges in the order of the file"""
    ds = dict(ds, filepath=filepath)
    ds['exchanges'] = ([e for e in ds['exchanges'] if e['tag'] == 'intermediateExchange'] +
                       [e for e in ds['exchanges'] if e['tag'] == 'elementaryExchange'])
    return ds


def distribution(rng, amount):
    kind = rng.choice(['lognormal', 'lognormal', 'normal', 'triangular', 'uniform', 'undefined', 'beta', 'binomial', 'gamma'])
    n = lambda: gen.num(rng) * rng.choice([1, 1, 1, -1])
    u = {'lognormal': lambda: {'mean': n(), 'mu': n(), 'variance': n(), 'variance with pedigree uncertainty': n()},
         'normal': lambda: {'mean': n(), 'variance': n(), 'variance with pedigree uncertainty': n()},
         'triangular': lambda: {'minimum': n(), 'mode': n(), 'maximum': n()}, 'uniform': lambda: {'minimum': n(), 'maximum': n()},
         'undefined': lambda: {'minimum': n(), 'maximum': n(), 'standard deviation 95%': n()}, 'beta': lambda: {'minimum': n(), 'mode': n(), 'maximum': n()},
         'binomial': lambda: {'n': float(rng.randint(1, 99)), 'p': rng.random()}, 'gamma': lambda: {'shape': n(), 'scale': n()}}[kind]()
    if kind in ('lognormal', 'normal') and rng.random() < .15:
        u.pop('variance')
    pm = {k: rng.randint(1, 5) for k, _ in PEDIGREE} if rng.random() < .6 else {}
    if not pm and kind in ('lognormal', 'normal'):
        pm = dict(DEFAULT)
    u.update({'type': kind, 'pedigree matrix': pm})
    return u


FORMULAS = ['x * 2', "if(a>b;1;2)", 'IF(a < b & c; 3; 4)', "Ref('b48dfb3c-d9c6-4023-a424-eabcf6141198') + 1", '5%', '"q"', 'a\nb', 'Größe+1', '1e-3*prop_1']


def value(rng, o, p=.4):
    if rng.random() < p:
        o['uncertainty'] = distribution(rng, o['amount'])
    if rng.random() < .3:
        o['variable'] = rng.choice(['x', 'Amount_1', 'größe', 'a.b', 'if', 'xml']) + str(rng.randrange(100))
    if rng.random() < .3:
        o['formula'] = rng.choice(FORMULAS)
    return o


def amount(rng):
    x = rng.random()
    if x < .1:
        return 0.
    if x < .15:
        return rng.choice([1e308, 5e-324, 1e-300, .1 + .2, 1 / 3, 123456789012345680.])
    return gen.num(rng) * rng.choice([1, 1, -1])


def random_dataset(rng, names, odd=True):
    """Anything an ecospold2 file can say, in the internal format"""
    kind = rng.choice(['transforming activity'] * 4 + ['market activity'] * 4 + ['market group'] + (list(TYPES) if odd else []))
    ex = []
    kinds = ['reference product', 'byproduct', 'byproduct', 'from technosphere', 'from technosphere', 'to environment', 'from environment']
    if odd:
        kinds += ['materials/fuels', 'electricity/heat', 'services', 'material for treatment', 'stock addition'][rng.randrange(5):][:1]
    for i in range(gen.size(rng, 1, 7)):
        t = 'reference product' if i == 0 else rng.choice(kinds)
        env = 'environment' in t
        e = value(rng, {'id': gen.uid(rng), 'tag': 'elementaryExchange' if env else 'intermediateExchange', 'name': names.new(), 'unit': rng.choice(gen.UNITS + ['m²*year', 'µg']),
                        'amount': amount(rng), 'type': t, 'properties': []})
        if env:
            e['compartment'], e['subcompartment'] = rng.choice(['air', 'water', 'soil', 'natural resource']), rng.choice(['unspecified', 'ground-', 'low population density, long-term'])
        else:
            if rng.random() < .35:
                e['activity link'] = gen.uid(rng)
            if t in ('reference product', 'byproduct') or rng.random() < .3:
                if rng.random() < .85:
                    e['byproduct classification'] = rng.choice(list(CLASSES))
            if t in ('reference product', 'byproduct'):
                e['production volume'] = value(rng, {'amount': (abs if rng.random() < .85 else float)(amount(rng))})
            e['conditional exchange'] = kind == 'market activity' and t == 'byproduct' and 'activity link' in e and e['amount'] < 0
        for j in range(rng.choice([0, 0, 1, 2, 4])):
            e['properties'].append(value(rng, {'id': gen.uid(rng), 'name': rng.choice(['price', 'true value relation', 'dry mass', 'carbon content, fossil', 'wet mass']),
                                               'amount': amount(rng), 'unit': rng.choice(['kg', 'EUR2005', 'dimensionless'])}, .2))
        ex.append(e)
    rng.shuffle(ex)
    return {'id': gen.uid(rng), 'parent': gen.uid(rng) if rng.random() < .3 else None, 'name': names.new(), 'location': rng.choice(['GLO', 'CH', 'RER', 'CN-SC', 'Europe without Switzerland', 'RoW']),
            'type': kind, 'technology level': rng.choice(list(LEVELS)), 'start date': '{}-01-01'.format(rng.randint(1980, 2016)), 'end date': '2018-12-31',
            'economic scenario': rng.choice(['Business-as-Usual', 'High <growth>']), 'access restricted': rng.choice(list(ACCESS)),
            'parameters': [value(rng, {'id': gen.uid(rng), 'name': names.new()[:60], 'amount': amount(rng), 'unit': rng.choice(['kg', 'dimensionless', 'km/h'])}) for _ in range(rng.choice([0, 0, 1, 3]))],
            'dataset author': rng.choice(['A. Author', 'Jürgen "J" Müller', 'O\'Neil & Sons']), 'data entry': rng.choice(['B. Entry', '[System]']),
            'ISIC classification': rng.choice(['0111:Growing of cereals', '3510:Electric power', 'waste']), 'exchanges': ex}


def clean_for_file(ds):
    """A dataset of a generated world as it would be in a file (worlds are in the internal format already)"""
    import copy
    ds = copy.deepcopy(ds)
    for o in [o for e in ds['exchanges'] for o in [e, e.get('production volume', {})] + e['properties']] + ds['parameters']:
        u = o.get('uncertainty')
        if u:
            if not u.get('pedigree matrix') and u['type'] in ('lognormal', 'normal'):
                u['pedigree matrix'] = dict(DEFAULT)
            u.setdefault('pedigree matrix', {})
    return ds


def write_directory(rng, dirpath, datasets, fancy=True, several=True, names=None):
    """Spread ``datasets`` over .spold files. Returns what is to be read, by file path"""
    os.makedirs(dirpath, exist_ok=True)
    want, rest, i = {}, list(datasets), 0
    while rest:
        n = rng.choice([1, 1, 1, 2, 3]) if several else 1
        group, rest = rest[:n], rest[n:]
        i += 1
        fn = names.pop() if names else '{}_{}{}'.format(gen.uid(rng), i, rng.choice(['.spold', '.spold', '.SPOLD', '.Spold']) if fancy else '.spold')
        fp = os.path.join(dirpath, fn)
        Writer(rng, fancy).file(fp, group)
        want[fp] = [plain(ds, fp) for ds in group]
    return want
