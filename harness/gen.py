"""Workload generators: hostile numbers, names, exchanges, datasets and whole little databases ("worlds")."""
import copy
import math
import random
import uuid as _uuid

from .dictionary import new_constants
from .topo import topo

NEWN, NEWS = [], []


def load_dictionary():
    global NEWN, NEWS
    n, s = new_constants()
    NEWN = [abs(x) for x in n if x and 1e-30 < abs(x) < 1e30]
    NEWS = list(s)
    t = topo()
    t.hints = [k for k in NEWS if k in t.mask and k not in ('GLO', 'RoW')]


load_dictionary()

WORDS = ['steel', 'steel, low-alloyed', 'heat', 'heat, district', 'electricity', 'electricity, high voltage',
         'biogas', 'paper', 'Zement', 'ciment blanc', 'acier à l\'azote', 'Ökostrom', 'bastnäsite', 'H2SO4', '2,3-dimethylbutan',
         'cement, 6-20%', 'waste paint', 'scrap', 'aluminium scrap, post-consumer', 'copper', 'copper ', 'natural gas',
         'transport', 'transport, freight', 'wood chips', 'market', 'market for', 'refinery', 'gas', 'petrol', 'ash',
         'sludge', 'glass cullet', 'manure', 'oil', 'naphtha', 'water', 'WATER treated', 'x', 'X2', 'a/b', 'a|b', '日本鋼', 'é', 'cut-off',
         'Recycled Content', 'digester sludge', 'used vegetable cooking oil', 'petroleum', 'diesel', 'benzene', 'RoW', 'GLO']


def num(rng, lo=-3, hi=3, wide=.12):
    """A positive number"""
    x = rng.random()
    if NEWN and x < .12:
        c = rng.choice(NEWN)
        return max(1e-30, rng.choice([c, c, c + 1, abs(c - 1) or c, c * (1 + 1e-6), c * (1 - 1e-6), c * 1.5, c / 2, c * 1000, c / 1000]))
    if x < .3:
        return rng.choice([1., 1., 2., .5, 10., 3., .25, 100., .1, 7., 1000.])
    if x < .3 + wide:
        return 10 ** rng.uniform(-12, 12)
    return 10 ** rng.uniform(lo, hi)


def size(rng, lo, hi, cap=45):
    x = rng.random()
    small = [int(c) for c in NEWN if c == int(c) and 1 < c <= cap]
    if small and x < .2:
        c = rng.choice(small)
        if c <= 12 or x < .06:      # big ones are costly: the work grows with the square of the sizes
            return max(lo, c + rng.choice([-1, 0, 1, 1, 2]))
    if x > .97:
        return min(cap, hi * 3)
    return rng.randint(lo, hi)


def uid(rng):
    return str(_uuid.UUID(int=rng.getrandbits(128), version=4))


class Names:
    """Unique names (also case-insensitively, and as no name is part of an identity collision)"""

    def __init__(self, rng):
        self.rng, self.used = rng, set()

    def new(self, hint=None):
        rng = self.rng
        for i in range(1000):
            x = rng.random()
            if NEWS and x < .2:
                n = rng.choice(NEWS)
                if rng.random() < .4:
                    n = rng.choice([n + ', ' + rng.choice(WORDS), rng.choice(WORDS) + ' ' + n])
            elif x < .5:
                n = rng.choice(WORDS)
            else:
                n = rng.choice(WORDS) + rng.choice([', ', ' ', ' from ', ', at ', '; ']) + rng.choice(WORDS)
            n = n.strip()
            if hint:
                n = hint.format(n)
            if i > 50:
                n += ' #{}'.format(i)
            if (n.lower() in self.used or not n or ', Recycled Content cut-off' in n or n == 'refinery gas'
                    or any(ord(c) < 32 for c in n)):
                continue
            self.used.add(n.lower())
            return n


UNITS = ['kg', 'MJ', 'kWh', 'm3', 'unit', 'tkm']


def uncertainty(rng, amount):
    """A valid distribution around ``amount`` (nonzero), as extracted from ecospold2"""
    kind = rng.choice(['lognormal', 'lognormal', 'normal', 'triangular', 'uniform', 'undefined'])
    a = abs(amount)
    var = 10 ** rng.uniform(-6, -.5)
    if kind == 'lognormal':
        return {'type': kind, 'mean': a, 'mu': math.log(a), 'variance': var, 'pedigree matrix': {},
                'variance with pedigree uncertainty': var}
    if kind == 'normal':
        v = (a * 10 ** rng.uniform(-3, 0)) ** 2
        return {'type': kind, 'mean': amount, 'variance': v * .5, 'variance with pedigree uncertainty': v, 'pedigree matrix': {}}
    if kind == 'triangular':
        return {'type': kind, 'minimum': amount - a * rng.uniform(.05, 2), 'mode': amount,
                'maximum': amount + a * rng.uniform(.05, 2), 'pedigree matrix': {}}
    if kind == 'uniform':
        w = a * rng.choice([.25, .5, .125, 1.])
        return {'type': kind, 'minimum': amount - w, 'maximum': amount + w, 'pedigree matrix': {}}
    return {'type': kind, 'minimum': amount - a * rng.uniform(0, 1), 'maximum': amount + a * rng.uniform(0, 1),
            'standard deviation 95%': rng.uniform(0, 3), 'pedigree matrix': {}}


def prop(rng, name, amount, **kw):
    d = {'id': uid(rng), 'name': name, 'amount': float(amount), 'unit': 'dimensionless'}
    d.update(kw)
    return d


def exchange(rng, name, amount, kind, unit='kg', p_unc=.4, **kw):
    e = {'id': uid(rng), 'tag': 'intermediateExchange', 'name': name, 'unit': unit, 'amount': float(amount), 'type': kind,
         'properties': [], 'conditional exchange': False}
    if 'environment' in kind:
        e['tag'] = 'elementaryExchange'
        del e['conditional exchange']
        e['compartment'] = rng.choice(['air', 'water', 'soil', 'natural resource'])
        e['subcompartment'] = rng.choice(['unspecified', 'urban air close to ground', 'ground-'])
    if kind in ('reference product', 'byproduct'):
        e['production volume'] = {'amount': 0.}
        e['byproduct classification'] = 'allocatable product'
    if amount and rng.random() < p_unc:
        e['uncertainty'] = uncertainty(rng, amount)
    e.update(kw)
    return e


def dataset(rng, name, location, kind, exchanges, **kw):
    d = {'filepath': '/data/{}_{}.spold'.format(uid(rng), rng.randrange(1000)), 'id': uid(rng), 'parent': None, 'name': name, 'location': location,
         'type': kind, 'technology level': rng.choice(['undefined', 'new', 'modern', 'current', 'old', 'outdated']),
         'start date': '2010-01-01', 'end date': '2015-12-31',
         'economic scenario': 'Business-as-Usual', 'access restricted': rng.choice(['public', 'licensees']), 'parameters': [],
         'dataset author': 'A. Author', 'data entry': 'B. Entry', 'ISIC classification': '1234:things',
         'exchanges': exchanges}
    d.update(kw)
    return d


def emission(rng, i, p_unc=.4):
    return exchange(rng, rng.choice(['Carbon dioxide, fossil', 'NOx', 'Methane', 'Zinc', 'Water']) + ('' if i < 2 else ' {}'.format(i)),
                    num(rng) * rng.choice([1, 1, 1, -1]), rng.choice(['to environment', 'to environment', 'from environment']), p_unc=p_unc)


class Product:
    pass


class World:
    """A little unlinked database with everything the cutoff system model has to handle.

    Options are probabilities (or counts); every world is valid input: no documented error applies.
    """
    DEFAULTS = dict(products=(2, 5), techs=(1, 3), locs=(1, 5), markets=(1, 5), p_glo_market=.75, p_glo_tech=.6, p_group=.3,
                    groups=(1, 3), p_zero_pv=.12, p_link=.15, p_economic=.25, p_truevalue=.4, p_waste=.35, p_recyclable=.35,
                    p_combined=.15, p_treat_by=.4, inputs=(0, 3), emissions=(0, 2), p_unc=.3, p_parent=.05, p_self_loss=.1,
                    p_conseq=.1, p_neg_recyc_market=.3, p_zero_by=.1, p_idle=.06, p_virgin=.3, p_inherit=.4, p_everywhere=.7, p_rpamount=.4, p_byPV=.25, p_wo_products=.08,
                    p_market_inputs=.35, p_zero_input=.03, p_dates=.1, p_special=.06, p_neg_input=.06, p_dup_input=.08,
                    p_cover=.04, p_twins=.03)

    def __init__(self, rng, **opts):
        self.rng = rng
        self.o = dict(self.DEFAULTS)
        self.o.update(opts)
        self.t = topo()
        self.names = Names(rng)
        self.data = []
        self.features = set()
        # two areas of the same size which overlap
        self.twins = rng.choice(self.t.twins) if self.t.twins and rng.random() < self.o['p_twins'] else ()
        self.build()

    # -- helpers

    def p(self, key):
        return self.rng.random() < self.o[key]

    def n(self, key):
        v = self.o[key]
        return size(self.rng, *v)

    def pv(self):
        return 0. if self.p('p_zero_pv') else num(self.rng, -1, 4)

    def exc(self, *a, **kw):
        kw.setdefault('p_unc', self.o['p_unc'])
        return exchange(self.rng, *a, **kw)

    def places(self, n, p_glo, near=None):
        if self.p('p_cover'):
            locs = self.t.cover(self.rng) + ['GLO']
            self.rng.shuffle(locs)
            self.features.add('small rest of world')
            return locs
        locs = self.t.disjoint(self.rng, n, near)
        if self.twins and self.rng.random() < .7:
            a, b = (self.t.mask[k] for k in self.twins)
            new = self.rng.choice([k for k in self.t.regions if self.t.mask[k] & a & b])
            locs = [new] + [k for k in locs if not self.t.mask[k] & self.t.mask[new]]
        if not locs or self.rng.random() < p_glo:
            locs = locs[:max(0, n - 1)] + ['GLO']
        self.rng.shuffle(locs)
        return locs

    def rpamount(self):
        return num(self.rng, -2, 2) if self.p('p_rpamount') else 1.

    # -- build

    def new_product(self, kind):
        x = Product()
        x.kind = kind
        x.name = self.names.new()
        x.unit = self.rng.choice(UNITS)
        x.techs, x.markets, x.groups = [], [], []
        x.mlocs = None
        self.products.append(x)
        return x

    def build(self):
        rng = self.rng
        self.products = []
        goods = [self.new_product('allocatable product') for _ in range(max(1, self.n('products')))]
        wastes = [self.new_product('waste') for _ in range(rng.randint(1, 2))] if self.p('p_waste') else []
        recs = [self.new_product('recyclable') for _ in range(rng.randint(1, self.o.get('recs', 2)))] if self.p('p_recyclable') else []
        # Market areas first, so that technologies can be placed in relation to them
        for x in self.products:
            x.mlocs = self.places(max(1, self.n('markets')), self.o['p_glo_market']) if x.kind != 'recyclable' or rng.random() < .6 else ['GLO']
        # Technologies. A product can be made by its own technologies, and be a co-product of others
        for x in goods:
            for _ in range(max(1, self.n('techs'))):
                self.technology(x, goods, wastes, recs)
        for x in wastes + recs:
            for _ in range(rng.randint(1, 2)):
                self.treatment(x, goods)
        for x in recs:
            if self.p('p_virgin'):
                # also made on purpose
                self.technology(x, [x], wastes, recs)
                self.features.add('recyclable made on purpose')
        if wastes + recs and len(goods) and self.p('p_wo_products'):
            self.combined_without_products(wastes, recs, goods)
        if self.p('p_special'):
            self.special(goods)
        for x in self.products:
            self.make_markets(x)
        self.fill(goods, wastes, recs)
        self.links()
        if self.p('p_inherit'):
            self.inherit()
        rng.shuffle(self.data)

    def inherit(self):
        """Exchanges of regional versions of an activity have the ids of the first version"""
        seen = {}
        for ds in self.data:
            ids = {}
            for e in ds['exchanges']:
                ids.setdefault((e['name'], e['type']), []).append(e)
            for k, es in ids.items():
                old = seen.setdefault((ds['name'], ds['type']) + k, [])
                for i, e in enumerate(es):
                    if i < len(old):
                        e['id'] = old[i]
                    else:
                        old.append(e['id'])
        self.features.add('inherited ids')

    def base_exchanges(self):
        return []

    def technology(self, x, goods, wastes, recs):
        rng = self.rng
        name = self.names.new(rng.choice(['{}', '{} production', 'production of {}, modern']))
        locs = self.places(max(1, self.n('locs')), self.o['p_glo_tech'], x.mlocs if x.mlocs != ['GLO'] else None)
        others = [g for g in goods if g is not x]
        coproducts, mode = [], 'single'
        if others and self.p('p_economic'):
            mode = 'economic'
            coproducts = rng.sample(others, min(len(others), rng.randint(1, 3)))
        elif others and self.p('p_combined'):
            mode = rng.choice(['combined', 'combined', 'combined by'])
            coproducts = rng.sample(others, min(len(others), rng.randint(1, 3)))
            if mode == 'combined by' and len(coproducts) < 2:
                mode = 'combined'
        start = '200{}-01-01'.format(rng.randrange(10)) if self.p('p_dates') else '2010-01-01'
        for loc in locs:
            ds = dataset(rng, name, loc, 'transforming activity', [], **{'start date': start})
            ds['_mode'], ds['_idle'] = mode, []
            if mode in ('single', 'economic'):
                rp = self.exc(x.name, self.rpamount(), 'reference product', x.unit, **{'production volume': {'amount': self.pv()}})
                self.price(rp)
                ds['exchanges'].append(rp)
                for c in coproducts:
                    e = self.exc(c.name, num(rng, -2, 2), 'byproduct', c.unit)
                    if self.p('p_byPV'):
                        e['production volume'] = {'amount': self.pv()}
                    self.price(e)
                    ds['exchanges'].append(e)
                    self.idle(e, ds, c)
                if mode == 'single' and others and self.p('p_zero_by'):
                    c = rng.choice(others)
                    ds['exchanges'].append(self.exc(c.name, 0., 'byproduct', c.unit))
                    self.features.add('zero byproduct')
            else:
                self.combined(ds, [x] + coproducts, mode)
            self.features.add(mode)
            for p_ in [x] + coproducts:
                if p_ not in ds['_idle']:
                    p_.techs.append(ds)
            del ds['_idle']
            self.data.append(ds)

    def idle(self, e, ds, x):
        """Some coproducts aren't made at this place"""
        if self.p('p_idle'):
            e['amount'] = 0.
            e.pop('uncertainty', None)
            ds['_idle'].append(x)
            self.features.add('zero coproduct')

    def price(self, e):
        rng = self.rng
        e['properties'].append(prop(rng, 'price', num(rng, -2, 2)))
        if self.p('p_truevalue') and rng.random() < .6:
            e['properties'].append(prop(rng, 'true value relation', num(rng, -2, 2)))
            self.features.add('true value')
        rng.shuffle(e['properties'])

    def combined(self, ds, products, mode):
        """Reference products are variables, everything else is a linear formula of them"""
        rng = self.rng
        byp = []
        if mode == 'combined by':
            byp, products = products[-1:], products[:-1]
        ds['_vars'] = []
        tag = 'v{}'.format(rng.randrange(1000))
        for i, x in enumerate(products):
            v = '{}_{}'.format(tag, 'abcdefgh'[i])
            e = self.exc(x.name, num(rng, -1, 1, 0), 'reference product', x.unit, p_unc=.1, variable=v,
                         **{'production volume': {'amount': self.pv()}})
            self.price(e)
            ds['exchanges'].append(e)
            ds['_vars'].append(v)
        for x in byp:
            e = self.exc(x.name, 1., 'byproduct', x.unit, p_unc=0)
            self.formula(ds, e, positive=self.p('p_everywhere'))
            self.price(e)
            if self.p('p_byPV'):
                e['production volume'] = {'amount': self.pv()}
            ds['exchanges'].append(e)

    def formula(self, ds, e, positive=False):
        """Linear in the reference product variables; ``e['_terms']`` is what the reference model evaluates"""
        rng = self.rng
        terms = {v: round(num(rng, -1, 1, 0), 6) for v in ds['_vars'] if positive or rng.random() < .75}
        if not terms:
            terms = {rng.choice(ds['_vars']): 1.5}
        if NEWN:
            terms = {k: max(v, 1e-6) for k, v in terms.items()}
        parts = ['{} * {}'.format(k, repr(v)) for k, v in terms.items()]
        if rng.random() < .3:
            # through a dataset parameter
            pv = 'par_{}_{}'.format(len(ds['parameters']), rng.randrange(100))
            ds['parameters'].append({'id': uid(rng), 'name': pv, 'unit': 'dimensionless', 'variable': pv, 'amount': 1.,
                                     'formula': ' + '.join(parts)})
            e['formula'] = pv
        else:
            e['formula'] = ' + '.join(parts)
        e['_terms'] = terms
        vals = {x['variable']: x['amount'] for x in ds['exchanges'] if x.get('variable')}
        e['amount'] = sum(vals[k] * v for k, v in terms.items())
        if 'uncertainty' in e:
            e['uncertainty'] = uncertainty(rng, e['amount'])
            if e['uncertainty']['type'] in ('uniform', 'triangular', 'undefined', 'normal'):
                del e['uncertainty']

    def treatment(self, x, goods):
        """Waste treatment or recycling activities"""
        rng = self.rng
        name = self.names.new(rng.choice(['treatment of {}', '{}', 'recycling of {}']))
        locs = self.places(max(1, self.n('locs')), self.o['p_glo_tech'], x.mlocs if x.mlocs != ['GLO'] else None)
        byp = rng.sample(goods, min(len(goods), rng.randint(1, 2))) if (x.kind == 'recyclable' or self.p('p_treat_by')) else []
        for loc in locs:
            ds = dataset(rng, name, loc, 'transforming activity', [])
            ds['_mode'], ds['_idle'] = x.kind, []
            rp = self.exc(x.name, -self.rpamount(), 'reference product', x.unit,
                          **{'production volume': {'amount': self.pv()}, 'byproduct classification': x.kind})
            ds['exchanges'].append(rp)
            for c in byp:
                e = self.exc(c.name, num(rng, -2, 2), 'byproduct', c.unit)
                if self.p('p_byPV'):
                    e['production volume'] = {'amount': self.pv()}
                self.price(e)
                ds['exchanges'].append(e)
                if x.kind == 'waste' or c is not byp[0]:
                    self.idle(e, ds, c)
                if c not in ds['_idle']:
                    c.techs.append(ds)
            del ds['_idle']
            if x.kind == 'waste':
                x.techs.append(ds)
            self.features.add('treat ' + x.kind + (' by' if byp else ''))
            self.data.append(ds)

    def combined_without_products(self, wastes, recs, goods):
        rng = self.rng
        rps = (wastes[:1] + recs)[:3]
        if len(rps) < 2:
            return
        name = self.names.new('digestion of {}')
        ds = dataset(rng, name, 'GLO', 'transforming activity', [])
        ds['_mode'] = 'combined without products'
        ds['_vars'] = []
        for i, x in enumerate(rps):
            v = 'w_{}'.format('abc'[i])
            ds['_vars'].append(v)
            ds['exchanges'].append(self.exc(x.name, -num(rng, -1, 1, 0), 'reference product', x.unit, p_unc=0, variable=v,
                                            **{'production volume': {'amount': self.pv()}, 'byproduct classification': x.kind}))
        g = rng.choice(goods)
        e = self.exc(g.name, 1., 'byproduct', g.unit, p_unc=0)
        terms = {v: -round(num(rng, -1, 1, 0), 6) for v in ds['_vars']}
        terms = {k: min(v, -1e-6) for k, v in terms.items()}
        e['formula'] = ' + '.join('{} * ({})'.format(k, repr(v)) for k, v in terms.items())
        e['_terms'] = terms
        vals = {x['variable']: x['amount'] for x in ds['exchanges'] if x.get('variable')}
        e['amount'] = sum(vals[k] * v for k, v in terms.items())
        self.price(e)
        ds['exchanges'].append(e)
        g.techs.append(ds)
        self.features.add('combined without products')
        self.data.append(ds)

    def special(self, goods):
        """Names the code treats specially"""
        rng = self.rng
        x = rng.choice(goods)
        which = rng.choice(['confidential', 'pipeline', 'refinery gas', 'whitelisted'])
        self.features.add('special ' + which)
        if which == 'confidential':
            name = rng.choice(['feldspar production', 'latex production', 'zeolite production, powder'])
            for loc in self.places(rng.randint(1, 3), .6):
                ds = dataset(rng, name, loc, 'transforming activity',
                             [self.exc(x.name, 1., 'reference product', x.unit, **{'production volume': {'amount': rng.choice([0., 5.])}})])
                ds['_mode'] = 'single'
                x.techs.append(ds)
                self.data.append(ds)
        elif which == 'pipeline':
            ds = dataset(rng, 'transport, pipeline, long distance, natural gas', 'RER w/o DE+NL+NO', 'transforming activity',
                         [self.exc(x.name, 1., 'reference product', x.unit, **{'production volume': {'amount': self.pv()}})])
            ds['_mode'] = 'single'
            x.techs.append(ds)
            self.data.append(ds)
        elif which == 'refinery gas':
            for ds in self.data:
                if ds['_mode'] == 'single':
                    ds['exchanges'].append(self.exc('refinery gas', num(rng), 'from technosphere'))
                    break
        else:
            ds = dataset(rng, 'market for nitro-compound', 'GLO', 'market activity',
                         [self.exc('nitro-compound', 1., 'reference product', 'kg', **{'production volume': {'amount': self.pv()}})])
            ds['_mode'] = 'market'
            self.data.append(ds)

    def make_markets(self, x):
        rng = self.rng
        name = self.names.new('market for {}') if rng.random() < .3 else 'market for ' + x.name
        self.names.used.add(name.lower())
        sign = 1
        if x.kind == 'waste' or (x.kind == 'recyclable' and self.p('p_neg_recyc_market')):
            sign = -1
        for loc in x.mlocs:
            rp = self.exc(x.name, sign * self.rpamount(), 'reference product', x.unit,
                          **{'production volume': {'amount': self.pv()}, 'byproduct classification': x.kind})
            ds = dataset(rng, name, loc, 'market activity', [rp])
            ds['_mode'] = 'market'
            x.markets.append(ds)
            self.data.append(ds)
        if x.kind == 'allocatable product' and (self.p('p_group') or self.twins):
            gname = 'market group for ' + x.name
            locs = set()
            for _ in range(self.n('groups')):
                y = rng.random()
                locs.add('GLO' if y < .35 else self.t.related(rng, rng.choice([l for l in x.mlocs if l != 'GLO'] or ['RER'])) if y < .8
                         else rng.choice(self.t.big))
            if self.twins and rng.random() < .8:
                locs |= set(self.twins)
                self.features.add('groups of equal size')
            for loc in sorted({self.t.mask[l]: l for l in sorted(locs)}.values()):
                rp = self.exc(x.name, 1. if rng.random() < .7 else num(rng, -1, 1), 'reference product', x.unit,
                              **{'production volume': {'amount': self.pv()}})
                ds = dataset(rng, gname, loc, 'market group', [rp])
                ds['_mode'] = 'market group'
                x.groups.append(ds)
                self.data.append(ds)
            self.features.add('market groups')

    def fill(self, goods, wastes, recs):
        """Inputs, wastes, recyclables and emissions"""
        rng = self.rng
        usable = goods + recs
        for ds in self.data:
            if ds['_mode'] == 'market group':
                continue
            own = {e['name'] for e in ds['exchanges'] if e['type'] == 'reference product'}
            if ds['_mode'] == 'market':
                cands = [x for x in usable if x.name not in own]
                k = 1 if self.p('p_market_inputs') else 0
            else:
                cands = [x for x in usable if x.name not in own or rng.random() < .3]
                k = self.n('inputs')
            new = []
            for x in (rng.sample(cands, min(k, len(cands)))):
                amount = num(rng) * (-1 if self.p('p_neg_input') else 1)
                if self.p('p_zero_input'):
                    amount = 0.
                new.append(self.exc(x.name, amount, 'from technosphere', x.unit))
                if self.p('p_dup_input'):
                    new.append(self.exc(x.name, amount if rng.random() < .5 else num(rng), 'from technosphere', x.unit))
                    self.features.add('same product twice')
            if ds['_mode'] != 'market':
                for x in wastes:
                    if rng.random() < .4:
                        new.append(self.exc(x.name, num(rng), 'byproduct', x.unit, **{'byproduct classification': 'waste'}))
                        self.features.add('waste output')
                for x in recs:
                    if rng.random() < .3 and x.name not in own and x.name not in {e['name'] for e in new}:
                        new.append(self.exc(x.name, num(rng), 'byproduct', x.unit, **{'byproduct classification': 'recyclable'}))
                        self.features.add('recyclable output')
            elif self.p('p_self_loss'):
                rp = ds['exchanges'][0]
                new.append(self.exc(rp['name'], abs(rp['amount']) * rng.uniform(.01, .2), 'from technosphere', rp['unit'], **{'activity link': ds['id']}))
                self.features.add('self loss')
            for i in range(self.n('emissions')):
                e = emission(rng, i, self.o['p_unc'])
                new.append(e)
            if self.p('p_conseq'):
                x = rng.choice(goods)
                new.append(self.exc(x.name if x.name not in own else 'something unused', num(rng), 'from technosphere', x.unit,
                                    properties=[{'id': 'mass of ' + ds['id'], 'name': 'dry mass', 'amount': 1., 'unit': 'kg'}] * (len(new) % 2) + [prop(rng, 'consequential', 1)]))
                self.features.add('consequential property')
            if ds.get('_vars'):
                for e in new:
                    if e['type'] != 'reference product' and not e['properties'] and e['amount']:
                        self.formula(ds, e)
            rng.shuffle(new)
            ds['exchanges'].extend(new)
            if ds['_mode'] != 'market' and rng.random() < .5:
                rng.shuffle(ds['exchanges'])

    def links(self):
        """Hard (activity) links to one specific producer"""
        rng = self.rng
        by_name = {x.name: x for x in self.products}
        for ds in self.data:
            if ds['_mode'] == 'market group':
                continue
            if not any(e['type'] == 'reference product' and e['amount'] for e in ds['exchanges']):
                continue
            for e in ds['exchanges']:
                if e.get('activity link') or e['amount'] == 0 or not self.p('p_link'):
                    continue
                if e['name'] not in by_name or e['properties'] and e['type'] == 'from technosphere':
                    continue
                x = by_name[e['name']]
                if e['type'] == 'from technosphere' and x.kind == 'allocatable product':
                    targets = [t for t in x.techs + x.markets if t is not ds]
                elif e['type'] == 'byproduct' and e['byproduct classification'] == 'waste' and x.kind == 'waste':
                    targets = [t for t in x.techs + x.markets if t is not ds]
                else:
                    continue
                targets = [t for t in targets
                           if sum(1 for y in t['exchanges'] if y['name'] == e['name']
                                  and (y['type'] == 'reference product' or (y['type'] == 'byproduct' and y['byproduct classification'] == 'allocatable product'))) == 1
                           and any(y['name'] == e['name'] and y['amount'] for y in t['exchanges']
                                   if y['type'] in ('reference product', 'byproduct'))]
                if targets:
                    e['activity link'] = rng.choice(targets)['id']
                    self.features.add('hard link')
        if self.o['p_link']:
            self.odd_links(by_name)
        # Inherited link to the parent, which has to be redirected to the child itself
        for ds in self.data:
            if self.p('p_parent') and ds['_mode'] in ('market',):
                linked = {e.get('activity link') for e in ds['exchanges']}
                parents = [d for d in self.data if d['name'] == ds['name'] and d is not ds and d['id'] not in linked]
                if parents:
                    ds['parent'] = rng.choice(parents)['id']
                    rp = ds['exchanges'][0]
                    if not any(e.get('activity link') for e in ds['exchanges']):
                        ds['exchanges'].append(self.exc(rp['name'], abs(rp['amount']) * rng.uniform(.01, .2), 'from technosphere', rp['unit'],
                                                        **{'activity link': ds['parent']}))
                        self.features.add('parent link')

    def odd_links(self, by_name):
        """Links of things which aren't inputs: of products, which mean nothing, or of exchanges which are left out"""
        for ds in self.data:
            if ds['_mode'] == 'market group':
                continue
            for e in ds['exchanges']:
                x = by_name.get(e['name'])
                if e.get('activity link') or x is None or x.kind != 'allocatable product' or not e['amount']:
                    continue
                conseq = any(q['name'] == 'consequential' for q in e['properties'])
                makes = e['type'] == 'reference product' or e['type'] == 'byproduct' and e['byproduct classification'] == 'allocatable product'
                rng = random.Random(e['id'])
                if not (conseq and rng.random() < .5 or makes and rng.random() < .08):
                    continue
                targets = [t for t in x.techs + x.markets if t is not ds
                           and sum(1 for y in t['exchanges'] if y['name'] == e['name'] and y['amount'] and y['type'] in ('reference product', 'byproduct')) == 1]
                if conseq and rng.random() < .2:
                    e['activity link'] = uid(rng)
                elif targets:
                    e['activity link'] = rng.choice(targets)['id']
                else:
                    continue
                self.features.add('link of something left out' if conseq else 'link of a product')

    def clean(self):
        """The database without the generator's private notes"""
        return strip_notes(self.data)


def strip_notes(data):
    out = copy.deepcopy(data)
    for ds in out:
        for k in [k for k in ds if k.startswith('_')]:
            del ds[k]
        for e in ds['exchanges']:
            for k in [k for k in e if k.startswith('_')]:
                del e[k]
    return out


# Worlds that concentrate on one part of the model
PROFILES = {
    'mixed': {},
    'small': dict(products=(1, 2), techs=(1, 2), locs=(1, 3), markets=(1, 3), p_waste=.15, p_recyclable=.15, inputs=(0, 2), emissions=(0, 1)),
    'groups': dict(products=(1, 3), p_group=1., groups=(1, 6), p_twins=.12, p_cover=.15, markets=(1, 8), p_waste=.1, p_recyclable=.1, p_market_inputs=.6),
    'row': dict(products=(1, 2), p_glo_market=.95, p_glo_tech=.95, p_cover=.25, p_zero_pv=.3, p_waste=.2, p_recyclable=.1, locs=(1, 6), markets=(1, 6)),
    'places': dict(products=(1, 3), p_cover=.05, locs=(2, 9), markets=(2, 9), techs=(1, 2), p_waste=.1, p_recyclable=.1, emissions=(0, 0)),
    'links': dict(products=(2, 3), p_link=.6, p_waste=.4, p_self_loss=.3, p_parent=.3, p_dup_input=.3, locs=(1, 3), markets=(1, 3)),
    'zero': dict(products=(2, 3), p_zero_pv=.6, p_zero_input=.15, p_zero_by=.4, p_link=.3),
    'alloc': dict(products=(3, 5), p_economic=.9, p_truevalue=.7, locs=(1, 2), markets=(1, 2), p_unc=.6, p_byPV=.4),
    'recycling': dict(products=(2, 3), recs=4, p_waste=.9, p_recyclable=1., p_wo_products=.3, p_treat_by=.8, locs=(1, 3), markets=(1, 3), p_neg_recyc_market=.6),
    'combined': dict(products=(3, 5), p_economic=0., p_combined=1., p_wo_products=.4, p_waste=.6, p_recyclable=.6, locs=(1, 2), markets=(1, 2)),
}
