"""Executable specification of the cutoff system model, written independently of Ocelot.

Works on generator worlds (extracted format plus the generator's ``_terms`` notes) and gives, per output
activity, what it produces and which supplier delivers how much.  Used as the oracle of the end-to-end
monitors; the step functions are also oracles on their own.
"""
import copy
import math

from .topo import topo

RC = ', Recycled Content cut-off'


class Ambiguous(Exception):
    """The expected result hinges on floating point noise; such cases are not generated"""


# -- numbers and uncertainty

def scale_unc(u, old_amount, factor):
    """Distribution of ``factor * X``; ``None`` if it degenerates"""
    if u is None:
        return None
    if factor == 1:
        return u
    u = dict(u)
    new = old_amount * factor
    t = u['type']
    if t == 'lognormal':
        if not new:
            return None
        u['mean'] = abs(new)
        u['mu'] = math.log(abs(new))
        return u
    if t == 'normal':
        if not factor:
            return None
        for k in ('variance', 'variance with pedigree uncertainty'):
            if k in u:
                u[k] = u[k] * factor ** 2
        u['mean'] = new
        return u
    if t in ('triangular', 'uniform'):
        a, b = u['minimum'] * factor, u['maximum'] * factor
        u['minimum'], u['maximum'] = min(a, b), max(a, b)
        if t == 'triangular':
            u['mode'] = new
        if u['minimum'] == u['maximum'] == new:
            return None
        return u
    if t == 'undefined':
        u['minimum'], u['maximum'] = u['minimum'] * factor, u['maximum'] * factor
        return u
    raise ValueError(t)


def scale(e, factor):
    if factor != 1:
        u = scale_unc(e.get('uncertainty'), e['amount'], factor)
        if u is None:
            e.pop('uncertainty', None)
        else:
            e['uncertainty'] = u
        e['amount'] = e['amount'] * factor
    return e


def minus(a, b, parts=1):
    """max(a - b, 0) where the sign is certain"""
    d = a - b
    m = max(abs(a), abs(b))
    if m and abs(d) < 1e-7 * m and (d or parts > 1 or b):
        if not (d == 0 and parts <= 1 and float(a).is_integer() and float(b).is_integer()):
            raise Ambiguous()
    return max(d, 0.)


# -- products

def is_product(e):
    return e['type'] == 'reference product' or (e['type'] == 'byproduct' and e['byproduct classification'] == 'allocatable product')


def refs(ds):
    return [e for e in ds['exchanges'] if e['type'] == 'reference product']


def level(ds):
    """Activity level: yearly runs of the dataset as written (largest estimate)"""
    return max((abs(e['production volume']['amount'] / e['amount']) for e in refs(ds) if e['amount']))


def prop(e, name):
    for p in e.get('properties', ()):
        if p['name'] == name:
            return p['amount']


# -- allocation

def method(ds):
    rps = [e for e in refs(ds) if e['amount']]
    byp = [e for e in ds['exchanges'] if e['type'] == 'byproduct' and is_product(e) and e['amount']]
    if len(rps) == 1 and not byp:
        return 'single product'
    if ds['type'] == 'market group':
        return 'market group'
    if ds['type'] == 'market activity':
        return 'constrained market' if any(e.get('conditional exchange') for e in ds['exchanges']) else 'unconstrained market'
    if len(rps) > 1:
        if not any(e.get('byproduct classification') == 'allocatable product' for e in refs(ds)):
            return 'combined production without products'
        if byp:
            return 'combined production with byproducts'
        if ds['name'] == 'rare earth oxides production from bastnäsite concentrate':
            return 'economic'
        return 'combined production'
    if any(e['amount'] < 0 for e in refs(ds)):
        return 'waste treatment' if rps and rps[0].get('byproduct classification') == 'waste' else 'recycling'
    return 'economic'


def single(ds, product, factor):
    """Dataset for one product: everything that isn't a product times ``factor``, per unit of the product"""
    new = {k: v for k, v in ds.items() if k != 'exchanges'}
    new['parameters'] = copy.deepcopy(ds.get('parameters', []))
    rp = copy.deepcopy(product)
    rp.pop('uncertainty', None)
    rp['type'] = 'reference product'
    rp.pop('byproduct classification', None)
    f = factor / abs(product['amount'])
    rp['amount'] = math.copysign(1., product['amount'])
    new['exchanges'] = [rp] + [scale(copy.deepcopy(e), f) for e in ds['exchanges'] if not is_product(e)]
    return new


def economic_factors(products, true_value=True):
    rev = [prop(e, 'price') * e['amount'] for e in products]
    total = math.fsum(rev)
    out = [r / total for r in rev]
    if true_value:
        tv = [i for i, e in enumerate(products) if prop(e, 'true value relation') is not None]
        if tv:
            vals = {i: prop(products[i], 'true value relation') * products[i]['amount'] for i in tv}
            share = math.fsum(rev[i] for i in tv) / total
            s = math.fsum(vals.values())
            for i in tv:
                out[i] = vals[i] / s * share
    return out


def economic(ds):
    products = [e for e in ds['exchanges'] if is_product(e) and e['amount']]
    return [single(ds, e, f) for e, f in zip(products, economic_factors(products))]


def recycling(ds):
    ds = copy.deepcopy(ds)
    rp = refs(ds)[0]
    rp['type'] = 'from technosphere'
    scale(rp, -1)
    return economic(ds)


def waste_treatment(ds):
    rp = refs(ds)[0]
    out = [single(ds, rp, 1)]
    for e in ds['exchanges']:
        if is_product(e) and e is not rp and e['amount']:
            free = dict(ds, exchanges=[copy.deepcopy(e)])
            out.append(single(free, e, 1))
    return out


def split(ds):
    """Combined production: one dataset per nonzero reference product, formulas with the others at zero"""
    out = []
    for rp in refs(ds):
        if not rp['amount']:
            continue
        new = {k: v for k, v in ds.items() if k != 'exchanges'}
        new['parameters'] = copy.deepcopy(ds.get('parameters', []))
        me = copy.deepcopy(rp)
        me.pop('uncertainty', None)
        new['exchanges'] = [me]
        for e in ds['exchanges']:
            if e['type'] == 'reference product':
                continue
            e = copy.deepcopy(e)
            if '_terms' in e:
                e['amount'] = e['_terms'].get(rp.get('variable'), 0) * rp['amount']
                fix_unc(e)
            new['exchanges'].append(e)
        out.append(new)
    return out


def fix_unc(e):
    u = e.get('uncertainty')
    if not u:
        return
    if u['type'] == 'lognormal':
        if not e['amount']:
            del e['uncertainty']
        else:
            u['mean'] = abs(e['amount'])
            u['mu'] = math.log(u['mean'])
    elif u['type'] == 'normal':
        u['mean'] = e['amount']
    else:
        raise Ambiguous()


def merge(datasets):
    """Datasets of the same product: amounts are added up (and normalised later)"""
    groups = {}
    for ds in datasets:
        groups.setdefault((ds['name'], refs(ds)[0]['name']), []).append(ds)
    out = []
    for group in groups.values():
        first = group[0]
        for other in group[1:]:
            lookup = {e['id']: e['amount'] for e in other['exchanges']}
            for e in first['exchanges']:
                e['amount'] += lookup.get(e['id'], 0)
                e['_merged'] = True
        out.append(first)
    return out


def without_products(ds):
    out = []
    for new in split(ds):
        if refs(new)[0]['byproduct classification'] == 'waste':
            out += waste_treatment(new)
        else:
            new['name'] = '{}, from {}'.format(new['name'], refs(new)[0]['name'])
            out += recycling(new)
    return out


def allocate(ds):
    m = method(ds)
    if m in ('single product', 'market group', 'unconstrained market'):
        return [ds]
    if m == 'constrained market':
        ds = copy.deepcopy(ds)
        ds['exchanges'] = [e for e in ds['exchanges'] if not (e['type'] == 'byproduct' and e.get('conditional exchange'))]
        return [ds]
    return {
        'economic': economic,
        'recycling': recycling,
        'waste treatment': waste_treatment,
        'combined production': split,
        'combined production with byproducts': lambda d: merge([y for x in split(d) for y in economic(x)]),
        'combined production without products': without_products,
    }[m](ds)


# -- the whole model

CONFIDENTIAL = {"anthraquinone production", "burnt shale production", "carboxymethyl cellulose production, powder",
                "citric acid production", "esters of versatic acid production", "feldspar production", "latex production",
                "layered sodium silicate production, SKS-6, powder", "particle board production, cement bonded",
                "polycarboxylates production, 40% active substance", "sodium perborate production, monohydrate, powder",
                "sodium perborate production, tetrahydrate, powder", "sodium percarbonate production, powder",
                "wood wool boards production, cement bonded", "zeolite production, powder",
                "zeolite production, slurry, without water, in 50% solution state"}

DELETED_MARKETS = {"market for heat, diffusion absorption heat pump",
                   "market for heat, solar+electric, multiple-dwelling, for hot water",
                   "market for heat, solar+gas, multiple-dwelling, for hot water",
                   "market for heat, solar+gas, one-family house, for combined system",
                   "market for heat, solar+gas, one-family house, for hot water",
                   "market for heat, solar+wood, one-family house, for combined system",
                   "market for nitro-compound", "market for petrol, 85% ethanol by volume from biomass",
                   "market for refinery gas", "market for spent oxychlor catalyst for ethylene dichloride production",
                   "market for waste emulsion paint, on wall"}


class Missing(Exception):
    pass


def product(ds):
    return refs(ds)[0]


def pvol(ds):
    return product(ds)['production volume']['amount']


def original(ds):
    pv = product(ds)['production volume']
    return pv.get('original', pv['amount'])


class Cutoff:
    pipeline = True     # correct one location
    drop_dead = True    # delete rest-of-world datasets which stand for nothing
    groups = True

    def __init__(self, data):
        self.t = topo()
        self.data = copy.deepcopy(data)
        self.notes = {'links_ordinary': 0}
        self.prepare()
        self.allocate()
        self.link()
        self.finish()

    def prepare(self):
        data = self.data
        for ds in data:
            if ds['name'] == 'petroleum refinery operation':
                ds['exchanges'] = [e for e in ds['exchanges'] if e['name'] != 'refinery gas' or e['amount']]
            for e in ds['exchanges']:
                u = e.get('uncertainty')
                if u and u['type'] == 'lognormal':
                    u['variance'] = u['variance with pedigree uncertainty']
        # Production volumes of co-products
        for ds in data:
            byp = [e for e in ds['exchanges'] if e['type'] == 'byproduct' and is_product(e)]
            if byp:
                l = level(ds)
                for e in byp:
                    if not e['production volume']['amount']:
                        e['production volume']['amount'] = abs(e['amount']) * l
        for ds in data:
            ds['exchanges'] = [e for e in ds['exchanges'] if prop(e, 'consequential') != 1]
            for e in ds['exchanges']:
                if e['type'] == 'reference product' or not e['amount']:
                    e.pop('activity link', None)
                if e.get('activity link') == '25edb027-d7c0-4756-a051-cab82e4f6248':
                    del e['activity link']
                if ds['parent'] and e.get('activity link') == ds['parent'] and not is_product(e):
                    e['activity link'] = ds['id']
        # Hard links reserve a part of the production of their target
        by_id = {ds['id']: ds for ds in data}
        for ds in data:
            for e in ds['exchanges']:
                link = e.get('activity link')
                if not link or link == ds['id']:
                    continue
                target, = [x for x in by_id[link]['exchanges'] if is_product(x) and x['name'] == e['name']]
                target.setdefault('_reserved', []).append(e['amount'] * level(ds))
        for ds in data:
            for e in ds['exchanges']:
                if '_reserved' in e:
                    pv = e['production volume']
                    pv['reserved'] = math.fsum(e['_reserved'])
                    if ds['type'] == 'transforming activity':
                        pv['original'] = pv['amount']
                        pv['amount'] = minus(pv['amount'], pv['reserved'], len(e['_reserved']))
                        pv['reserved_done'] = True
        # Recyclable outputs leave the system through an empty activity
        rc = {}
        for ds in data:
            for e in ds['exchanges']:
                if e['type'] == 'byproduct' and e['byproduct classification'] == 'recyclable':
                    e['name'] += RC
                    rc[e['name']] = {
                        'name': e['name'], 'location': 'GLO', 'type': 'transforming activity', 'id': None, 'parameters': [], 'rc': True,
                        'exchanges': [{'name': e['name'], 'amount': 1., 'type': 'reference product', 'unit': e['unit'], 'id': None,
                                       'production volume': {'amount': 4.}}]}
        self.data = data + list(rc.values())

    def allocate(self):
        out = []
        for ds in self.data:
            m = method(ds)
            for new in allocate(ds):
                new['_method'] = m
                new['exchanges'] = [e for e in new['exchanges'] if not (e['type'] == 'byproduct' and not e['amount'] and is_product(e))]
                out.append(new)
        for ds in out:
            for e in ds['exchanges']:
                if e['type'] == 'byproduct' and e['byproduct classification'] != 'allocatable product':
                    e['type'] = 'from technosphere'
                    scale(e, -1)
                    if '_terms' in e:
                        del e['_terms']
        self.data = copy.deepcopy(out)

    def link(self):
        t = self.t
        data = [ds for ds in self.data
                if not (ds['type'] == 'market activity' and ds['location'] == 'GLO' and ds['name'] in DELETED_MARKETS)]
        for ds in data:
            ds['rp'] = product(ds)['name']
            if ds['type'] == 'transforming activity' and ds['name'] in CONFIDENTIAL:
                product(ds)['production volume']['amount'] = 1.
            if (self.pipeline and ds['type'] == 'transforming activity' and ds['name'] == 'transport, pipeline, long distance, natural gas'
                    and ds['location'] == 'RER w/o DE+NL+NO'):
                ds['location'] = 'RER w/o DE+NL+NO+RU'
        # Global datasets become the rest of the world
        groups = {}
        for ds in data:
            groups.setdefault((ds['name'], ds['rp']), []).append(ds)
        for group in groups.values():
            if group[0]['type'] == 'market group' or len(group) < 2:
                continue
            for glo in [d for d in group if d['location'] == 'GLO']:
                regional = [original(d) for d in group if d is not glo]
                pv = product(glo)['production volume']
                pv['amount'] = minus(pv['amount'], math.fsum(regional), 2)
                glo['location'] = 'RoW'
        for ds in data:
            ds['key'] = (ds['name'], ds['location'], ds['rp'])
        keys = [ds['key'] for ds in data]
        if len(set(keys)) != len(keys):
            raise Ambiguous('generated world has identical datasets')
        by_id = {}
        for ds in data:
            by_id.setdefault(ds['id'], []).append(ds)
        for ds in data:
            for e in ds['exchanges']:
                if e.get('activity link') and e['type'] != 'reference product':
                    found = [d for d in by_id[e['activity link']] if d['rp'] == e['name']]
                    if len(found) == 1:
                        e['to'] = found[0]['key']
                    else:
                        self.notes['links_ordinary'] += 1
        transforming = [d for d in data if d['type'] == 'transforming activity']
        markets = [d for d in data if d['type'] == 'market activity']
        groups = [d for d in data if d['type'] == 'market group']

        def area(ds, peers):
            return t.row([p['location'] for p in peers]) if ds['location'] == 'RoW' else t.m(ds['location'])

        # Who supplies which market
        for m in markets:
            marea = area(m, [x for x in markets if x['rp'] == m['rp']])
            rc = [d for d in transforming if d['rp'] == m['rp'] + RC and t.inside(t.m(d['location']), marea)]
            if rc:
                m['sup'] = rc
                continue
            m['sup'] = [d for d in transforming if d['rp'] == m['rp'] and t.inside(
                area(d, [x for x in transforming if x['rp'] == m['rp'] and x['name'] == d['name']]), marea)]
        # A market that got recycled content suppliers is no peer of the others in the same sense
        for m in markets:
            self.select(m)
            pv = product(m)['production volume']
            pv['amount'] = minus(math.fsum(pvol(s) for s in m['sup']), pv.get('reserved', 0), 2 if pv.get('reserved') else 1) \
                if pv.get('reserved') else math.fsum(pvol(s) for s in m['sup'])
            pv['amount'] = max(pv['amount'], 0.)
        # Rest-of-world datasets which stand for nothing
        hard = {e['to'] for d in data for e in d['exchanges'] if 'to' in e}
        dead = set()
        for kind in (markets, transforming) if self.drop_dead else ():
            in_use = set(hard)
            if kind is transforming:
                # links of deleted markets don't count any more
                in_use = {e['to'] for d in data if d['key'] not in dead for e in d['exchanges'] if 'to' in e}
            for m in markets:
                if m['key'] in dead:
                    continue
                for s in m['sup']:
                    if len(m['sup']) == 1 or pvol(s):
                        in_use.add(s['key'])
            for d in kind:
                if (d['location'] == 'RoW' and sum(1 for x in kind if x['rp'] == d['rp']) > 1 and not original(d)
                        and d['key'] not in in_use):
                    dead.add(d['key'])
        self.dead = dead
        data = [d for d in data if d['key'] not in dead]
        markets = [d for d in markets if d['key'] not in dead]
        transforming = [d for d in transforming if d['key'] not in dead]
        # Market mixes
        for m in markets:
            self.mix(m, [(s['key'], pvol(s), product(s)) for s in m['sup']])
        # Market groups
        for g in groups:
            g['sup'] = self.members(g, [x for x in markets if x['rp'] == g['rp']], [x for x in groups if x['rp'] == g['rp']])
        for g in sorted(groups, key=lambda d: (t.size(t.m(d['location'])), d['location'])):
            product(g)['production volume']['amount'] = math.fsum(pvol(s) for s in g['sup'])
        for g in groups:
            self.mix(g, [(s['key'], pvol(s), product(s)) for s in g['sup']])
        # Consumers
        rc = {d['rp']: d for d in transforming if RC in d['rp']}
        by_type = {'transforming activity': transforming, 'market activity': markets}
        self.deleted = []
        for ds in data:
            if ds['type'] == 'market group':
                continue
            out = []
            own = area(ds, [x for x in by_type[ds['type']] if x['name'] == ds['name']])
            for e in ds['exchanges']:
                if e['type'] != 'from technosphere' or 'to' in e:
                    out.append(e)
                    continue
                if e['name'] in rc:
                    e['to'] = rc[e['name']]['key']
                    out.append(e)
                    continue
                candidates = [x for x in markets + groups if x['rp'] == e['name']]
                if not candidates:
                    if e['name'] == 'refinery gas':
                        self.deleted.append((ds['key'], e))
                        continue
                    raise Missing(e['name'])
                chosen = self.choose(own, candidates)
                if not chosen:
                    chosen = self.fallback(own, candidates)
                total = math.fsum(pvol(s) for s in chosen)
                if len(chosen) == 1:
                    e['to'] = chosen[0]['key']
                    out.append(e)
                elif not total:
                    self.deleted.append((ds['key'], e))
                else:
                    for s in chosen:
                        if pvol(s):
                            n = scale(copy.deepcopy(e), pvol(s) / total)
                            n['to'] = s['key']
                            out.append(n)
            ds['exchanges'] = out
        self.data = data

    def select(self, m):
        pass

    def mix(self, m, suppliers):
        rp = product(m)
        total = math.fsum(pv for _, pv, _ in suppliers)
        for key, pv, sp in suppliers:
            share = pv / total if total else (1. if len(suppliers) == 1 else 0.)
            if share:
                m['exchanges'].append({'type': 'from technosphere', 'name': sp['name'], 'unit': sp['unit'], 'id': None,
                                       'amount': share * rp['amount'], 'to': key, '_mix': True})

    def areas(self, candidates):
        row = self.t.row([c['location'] for c in candidates if c['type'] == 'market activity'])
        return {c['key']: row if c['location'] == 'RoW' else self.t.m(c['location']) for c in candidates}

    def largest_first(self, candidates):
        """One candidate per place (a market comes before a market group), largest first"""
        areas = self.areas(candidates)
        places = {}
        for c in candidates:
            if c['location'] not in places or c['type'] == 'market activity':
                places[c['location']] = c
        return sorted(places.values(), key=lambda c: (self.t.size(areas[c['key']]), c['location']), reverse=True), areas

    def choose(self, own, candidates, skip=None):
        order, areas = self.largest_first(candidates)
        left, out = own, []
        for c in order:
            if c is skip:
                continue
            if self.t.inside(areas[c['key']], left):
                out.append(c)
                if c['location'] != 'RoW':
                    left &= ~areas[c['key']]
        return out

    def members(self, g, markets, groups):
        """The suppliers of a market group: the largest markets and groups inside it"""
        return self.choose(self.t.m(g['location']), markets + groups, skip=g)

    def fallback(self, own, candidates):
        order, areas = self.largest_first(candidates)
        for c in reversed(order):
            if self.t.inside(own, areas[c['key']]):
                return [c]
        return []

    def finish(self):
        for ds in self.data:
            ds['rp_clean'] = ds['rp'][:-len(RC)] if ds['rp'].endswith(RC) else ds['rp']
            for e in ds['exchanges']:
                if e['name'].endswith(RC):
                    e['name'] = e['name'][:-len(RC)]
            rp = product(ds)
            f = 1 / abs(rp['amount'])
            for e in ds['exchanges']:
                scale(e, f)
            if ds['type'] == 'market activity' and rp.get('byproduct classification') != 'waste':
                if all(e['amount'] <= 0 for e in ds['exchanges']):
                    for e in ds['exchanges']:
                        scale(e, -1)
                elif rp['amount'] < 0:
                    for e in ds['exchanges']:
                        if e['name'] == rp['name']:
                            scale(e, -1)
        self.by_key = {ds['key'][:2] + (ds['rp_clean'],): ds for ds in self.data}


LEVELS = ('new', 'modern', 'current', 'old', 'outdated')


def flip(e):
    scale(e, -1)
    return e


class Consequential(Cutoff):
    pipeline = drop_dead = False

    def prepare(self):
        data = self.data
        for ds in data:
            if ds['name'] == 'petroleum refinery operation':
                ds['exchanges'] = [e for e in ds['exchanges'] if e['name'] != 'refinery gas' or e['amount']]
            for e in ds['exchanges']:
                u = e.get('uncertainty')
                if u and u['type'] == 'lognormal':
                    u['variance'] = u['variance with pedigree uncertainty']
        for ds in data:
            byp = [e for e in ds['exchanges'] if e['type'] == 'byproduct' and is_product(e)]
            if byp:
                l = level(ds)
                for e in byp:
                    if not e['production volume']['amount']:
                        e['production volume']['amount'] = abs(e['amount']) * l
        # All hard links go, but those of constrained markets
        for ds in data:
            for e in ds['exchanges']:
                if not e.get('conditional exchange'):
                    e.pop('activity link', None)

    def allocate(self):
        out = []
        for ds in self.data:
            out += split(ds) if len(refs(ds)) > 1 else [ds]
        self.data = copy.deepcopy(out)
        for ds in self.data:
            for e in ds['exchanges']:
                e.pop('_terms', None)
        constrain(self.data)

    def select(self, m):
        for level in LEVELS:
            best = [s for s in m['sup'] if s['technology level'] == level]
            if best:
                m['sup'] = best
                return
        if m['sup']:
            raise Ambiguous('no technology level')

    def members(self, g, markets, groups):
        """All markets inside, but no other groups"""
        areas = self.areas(markets)
        return [m for m in markets if self.t.inside(areas[m['key']], self.t.m(g['location']))]

    def finish(self):
        for ds in self.data:
            f = 1 / abs(product(ds)['amount'])
            for e in ds['exchanges']:
                scale(e, f)
        self.by_key = {ds['key']: ds for ds in self.data}


def constrain(data):
    """Constrained markets take from the activities which they are linked to, whose product changes"""
    by_id = {ds['id']: ds for ds in data}
    for ds in data:
        for e in ds['exchanges']:
            if e.get('conditional exchange'):
                target = by_id[e['activity link']]
                old = product(target)
                new, = [x for x in target['exchanges'] if x['name'] == e['name']]
                e['type'] = old['type'] = 'from technosphere'
                new['type'] = 'reference product'
                new['byproduct classification'] = 'allocatable product'
                for x in (e, old, new):
                    flip(x)
