"""Preparation and clean-up steps change exactly what they document, and nothing else"""
import copy
import logging
import math
import random
from .. import gen, ref
from ..gen import num, uid
ID = 'C35'
RULE = ('distinct = (step, which of its documented cases occurred in the data, how many datasets) of single steps applied to data which mixes cases and near misses; every field of every dataset, '
        'exchange, property and parameter is compared with an independent statement of the step, and so is every row which the step reports')
RC = ref.RC
WHITELIST = ('market for heat, diffusion absorption heat pump', 'market for heat, solar+electric, multiple-dwelling, for hot water', 'market for heat, solar+gas, multiple-dwelling, for hot water',
             'market for heat, solar+gas, one-family house, for combined system', 'market for heat, solar+gas, one-family house, for hot water',
             'market for heat, solar+wood, one-family house, for combined system', 'market for nitro-compound', 'market for petrol, 85% ethanol by volume from biomass', 'market for refinery gas',
             'market for spent oxychlor catalyst for ethylene dichloride production', 'market for waste emulsion paint, on wall')
CONFIDENTIAL = ('anthraquinone production', 'burnt shale production', 'carboxymethyl cellulose production, powder', 'citric acid production', 'esters of versatic acid production',
                'feldspar production', 'latex production', 'layered sodium silicate production, SKS-6, powder', 'particle board production, cement bonded',
                'polycarboxylates production, 40% active substance', 'sodium perborate production, monohydrate, powder', 'sodium perborate production, tetrahydrate, powder',
                'sodium percarbonate production, powder', 'wood wool boards production, cement bonded', 'zeolite production, powder',
                'zeolite production, slurry, without water, in 50% solution state')
PIPELINE = 'transport, pipeline, long distance, natural gas'
REFINERY = 'petroleum refinery operation'
KNOWN = {'thermoforming of plastic sheets': ('1/014000000/50*0.946', '1.3514285714285711e-09'),
         'benzene chlorination': ("UnitConversion(152000000, 'pound avoirdupois', 'kg')", '68949040.24'),
         'glued laminated timber production, for indoor use': ('AVERAGE(3.08E04;4.00E04;3.39E04)*(AVERAGE(367561;433458;449963)/AVERAGE(1408383;1631979;1717500))', '9176.23'),
         'cement production, alternative constituents 6-20%': ('ABS(blast_furnace_slag/ cement* APV_cement)', '(abs(blast_furnace_slag / cement * apv_cement) if cement else 0)')}
BROKEN_LINK = '25edb027-d7c0-4756-a051-cab82e4f6248'
MANDATORY = {'dry mass', 'water in wet mass', 'water content', 'wet mass', 'carbon content fossil', 'carbon content non-fossil'}


# -- data: all cases of all steps, and what nearly is one of them

def near(rng, text):
    """The same, or something which isn't"""
    if rng.random() < .6:
        return text
    return rng.choice([text + 's', text.upper(), ' ' + text, text[:-1], text.replace(',', '', 1) if ',' in text else text + ',', 'x' + text])


def signed(rng):
    return rng.choice([1, 1, -1]) * num(rng)


def amount(rng):
    return rng.choice([0., -0., 0, 1e-300, -1e-12, 1e-9]) if rng.random() < .3 else signed(rng)


def properties(rng):
    out = []
    if rng.random() < .35:
        out.append(gen.prop(rng, 'consequential' if rng.random() < .8 else near(rng, 'consequential'), rng.choice([1., 1., 1, 0., 0, .5, -1., 2., 1 + 1e-9])))
    if rng.random() < .3:
        for n in rng.sample(sorted(MANDATORY) + ['carbon content, fossil', 'Dry mass', 'price'], rng.randint(1, 9)):
            out.append(gen.prop(rng, n, amount(rng)))
    if rng.random() < .1:
        out += [gen.prop(rng, n, amount(rng)) for n in MANDATORY]
    rng.shuffle(out)
    for p in out:
        parameterise(rng, p)
    return out


FORMULAS = ['x * 2', 'a + b', '1']


def parameterise(rng, o):
    if rng.random() < .2:
        o['variable'] = 'v{}'.format(rng.randrange(10 ** 9))
    if rng.random() < .2:
        o['formula'] = rng.choice(FORMULAS + [k for k, _ in KNOWN.values()])
        if rng.random() < .5:
            o['formula'] = rng.choice(['2 * ({})', '{0} + {0}', '-{}']).format(o['formula'])
    return o


def make(rng):
    names = gen.Names(rng)
    flows = [names.new() for _ in range(rng.randint(1, 4))] + ['refinery gas']
    ids = [uid(rng) for _ in range(gen.size(rng, 1, 5, 12))]
    data = []
    negative = rng.random() < .2
    for i in ids:
        excs = []
        kinds = ['reference product'] * rng.choice([1, 1, 1, 1, 0, 2])
        kinds += [rng.choice(['byproduct', 'byproduct', 'from technosphere', 'from technosphere', 'from technosphere', 'to environment', 'from environment', 'dropped product'])
                  for _ in range(gen.size(rng, 0, 6, 30))]
        parent = rng.choice([None, uid(rng), rng.choice(ids), uid(rng)])
        allneg = negative and rng.random() < .7
        for k in kinds:
            e = gen.exchange(rng, rng.choice(flows), amount(rng) if rng.random() < .9 else 1., k)
            if allneg:
                e['amount'] = -abs(e['amount'])
                if e.get('uncertainty'):
                    e['uncertainty'] = gen.uncertainty(rng, e['amount'])
            if abs(e['amount']) < 1e-20:
                e.pop('uncertainty', None)
            if k in ('reference product', 'byproduct'):
                e['byproduct classification'] = rng.choice(['allocatable product', 'allocatable product', 'waste', 'recyclable'])
                e['production volume'] = {'amount': rng.choice([0., num(rng), num(rng)])}
                parameterise(rng, e['production volume'])
                if e['production volume']['amount'] and rng.random() < .3:
                    e['production volume']['uncertainty'] = gen.uncertainty(rng, e['production volume']['amount'])
            if k == 'byproduct' and rng.random() < .3:
                e['conditional exchange'] = True
            if rng.random() < .4:
                e['activity link'] = rng.choice(ids + [i, parent or uid(rng), parent or uid(rng), BROKEN_LINK, uid(rng), BROKEN_LINK[:-1] + '9'])
            elif rng.random() < .1:
                e['activity link'] = rng.choice([None, ''])
            if 'environment' not in k and rng.random() < .1:
                e['name'] += rng.choice([RC, RC, ', recycled content cut-off', RC + ' 2', ', Recycled Content'])
            e['properties'] = properties(rng)
            if rng.random() < .1:
                del e['properties']
            parameterise(rng, e)
            excs.append(e)
        rng.shuffle(excs)
        kind = rng.choice(['transforming activity', 'transforming activity', 'market activity', 'market group'])
        name = names.new()
        if rng.random() < .6:
            pool = {'market activity': WHITELIST}.get(kind, CONFIDENTIAL)
            name = near(rng, rng.choice([rng.choice(pool), rng.choice(pool), PIPELINE, REFINERY, rng.choice(sorted(KNOWN)), rng.choice(WHITELIST + CONFIDENTIAL)]))
        ds = gen.dataset(rng, name, rng.choice(['GLO', 'GLO', 'RoW', 'RoW', 'RER', 'FR', 'RER w/o DE+NL+NO', 'RER w/o DE+NL+NO', 'RER w/o DE+NL+NO+RU']), kind, excs, id=i, parent=parent)
        ds['parameters'] = [parameterise(rng, {'id': uid(rng), 'name': names.new(), 'unit': 'kg', 'amount': num(rng)}) for _ in range(rng.choice([0, 0, 1, 3]))]
        ds['technology level'] = rng.choice(['undefined', 'undefined', 'current', 'new', 'modern', 'old', 'outdated'])
        if rng.random() < .5:
            ds['allocation method'] = rng.choice(['economic', 'recycling', ''])
        if rng.random() < .5:
            ds['suppliers'] = [{'name': flows[0], 'code': uid(rng), 'amount': num(rng)}][:rng.randint(0, 1)]
        data.append(ds)
    return data


def only(predicate, minimum=0):
    def prepare(data, rng):
        return [ds for ds in data if predicate(ds)]
    return prepare


def one_product(data, rng):
    """Datasets with a single reference product, whose name is known"""
    data = [ds for ds in data if len(ref.refs(ds)) == 1]
    for ds in data:
        ds['reference product'] = ref.refs(ds)[0]['name']
    return data


STEPS = {}


def step(path, prepare=lambda data, rng: data, table=True, each=False):
    """each: the function takes and returns single datasets; table: what it reports"""
    def wrap(f):
        STEPS[f.__name__] = dict(path=path, expect=f, prepare=prepare, table=table, each=each)
        return f
    return wrap


def excs(data):
    for ds in data:
        for e in list(ds['exchanges']):
            yield ds, e


@step('utils.copy_original_exchange_id')
def original_ids(data, rows, case):
    for ds, e in excs(data):
        e['original id'] = e['id']
        case('copied')
    return data


@step('cutoff.cleanup.drop_zero_amount_activity_links')
def zero_links(data, rows, case):
    for ds, e in excs(data):
        if e.get('activity link') and e['amount'] == 0:
            del e['activity link']
            rows.append([ds['name'], e['name']])
            case('dropped')
        elif e.get('activity link'):
            case('kept')
    return data


@step('cutoff.cleanup.drop_rp_activity_links')
def product_links(data, rows, case):
    for ds, e in excs(data):
        if e.get('activity link') and e['type'] in ('reference product', 'dropped product'):
            del e['activity link']
            rows.append([ds['name'], e['name']])
            case(e['type'])
        elif e.get('activity link'):
            case('kept')
    return data


@step('cutoff.cleanup_activity_links')
def both_links(data, rows, case):
    product_links(data, rows, case)
    return zero_links(data, rows, case)


@step('cutoff.cleanup.remove_consequential_exchanges')
def consequential(data, rows, case):
    for ds, e in excs(data):
        if any(p['name'] == 'consequential' and p['amount'] == 1 for p in e.get('properties', ())):
            ds['exchanges'] = [x for x in ds['exchanges'] if x is not e]
            rows.append([ds['name'], e['name'], e['amount']])
            case('removed ' + e['type'])
        elif e.get('properties'):
            case('kept')
    return data


@step('activity_links.fix_35_activity_links', table=False)
def links_35(data, rows, case):
    for ds, e in excs(data):
        if e.get('activity link') == BROKEN_LINK:
            del e['activity link']
            case('removed')
        elif e.get('activity link'):
            case('kept')
    return data


@step('activity_links.update_activity_link_parent_child')
def parents(data, rows, case):
    for ds, e in excs(data):
        if ds['parent'] and e.get('activity link') == ds['parent'] and not ref.is_product(e):
            e['activity link'] = ds['id']
            rows.append([ds['name'], ds['location'], e['amount']])
            case('redirected ' + e['type'])
        elif e.get('activity link') and e['activity link'] == ds['parent']:
            case('product')
        elif e.get('activity link'):
            case('other link')
    return data


def flipped(e):
    ref.scale(e, -1)
    if 'formula' in e:
        e['formula'] = '-1 * ({})'.format(e['formula'])


@step('cutoff.flip_non_allocatable_byproducts')
def byproducts(data, rows, case):
    for ds, e in excs(data):
        if e['type'] == 'byproduct' and e['byproduct classification'] != 'allocatable product':
            rows.append([ds['name'], e['name'], e['byproduct classification']])
            case(e.pop('byproduct classification'))
            e['type'] = 'from technosphere'
            flipped(e)
        elif e['type'] == 'byproduct':
            case('kept')
    return data


def recyclables(data):
    return [(ds, e) for ds, e in excs(data) if e['type'] == 'byproduct' and e['byproduct classification'] == 'recyclable']


@step('cutoff.wastes.rename_recyclable_content_exchanges', table=False)
def rename_before(data, rows, case):
    for ds, e in recyclables(data):
        e['name'] += RC
        case('renamed')
    return data


COMMON = ('access restricted', 'economic scenario', 'end date', 'filepath', 'id', 'start date', 'technology level', 'dataset author', 'data entry')


def new_datasets(data, rows, case):
    """Any of the producers may be the one whose description is used"""
    found = {}
    for ds, e in recyclables(data):
        found.setdefault(e['name'], []).append((ds, e))
    for name, makers in found.items():
        rows.append([name])
        case('one producer' if len(makers) == 1 else 'several producers')
        data.append(Any([dict({k: ds[k] for k in COMMON}, **{
            'exchanges': [{'amount': 1, 'id': e['id'], 'name': name, 'tag': 'intermediateExchange', 'type': 'reference product', 'production volume': {'amount': 4}, 'unit': e['unit']}],
            'parameters': [], 'name': name, 'location': 'GLO', 'type': 'transforming activity', 'reference product': name}) for ds, e in makers]))
    return data


class Any(list):
    """One of several possibilities"""


@step('cutoff.wastes.create_recycled_content_datasets')
def recycled_content(data, rows, case):
    return new_datasets(data, rows, case)


@step('cutoff.handle_waste_outputs')
def waste_outputs(data, rows, case):
    return new_datasets(rename_before(data, rows, case), rows, case)


def one_suffix(data, rng):
    for ds in data:
        if rng.random() < .3:
            ds['reference product'] = rng.choice(ds['exchanges'])['name'] if ds['exchanges'] else 'x' + RC
    return data


@step('cutoff.rename_recycled_content_products_after_linking', one_suffix)
def rename_after(data, rows, case):
    for ds in data:
        for e in ds['exchanges']:
            if e['name'].endswith(RC):
                e['name'] = e['name'][:-len(RC)]
                rows.append([ds['name'], e['name'], e['type'], ds['location']])
                case('renamed ' + e['type'])
            elif 'ecycled' in e['name']:
                case('near miss')
        if ds.get('reference product', '').endswith(RC):
            ds['reference product'] = ds['reference product'][:-len(RC)]
            rows.append([ds['name'], ds['reference product'], 'RP label', ds['location']])
            case('label')
    return data


@step('cutoff.adjust_market_signs_for_allocatable_products', one_product)
def signs(data, rows, case):
    for ds in data:
        rp, = ref.refs(ds)
        if ds['type'] != 'market activity' or rp['byproduct classification'] == 'waste':
            case('other')
        elif all(e['amount'] <= 0 for e in ds['exchanges']):
            rows.append([ds['name'], ds['location']])
            case('all flipped')
            for e in ds['exchanges']:
                ref.scale(e, -1)
        elif rp['amount'] < 0:
            rows.append([ds['name'], ds['location']])
            case('product flipped')
            for e in ds['exchanges']:
                if e['name'] == rp['name']:
                    ref.scale(e, -1)
        else:
            case('kept')
    return data


@step('utils.label_reference_product', lambda data, rng: [ds for ds in data if len(ref.refs(ds)) == 1], table=False)
def label(data, rows, case):
    for ds in data:
        ds['reference product'] = ref.refs(ds)[0]['name']
        case('labelled')
    return data


@step('utils.normalize_reference_production_amount',
      lambda data, rng: [ds for ds in data if len(ref.refs(ds)) == 1 and ref.refs(ds)[0]['amount'] and 1e-20 < abs(ref.refs(ds)[0]['amount']) < 1e20], each='list')
def normalised(data, rows, case):
    for ds in data:
        rp, = ref.refs(ds)
        if abs(rp['amount']) == 1:
            case('kept')
            continue
        case('negative' if rp['amount'] < 0 else 'positive')
        factor = 1 / abs(rp['amount'])
        rows.append([ds['name'], rp['name'], factor])
        for e in ds['exchanges']:
            ref.scale(e, factor)
    return data


@step('locations.drop_zero_pv_row_datasets')
def zero_row(data, rows, case):
    out = []
    for ds in data:
        r = ref.refs(ds)
        pv = r[0]['production volume']['amount'] if len(r) == 1 else None
        if ds['type'] == 'market activity' and ds['location'] == 'RoW' and pv == 0:
            rows.append([ds['name'], r[0]['name']])
            case('dropped')
            continue
        case('kept' if pv else 'kept without volume')
        out.append(ds)
    return out


@step('cleanup.deparameterize', table=False, each='dataset')
def plain(data, rows, case):
    for ds in data:
        ds['parameters'] = []
        for e in ds['exchanges']:
            case('formulas' if 'formula' in e or 'variable' in e else 'plain')
            for o in (e, e.get('production volume', {})):
                o.pop('formula', None)
                o.pop('variable', None)
            e.pop('properties', None)
    return data


@step('consequential.technology_levels.switch_undefined_to_current', one_product)
def undefined(data, rows, case):
    for ds in data:
        if ds['type'] == 'transforming activity' and ds['technology level'] == 'undefined':
            ds['technology level'] = 'current'
            rows.append([ds['name'], ds['reference product'], ds['location']])
            case('switched')
        else:
            case('kept')
    return data


@step('consequential.technology_levels.log_conflicting_technology_levels', one_product)
def conflicts(data, rows, case):
    groups = {}
    for ds in data:
        if ds['type'] == 'transforming activity':
            groups.setdefault(ds['reference product'], []).append(ds['technology level'])
    for p, levels in groups.items():
        if 'undefined' in levels and 'current' in levels:
            rows.append([p, len(levels)])
            case('conflict')
        else:
            case('none')
    return data


@step('consequential.technology_levels.cleanup_technology_levels', one_product)
def levels(data, rows, case):
    conflicts(data, rows, case)
    return undefined(data, rows, case)


@step('parameterization.known_ecoinvent_issues.fix_known_bad_formula_strings')
def bad_formulas(data, rows, case):
    for ds in data:
        if ds['name'] not in KNOWN:
            continue
        bad, good = KNOWN[ds['name']]
        things = []
        for e in ds['exchanges']:
            things += [e, e.get('production volume', {})] + e.get('properties', [])
        for o in things + ds['parameters']:
            if bad in o.get('formula', ''):
                o['formula'] = o['formula'].replace(bad, good)
                rows.append('{} ({}): Changed {} to {}'.format(ds['name'], ds['location'], bad, good))
                case('fixed')
            elif 'formula' in o:
                case('other formula')
    return data


@step('parameterization.known_ecoinvent_issues.fix_specific_ecoinvent_issues')
def refinery(data, rows, case):
    for ds in data:
        if ds['name'] == REFINERY:
            left = [e for e in ds['exchanges'] if e['name'] != 'refinery gas' or e['amount']]
            if len(left) != len(ds['exchanges']):
                rows.append([ds['name'], ds['location'], len(ds['exchanges']), len(left)])
                case('deleted')
            else:
                case('kept')
            ds['exchanges'] = left
    return data


@step('validation.ensure_mandatory_properties')
def mandatory(data, rows, case):
    for ds, e in excs(data):
        if e.get('properties'):
            missing = MANDATORY - {p['name'] for p in e['properties']}
            if missing:
                rows.append([ds['name'], e['name'], '; '.join(sorted(missing))])
            case('missing {}'.format(bool(missing)))
    return data


def with_volume(ds):
    """Without two estimates of about the same size but different sign"""
    r = sorted((e['production volume']['amount'] / e['amount'] for e in ref.refs(ds) if e['amount']), key=abs)
    return r and all(abs(x) < 1e200 for x in r)


@step('production_volumes.add_pv_to_allocatable_byproducts', only(with_volume))
def byproduct_volumes(data, rows, case):
    for ds, e in excs(data):
        if e['type'] == 'byproduct' and e['byproduct classification'] == 'allocatable product':
            if e['production volume']['amount'] == 0:
                e['production volume']['amount'] = abs(e['amount']) * ref.level(ds)
                rows.append([ds['name'], e['name'], e['production volume']['amount']])
                case('added')
            else:
                case('kept')
    return data


class New:
    """A value which can't be known before, but has to be a new id"""


@step('parameterization.create_pv_parameters')
def volume_parameters(data, rows, case):
    for ds, e in excs(data):
        pv = e.get('production volume', {})
        if 'variable' in pv:
            p = {'unit': e['unit'], 'id': New, 'name': 'Shifted PV parameter: ' + pv['variable'], 'variable': pv['variable'], 'amount': pv['amount']}
            if 'formula' in pv:
                p['formula'] = pv['formula']
            ds['parameters'].append(p)
            rows.append([ds['name'], p['name'], pv['amount']])
            case('moved')
        elif 'formula' in pv:
            case('formula')
        pv.pop('variable', None)
        pv.pop('formula', None)
    return data


@step('cutoff.markets.constrained_market_allocation', each='dataset')
def conditional(data, rows, case):
    for ds, e in excs(data):
        if e['type'] == 'byproduct' and e.get('conditional exchange'):
            e['type'] = 'dropped product'
            e['amount'] = 0.
            for k in ('formula', 'production volume', 'uncertainty'):
                e.pop(k, None)
            rows.append([ds['name'], e['name']])
            case('dropped')
        elif e['type'] == 'byproduct':
            case('kept')
    return data


@step('cutoff.utils.delete_allocation_method', table=False)
def no_method(data, rows, case):
    for ds in data:
        case('present' if 'allocation method' in ds else 'absent')
        ds.pop('allocation method', None)
    return data


@step('locations.delete_whitelisted_zero_pv_market_datsets', one_product)
def whitelist(data, rows, case):
    gone = [ds for ds in data if ds['type'] == 'market activity' and ds['location'] == 'GLO' and ds['name'] in WHITELIST]
    for ds in data:
        case('deleted' if ds in gone else 'almost' if ds['name'] in WHITELIST else 'kept')
    rows.extend([ds['name'], ds['reference product']] for ds in gone)
    return [ds for ds in data if ds not in gone]


@step('locations.assign_fake_pv_to_confidential_datasets', one_product)
def confidential(data, rows, case):
    for ds in data:
        if ds['type'] == 'transforming activity' and ds['name'] in CONFIDENTIAL:
            ref.refs(ds)[0]['production volume']['amount'] = 1
            rows.append([ds['name'], ds['reference product'], 1])
            case('assigned')
        else:
            case('almost' if ds['name'] in CONFIDENTIAL else 'other')
    return data


@step('locations.correct_natural_gas_pipeline_location', table=False)
def pipeline(data, rows, case):
    for ds in data:
        if ds['type'] == 'transforming activity' and ds['name'] == PIPELINE and ds['location'] == 'RER w/o DE+NL+NO':
            ds['location'] += '+RU'
            case('corrected')
        else:
            case('almost' if ds['name'] == PIPELINE else 'other')
    return data


@step('locations.delete_suppliers_list', table=False)
def suppliers(data, rows, case):
    for ds in data:
        case('present' if 'suppliers' in ds else 'absent')
        ds.pop('suppliers', None)
    return data


# -- monitor

class Rows(logging.Handler):
    def __init__(self):
        super().__init__()
        self.rows = []

    def emit(self, record):
        m = record.msg
        if isinstance(m, dict) and m.get('type') in ('table element', 'list element'):
            self.rows.append(m['data'] if m['type'] == 'list element' else list(m['data']))


def find(path):
    import importlib
    mod, name = path.rsplit('.', 1)
    return getattr(importlib.import_module('ocelot.transformations.' + mod), name)


def same(a, b):
    if b is New:
        return isinstance(a, str) and len(a) > 20
    if isinstance(b, bool) or isinstance(a, bool) or isinstance(b, str) or b is None:
        return a == b
    if isinstance(b, (int, float)):
        return isinstance(a, (int, float)) and (a == b or math.isclose(a, b, rel_tol=1e-9))
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in b)
    return isinstance(a, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def difference(a, b, path=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a:
                return '{}/{} is missing'.format(path, k)
            if k not in b:
                return '{}/{} should not be there'.format(path, k)
            if not same(a[k], b[k]):
                return difference(a[k], b[k], '{}/{}'.format(path, k))
    return '{} is {!r}, expected {!r}'.format(path, a, b)


def sign_free(u):
    """The flag of lognormal distributions repeats the sign of the amount"""
    return {k: v for k, v in u.items() if k != 'negative'}


def by(things, key):
    out = {}
    for x in things:
        out.setdefault(key(x), []).append(x)
    return out


def compare_lists(mon, got, want, key, what):
    g, w = by(got, key), by(want, key)
    mon.check(not set(w) - set(g), '{}: lost {}', what, set(w) - set(g))
    mon.check(not set(g) - set(w), '{}: unexpected {}', what, set(g) - set(w))
    for k in w:
        mon.check(len(g[k]) == len(w[k]), '{}: {} times {}', what, len(g[k]), k)
        for a, b in zip(g[k], w[k]):
            yield a, b


def compare(mon, got, want, what):
    """Order of datasets and their exchanges, properties and parameters has no meaning"""
    unwrap = lambda ds: ds[0] if isinstance(ds, Any) else ds
    new = {unwrap(ds)['name'] for ds in want if isinstance(ds, Any)}
    old = {(ds['id'], ds['name']) for ds in want if not isinstance(ds, Any)}
    name = lambda ds: (unwrap(ds)['name'], unwrap(ds)['location'], None if isinstance(ds, Any) or ds['name'] in new and (ds['id'], ds['name']) not in old else ds['id'])
    for a, b in compare_lists(mon, got, want, name, what):
        if isinstance(b, Any):
            mon.check(any(same(a, x) for x in b), '{}: new dataset {!r} is not as documented', what, a)
            continue
        where = '{}: {}'.format(what, b['name'])
        for x, y in compare_lists(mon, a['exchanges'], b['exchanges'], lambda e: e['id'], where):
            props = [{k: sign_free(v) if k == 'uncertainty' else v for k, v in o.items() if k != 'properties'} for o in (x, y)]
            mon.check(same(*props), '{} {}{}', where, y['name'], '' if same(*props) else difference(*props))
            mon.check(('properties' in x) == ('properties' in y), '{}: properties of {}', where, y['name'])
            for p, q in compare_lists(mon, x.get('properties', []), y.get('properties', []), lambda p: p['id'], where):
                mon.check(same(p, q), '{}: property {} of {}: {!r} != {!r}', where, q['name'], y['name'], p, q)
            mon.count('exchanges compared')
        for p, q in compare_lists(mon, a['parameters'], b['parameters'], lambda p: p['name'], where):
            mon.check(same(p, q), '{}: parameter {}: {!r} != {!r}', where, q['name'], p, q)
        rest = [{k: v for k, v in o.items() if k not in ('exchanges', 'parameters')} for o in (a, b)]
        mon.check(same(*rest), '{}{}', where, '' if same(*rest) else difference(*rest))
        mon.count('datasets compared')


def gen_steps(rng, index):
    return [make(rng) for _ in range(2)], rng.getrandbits(32)


def execute(s, f, data):
    handler = Rows()
    log = logging.getLogger('ocelot')
    before = log.level, log.propagate
    log.addHandler(handler)
    log.setLevel(logging.INFO)
    try:
        if s['each'] == 'dataset':
            out = [f(ds) for ds in data]
        elif s['each'] == 'list':
            out = [x for ds in data for x in f(ds)]
        else:
            out = f(data)
    finally:
        log.removeHandler(handler)
        log.setLevel(before[0])
    return out, handler.rows


def run_steps(case, mon):
    worlds, seed = case
    rng = random.Random(seed)
    for n, s in STEPS.items():
        data = s['prepare'](copy.deepcopy(rng.choice(worlds)), rng)
        mon.sample = data
        cases = set()

        def seen(c):
            cases.add(c)
            mon.count('{}: {}'.format(n, c))
        want_rows = []
        want = s['expect'](copy.deepcopy(data), want_rows, seen)
        keep = copy.deepcopy(data)
        got, got_rows = execute(s, find(s['path']), data)
        mon.check(isinstance(got, list), '{} returned {!r}', s['path'], type(got))
        compare(mon, got, want, s['path'])
        table = getattr(find(s['path']), '__table__', None)
        for r in got_rows:
            if table and isinstance(r, list):
                mon.check(len(r) == len(table['columns']), '{}: row {!r} does not fit to columns {}', s['path'], r, table['columns'])
                mon.count('rows which fit into tables')
        if s['table']:
            order = lambda rows: sorted(rows, key=lambda r: [str(x) for x in r if not isinstance(x, float)] if isinstance(r, list) else [r])
            a, b = order(got_rows), order(want_rows)
            if not same(a, b):
                # Rows which differ only in numbers may be in any order
                left = list(b)
                for r in a:
                    found = next((x for x in left if same(r, x)), None)
                    mon.check(found is not None, '{} reported {!r}, which did not happen', s['path'], r)
                    left.remove(found)
                mon.check(not left, '{} did not report {!r}', s['path'], left[:1])
            mon.count('rows compared', len(b))
        if cases:
            mon.seen(n, sorted(cases), min(len(data), 6))
        mon.count('steps')


def _required():
    import re
    import inspect
    out = []
    for n, s in STEPS.items():
        if n in ('both_links', 'waste_outputs', 'levels', 'recycled_content'):
            continue
        for m in re.findall(r"case\('([a-z ]+)'\)", inspect.getsource(s['expect'])):
            out.append('{}: {}'.format(n, m))
    return out


REQUIRED = ['steps', 'rows which fit into tables', 'exchanges compared', 'rows compared'] + _required()


# -- datasets which have to be refused

def gen_volume(rng, index):
    return [ds for ds in make(rng)]


def run_volume(data, mon):
    from ocelot.transformations import ensure_all_datasets_have_production_volume as f
    from ocelot.transformations.utils import label_reference_product, normalize_reference_production_amount
    from ocelot import errors
    for ds in data:
        r = ref.refs(ds)
        good = len(r) == 1 and r[0]['production volume']['amount']
        before = copy.deepcopy(ds)
        try:
            out = f([ds])
        except AssertionError:
            mon.check(not good, 'dataset with production volume refused')
            mon.count('no production volume: refused')
        else:
            mon.check(good, 'dataset without production volume accepted')
            mon.check(out == [before], 'dataset was changed')
            mon.count('production volume: accepted')
        for g, arg in (label_reference_product, [copy.deepcopy(before)]), (normalize_reference_production_amount, copy.deepcopy(before)):
            want = errors.InvalidMultioutputDataset if len(r) > 1 else ValueError if not r else None
            if g is normalize_reference_production_amount and len(r) == 1 and not r[0]['amount']:
                want = errors.ZeroProduction
            if g is normalize_reference_production_amount and r and (0 < abs(r[0]['amount']) < 1e-200):
                continue
            try:
                g(arg)
            except Exception as err:
                mon.check(want is not None and isinstance(err, want), '{}: refused with {!r}, expected {}', g.__name__, err, want)
                mon.count('refused: ' + want.__name__)
            else:
                mon.check(want is None, '{}: should be refused with {}', g.__name__, want)
        mon.seen('volume', len(r), bool(good))


REQUIRED += ['no production volume: refused', 'production volume: accepted', 'refused: InvalidMultioutputDataset', 'refused: ValueError', 'refused: ZeroProduction']
KINDS = {'steps': (gen_steps, run_steps), 'volume': (gen_volume, run_volume)}
PLAN = {'quick': dict(steps=1500, volume=500), 'thorough': dict(steps=40000, volume=10000)}
