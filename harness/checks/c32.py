"""Hard links lead to the named producer"""
import copy
from .. import e2e, gen, ref
ID = 'C32'
RULE = ('distinct = (consumer type, target type, target method, own product) of hard links; every hard link of every database is followed to its target')
REQUIRED = ['hard links followed', 'hard links to co-products', 'hard links of wastes', 'losses of a market', 'links inherited from the parent', 'unresolvable links rejected', 'codes of links', 'links without a single target']


def make(profile, **opts):
    return lambda rng, index: e2e.Case(rng, profile, **opts)


def run_world(case, mon):
    out = e2e.run(case, mon)
    ids = {}
    for ds in out.data:
        ids.setdefault(ds['id'], []).append(ds)
    src = {ds['id']: ds for ds in case.world.data}
    for ds in out.data:
        if ref.RC in ds['name'] and ds['id'] in src:
            continue
        if ds['id'] not in src:
            continue
        orig = {e['id']: e for e in src[ds['id']]['exchanges']}
        for e in ds['exchanges']:
            o = orig.get(e.get('original id'))
            if o is None or e['type'] != 'from technosphere' or not o.get('activity link') or not e['amount']:
                continue
            link = o['activity link']
            if link == src[ds['id']]['parent'] and not ref.is_product(o):
                link = ds['id']
                mon.count('links inherited from the parent')
            cands = [x for x in ids.get(link, []) if ref.RC not in x['name'] and x['reference product'] == o['name']]
            if len(cands) != 1:
                mon.count('hard links without a single target')
                continue
            target = out.by_code.get(e.get('code'))
            mon.check(target is cands[0], '{}: hard link for {!r} to {} leads to {}', e2e.key(ds), o['name'], e2e.key(cands[0]), target and e2e.key(target))
            mon.count('hard links followed')
            mon.count('hard links to co-products', len(ids[link]) > 1)
            mon.count('hard links of wastes', o['type'] == 'byproduct')
            mon.count('losses of a market', target is ds)
            mon.seen(ds['type'], target['type'], src[link]['_mode'], target is ds, o['type'], ds['location'] == 'RoW', target['location'] == 'RoW')
    # Amounts of hard linked inputs, and what is left of the targets for the markets
    e2e.activities(case, mon, out)
    e2e.inputs(case, mon, out)
    e2e.volumes(case, mon, out)


def gen_bad(rng, index):
    for _ in range(50):
        w = gen.World(rng, **dict(gen.PROFILES['links'], p_zero_input=0))
        links = [(d, e) for d in w.data for e in d['exchanges'] if e.get('activity link') and e['amount'] and e['type'] != 'reference product'
                 and e['activity link'] not in (d['id'], d['parent']) and ref.prop(e, 'consequential') != 1]
        if links:
            break
    d, e = rng.choice(links)
    how = rng.choice(['nowhere', 'other product', 'two candidates'])
    if how == 'nowhere':
        e['activity link'] = gen.uid(rng)
    elif how == 'other product':
        others = [x for x in w.data if x is not d and x['id'] != d['parent'] and not any(y['name'] == e['name'] for y in x['exchanges'] if ref.is_product(y))]
        if others:
            e['activity link'] = rng.choice(others)['id']
        else:
            e['activity link'] = gen.uid(rng)
    else:
        t = [x for x in w.data if x['id'] == e['activity link']][0]
        if t['type'] == 'transforming activity' and not t.get('_vars'):
            y = [y for y in t['exchanges'] if ref.is_product(y) and y['name'] == e['name']][0]
            z = copy.deepcopy(y)
            z['id'], z['type'], z['byproduct classification'] = gen.uid(rng), 'byproduct', 'allocatable product'
            t['exchanges'].append(z)
        else:
            e['activity link'] = gen.uid(rng)
    return w.clean()


def run_bad(data, mon):
    import ocelot
    from ocelot.errors import UnresolvableActivityLink
    try:
        ocelot.cutoff_config(copy.deepcopy(data))
    except UnresolvableActivityLink:
        mon.count('unresolvable links rejected')
    else:
        mon.fail('an unresolvable hard link was accepted')


def gen_codes(rng, index):
    """The step which turns links into codes: parts of split activities share an id"""
    names = gen.Names(rng)
    prods = [names.new() for _ in range(rng.randint(1, 4))]
    data = []
    for i in range(gen.size(rng, 1, 5)):
        k, n = gen.uid(rng), rng.choice([1, 1, 2, 3])
        for p in ([rng.choice(prods) for _ in range(n)] if rng.random() < .3 else rng.sample(prods, min(n, len(prods)))):
            kind = rng.choice(['transforming activity', 'market activity', 'market group'])
            data.append(gen.dataset(rng, names.new(), rng.choice(['GLO', 'RoW', 'FR']), kind, [gen.exchange(rng, p, 1., 'reference product')],
                                    id=k, code=gen.uid(rng), **{'reference product': p}))
    ids = sorted({d['id'] for d in data})
    for d in data:
        for _ in range(rng.choice([0, 1, 1, 3])):
            e = gen.exchange(rng, rng.choice(prods), gen.num(rng) * rng.choice([1, 1, -1, 0]), rng.choice(['from technosphere', 'from technosphere', 'byproduct']))
            if rng.random() < .8:
                e['activity link'] = rng.choice(ids)
            d['exchanges'].append(e)
        rng.shuffle(d['exchanges'])
    rng.shuffle(data)
    return data


def run_codes(data, mon):
    from ocelot.transformations.locations.linking import actualize_activity_links
    got = actualize_activity_links(copy.deepcopy(data))
    mon.check(len(got) == len(data), 'datasets appeared or disappeared')
    want = copy.deepcopy(data)
    for d in want:
        for e in d['exchanges']:
            if e.get('activity link'):
                targets = [x['code'] for x in data if x['id'] == e['activity link'] and x['reference product'] == e['name']]
                if len(targets) == 1:
                    e['code'] = targets[0]
                    mon.count('codes of links')
                else:
                    mon.count('links without a single target')
                mon.seen('code', len(targets), e['type'], sum(x['id'] == e['activity link'] for x in data))
    for a, b in zip(got, want):
        for e, f in zip(a['exchanges'], b['exchanges']):
            mon.check(e.get('code') == f.get('code'), 'link of {!r} to {} got code {}, expected {}', e['name'], e.get('activity link'), e.get('code'), f.get('code'))
    mon.check(got == want, 'something else was changed')


KINDS = {'codes': (gen_codes, run_codes), 'links': (make('links'), run_world), 'mixed': (make('mixed', p_link=.4), run_world), 'alloc': (make('alloc', p_link=.5), run_world),
         'recycling': (make('recycling', p_link=.5), run_world), 'bad': (gen_bad, run_bad)}
PLAN = {'quick': dict(codes=3000, links=180, mixed=50, alloc=50, recycling=50, bad=150), 'thorough': dict(codes=60000, links=4000, mixed=1500, alloc=1500, recycling=1500, bad=2000)}
