"""Implicit references in formulas mean the value of the thing with that id"""
import copy
from .. import formula, gen
ID = 'C34'
RULE = ('distinct = (operators, kind of things referred to, place) of formulas with references; every formula is evaluated after the real replacement and compared with '
        'an independent evaluation')
REQUIRED = ['formulas with references', 'references to exchanges or parameters', 'references to production volumes', 'named targets', 'unnamed targets', 'unknown targets refused', 'untouched formulas', 'databases with shared ids']


def gen_sheet(rng, index):
    out = [formula.Sheet(rng, True, p_reserved=0, p_ref=1.) for _ in range(rng.choice([1, 1, 2, 3]))]
    if len(out) > 1 and rng.random() < .8:
        # e.g. child datasets have the ids of their parents
        for s in out[1:]:
            share(s, out[0])
    return out


def share(s, other):
    ids = {}
    for what in ('exchanges', 'parameters'):
        for a, b in zip(s.ds[what], other.ds[what]):
            ids[a['id']] = b['id']
    for o in s.objects(s.ds):
        if o.get('id') in ids:
            o['id'] = ids[o['id']]
        for a, b in ids.items():
            if 'formula' in o:
                o['formula'] = o['formula'].replace(a, b)


def run_sheet(case, mon):
    from ocelot.transformations.parameterization import fix_ecoinvent_parameters
    from ocelot.transformations.parameterization.implicit_references import replace_implicit_references
    import ocelot
    replaced = replace_implicit_references([copy.deepcopy(s.ds) for s in case])
    fixed = [copy.deepcopy(s.ds) for s in case]
    for f in ocelot.collection.unwrap_functions([fix_ecoinvent_parameters]):
        fixed = f(fixed)
    mon.check(len(replaced) == len(fixed) == len(case), 'number of datasets changed')
    mon.count('databases with shared ids', len(case) > 1 and case[0].ds['exchanges'][0]['id'] == case[1].ds['exchanges'][0]['id'])
    for s, one, two in zip(case, replaced, fixed):
        check_sheet(s, one, two, mon)


def check_sheet(s, one, two, mon):
    from ocelot.transformations.parameterization import recalculate
    used = {u for p in s.places if p['tree'] for u in formula.uses(p['tree']) if u[0] != 'var'}
    for o, p in zip(s.objects(one), s.expected()):
        old = p['obj']
        mon.check({k: v for k, v in o.items() if k not in ('formula', 'variable', 'properties', 'production volume')} ==
                  {k: v for k, v in old.items() if k not in ('formula', 'variable', 'properties', 'production volume')}, 'values changed')
        mon.check(old.get('variable') in (None, o.get('variable')), 'variable {} renamed to {}', old.get('variable'), o.get('variable'))
        if p['tree']:
            refs = [u for u in formula.uses(p['tree']) if u[0] != 'var']
            if refs:
                mon.check('ref(' not in o['formula'].lower(), 'reference left in {!r}', o['formula'])
            else:
                mon.check(o['formula'] == old['formula'], 'formula without references changed to {!r}', o['formula'])
                mon.count('untouched formulas')
    mon.check(len({o['variable'] for o in s.objects(one) if 'variable' in o}) == sum(1 for o in s.objects(one) if 'variable' in o), 'two variables with the same name')
    out = recalculate(two)
    for o, p in zip(s.objects(out), s.expected()):
        mon.check(formula.agree(o['amount'], p['want']), '{!r} (now {!r}) evaluates to {}, expected {}', p['obj'].get('formula'), o.get('formula'), o['amount'], p['want'].v)
        if p['tree']:
            refs = [u for u in formula.uses(p['tree']) if u[0] != 'var']
            if refs:
                mon.count('formulas with references')
                mon.count('references to exchanges or parameters', sum(1 for u in refs if u[0] == 'ref'))
                mon.count('references to production volumes', sum(1 for u in refs if u[0] == 'refpv'))
                mon.seen(sorted(formula.ops(p['tree'])), p['kind'], len(refs))
    for p in s.places:
        key = ('ref', p['obj'].get('id'))
        if p['kind'] in ('exchange', 'parameter') and key in used:
            mon.count('named targets' if p['name'] else 'unnamed targets')


def gen_bad(rng, index):
    s = formula.Sheet(rng, True, p_reserved=0, p_ref=1.)
    o = rng.choice([e for e in s.objects(s.ds)])
    how = rng.choice(['unknown', 'unknown volume', 'no volume'])
    if how == 'no volume':
        e = gen.exchange(rng, 'z', 1., 'from technosphere', p_unc=0)
        s.ds['exchanges'].append(e)
        o['formula'] = "2 * Ref('{}', 'ProductionVolume')".format(e['id'])
    else:
        o['formula'] = "Ref('{}'{}) + 1".format(gen.uid(rng), ", 'ProductionVolume'" if 'volume' in how else '')
    return how, s


def run_bad(case, mon):
    from ocelot.transformations.parameterization.implicit_references import replace_implicit_references
    how, s = case
    try:
        replace_implicit_references([copy.deepcopy(s.ds)])
    except ValueError:
        mon.count('unknown targets refused')
        mon.seen('bad', how)
    else:
        mon.fail('reference to nothing accepted ({})', how)


KINDS = {'sheet': (gen_sheet, run_sheet), 'bad': (gen_bad, run_bad)}
PLAN = {'quick': dict(sheet=2500, bad=400), 'thorough': dict(sheet=60000, bad=5000)}
CHUNK = {'sheet': 80, 'bad': 100}
