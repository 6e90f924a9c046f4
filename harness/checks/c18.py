"""Formulas keep their meaning when they are translated to Python"""
import copy
from .. import formula
ID = 'C18'
RULE = ('distinct = set of operators of translated formulas, with place and kind of names used; every formula is evaluated after the real translation and compared '
        'with an independent evaluation of the original')
REQUIRED = ['formulas translated', 'with if', 'with nested if', 'with power', 'with percent', 'with reserved words', 'names', 'garbage removed', 'if around power', 'reserved words in if', 'if with equal branches']


def gen_sheet(rng, index):
    s = formula.Sheet(rng, True, p_reserved=rng.choice([0, .1, .5]))
    garbage = []
    for o in s.objects(s.ds):
        if 'formula' not in o and 'variable' not in o and rng.random() < .15:
            o['formula'] = rng.choice(['AVERAGE(1;2;3)', '3 +* 4', 'foo bar', '3 kg', '(1+2', '5 %', '=3', '1,,2', 'MIN(3;4)', '2e', '12 000'])
            garbage.append(o)
    s.garbage = {id(o) for o in garbage}
    return s


def depth(t):
    inside = max([depth(x) for x in t[1:] if isinstance(x, tuple)] or [0])
    return inside + (t[0] == 'if')


def equal(t):
    return t[0] == 'if' and t[4] is t[5] or any(equal(x) for x in t[1:] if isinstance(x, tuple))


def run_sheet(s, mon):
    from ocelot.transformations.parameterization import fix_ecoinvent_parameters, recalculate
    import ocelot
    work = copy.deepcopy(s.ds)
    data = [work]
    for f in ocelot.collection.unwrap_functions([fix_ecoinvent_parameters]):
        data = f(data)
    ds, = data
    garbage = [id(o) in s.garbage for o in s.objects(s.ds)]
    new = list(s.objects(ds))
    mon.check(len(new) == len(garbage), 'values appeared or disappeared')
    for bad, o, p in zip(garbage, new, s.expected()):
        old = p['obj']
        mon.check(o['amount'] == old['amount'], 'translation changed an amount')
        if bad:
            mon.check('formula' not in o, 'kept the unusable formula {!r} as {!r}', old['formula'], o.get('formula'))
            mon.count('garbage removed')
        elif 'formula' in old:
            mon.check('formula' in o, 'removed the formula {!r}', old['formula'])
        else:
            mon.check('formula' not in o, 'added a formula')
        mon.check(('variable' in o) == ('variable' in old), 'variables appeared or disappeared')
        if 'variable' in o:
            mon.check(o['variable'].lower() == old['variable'].lower(), 'variable {} became {}', old['variable'], o['variable'])
    mon.check(len({o['variable'] for o in new if 'variable' in o}) == sum(1 for o in new if 'variable' in o), 'two variables with the same name')
    before = copy.deepcopy(ds)
    out = recalculate(ds)
    for bad, o, b, p in zip(garbage, s.objects(out), s.objects(before), s.expected()):
        if bad:
            mon.check(o['amount'] == p['obj']['amount'], 'value without usable formula changed')
            continue
        mon.check(formula.agree(o['amount'], p['want']), '{!r} (now {!r}) evaluates to {}, expected {}', p['obj'].get('formula'), b.get('formula'), o['amount'], p['want'].v)
        if p['tree']:
            mon.count('formulas translated')
            ops = formula.ops(p['tree'])
            mon.count('with if', 'if' in ops)
            mon.count('with nested if', depth(p['tree']) > 1)
            mon.count('if with equal branches', equal(p['tree']))
            mon.count('with power', 'pow' in ops)
            mon.count('with percent', 'pct' in ops)
            mon.count('if around power', {'if', 'pow'} <= ops)
            words = {x[1] for x in formula.uses(p['tree'])} & set(formula.RESERVED)
            mon.count('with reserved words', bool(words))
            mon.count('reserved words in if', bool(words) and 'if' in ops)
            mon.seen(sorted(ops), p['kind'], len(words), bool(p['name']))
        mon.count('names', bool(p['name']))


KINDS = {'sheet': (gen_sheet, run_sheet)}
PLAN = {'quick': dict(sheet=4000), 'thorough': dict(sheet=90000)}
CHUNK = {'sheet': 100}
