"""Formulas: random expressions, their ecospold2 and Python spellings, and an evaluator with running error bounds."""
import math

from .core import HarnessError

WORDS = ['clinker_pv', 'x1', 'yield_management', 'insulation', 'is_dry', 'for_rent', 'mass', 'distance_km', 'ash_content', 'heat_loss', 'moisture', 'classes',
         'android', 'origin', 'define', 'passenger', 'ores', 'notation', 'inlet', 'ash', 'eta', 'lhv', 'k2', 'ifactor', 'powers', 'power_el', 'percent', 'basis',
         'e_2', 'wasted', 'm_e', 'delta', 'tryout', 'whiles', 'x_if', 'my_yield', 'yieldx', 'trueness', 'nonex', 'asphalt', 'fromage', 'ab', 'abc', 'ab_c', 'b_ab', 'none', 'true', 'false', 'match', 'case', 'höhe', 'température']
RESERVED = ['yield', 'lambda', 'in', 'is', 'from', 'class', 'with', 'as', 'for', 'pass', 'return', 'global', 'import', 'del', 'try', 'while', 'raise', 'assert',
            'break', 'continue', 'def', 'elif', 'except', 'finally', 'nonlocal', 'or', 'and', 'async', 'await']
EPS = 2.3e-16


class Close(Exception):
    """The value hinges on rounding"""


def names(rng, n, p_reserved=.15):
    out = []
    while len(out) < n:
        w = (rng.choice(RESERVED) if rng.random() < .7 else 'yield') if rng.random() < p_reserved else rng.choice(WORDS)
        if rng.random() < .2 and w not in RESERVED:
            w += str(rng.randrange(10))
        if w not in out:
            out.append(w)
    return out


def number(rng):
    x = rng.random()
    if x < .4:
        return str(rng.randint(1, 20))
    if x < .7:
        return '{:.4g}'.format(10 ** rng.uniform(-2, 3)).replace('+0', '').replace('+', '')
    return rng.choice(['0.5', '1e3', '2.5E-2', '0.001', '1000', '3.1415', '.25', '0', '1e-3', '2E2'])


def expr(rng, leaves, depth=3, eco=False):
    """('num', text) | ('var', name) | ('neg', a) | (op, a, b) | ('if', l, cmp, r, a, b) | ('pow', a, b) | ('pct', a) | ('fun', name, a)"""
    x = rng.random()
    if depth <= 0 or x < .12:
        if leaves and rng.random() < .7:
            return rng.choice(leaves)
        return ('num', number(rng))
    sub = lambda d=1: expr(rng, leaves, depth - d, eco)
    if x < .62:
        return (rng.choice('++-**/'), sub(), sub())
    if x < .68:
        return ('neg', sub())
    if x < .74:
        return ('fun', rng.choice(['abs', 'sqrt', 'exp']), sub(2))
    if x < .84:
        yes = sub()
        return ('if', sub(2), rng.choice(['<', '>', '<=', '>=']), sub(2), yes, yes if rng.random() < .15 else sub())
    if x < .92:
        exponent = ('num', rng.choice(['2', '3', '2.0', '0.5', '1', '02'] if eco else ['2', '3', '2.0', '0.5', '1']))
        x = rng.random()
        if x > .8 and exponent[1] != '02':
            exponent = rng.choice([('neg', exponent), ('/', ('num', '1'), exponent), ('-', exponent, ('num', '1'))]) if x < .95 else sub(2)
        return ('pow', simple(rng, leaves) if rng.random() < .5 else sub(), exponent)
    if eco:
        return ('pct', ('num', rng.choice(['5', '12.5', '.25', '100', '0.1', '20', '3', '99.9', '0'])) if rng.random() < .6 or not [l for l in leaves if l[0] == 'var'] else rng.choice([l for l in leaves if l[0] == 'var']))
    return (rng.choice('+*'), sub(), sub())


def simple(rng, leaves):
    """Something without parentheses"""
    x = rng.random()
    plain = [l for l in leaves if l[0] == 'var']
    leaf = rng.choice(plain) if plain and x < .7 else ('num', number(rng))
    if x < .2:
        return ('+', leaf, ('num', number(rng)))
    return leaf


class Value:
    __slots__ = ('v', 'e')

    def __init__(self, v, e=0.):
        self.v, self.e = v, e
        if not (math.isfinite(v) and math.isfinite(e)) or abs(v) > 1e60:
            raise Close


def evaluate(t, env, refs=None):
    """(value, error bound); ZeroDivisionError as in Python; Close if the outcome hinges on rounding"""
    op = t[0]
    if op == 'num':
        return Value(float(t[1]))
    if op == 'var':
        return env[t[1]]
    if op in ('ref', 'refpv'):
        return refs[op, t[1]]
    if op == 'neg':
        a = evaluate(t[1], env, refs)
        return Value(-a.v, a.e)
    if op == 'pct':
        a = evaluate(t[1], env, refs)
        return Value(a.v * 1e-2, a.e * 1e-2 + abs(a.v) * 4e-2 * EPS)
    if op == 'fun':
        a = evaluate(t[2], env, refs)
        if abs(a.v) >= 2 ** 62:
            # numpy can't take Python's long integers
            raise Close
        if t[1] == 'abs':
            return Value(abs(a.v), a.e)
        if t[1] == 'sqrt':
            if a.v <= 1e-30 or a.e > a.v / 2:
                raise Close
            v = math.sqrt(a.v)
            return Value(v, a.e / v + v * EPS * 2)
        if abs(a.v) > 50:
            raise Close
        v = math.exp(a.v)
        return Value(v, v * (a.e * 2 + EPS * 4))
    if op == 'if':
        try:
            l, r = evaluate(t[1], env, refs), evaluate(t[3], env, refs)
        except ZeroDivisionError:
            if t[4] is t[5]:
                # the condition doesn't matter, so it can be left out
                raise Close
            raise
        d = l.v - r.v
        if abs(d) <= (l.e + r.e) * 4 + EPS * (abs(l.v) + abs(r.v)) and not (l.e == r.e == 0 and d == 0):
            raise Close
        yes = {'<': l.v < r.v, '>': l.v > r.v, '<=': l.v <= r.v, '>=': l.v >= r.v}[t[2]]
        return evaluate(t[4] if yes else t[5], env, refs)
    if op == 'pow':
        a, b = evaluate(t[1], env, refs), evaluate(t[2], env, refs)
        if a.v < 0 and b.v != int(b.v) or abs(a.v) < 1e-12 and b.v < 1 or abs(a.v) > 1e15:
            raise Close
        if a.v == 0 and b.v < 0:
            raise ZeroDivisionError
        if b.e and (a.v <= 0 or b.e > 1e-3) or abs(b.v) > 20 or a.v < 0 and b.v < 0 or b.v < 0 and a.v == int(a.v):  # numpy refuses negative powers of its integers
            raise Close
        v = a.v ** b.v
        if abs(v) >= 2 ** 62 and a.v == int(a.v):
            raise Close
        rel = a.e / abs(a.v) if a.v else 0
        if rel > 1e-3:
            raise Close
        return Value(v, abs(v) * (rel * (abs(b.v) + 1) * 2 + EPS * 8 + (b.e * abs(math.log(a.v)) * 2 if b.e else 0)))
    a, b = evaluate(t[1], env, refs), evaluate(t[2], env, refs)
    if op in '+-':
        v = a.v + b.v if op == '+' else a.v - b.v
        return Value(v, a.e + b.e + abs(v) * EPS)
    if op == '*':
        v = a.v * b.v
        if abs(v) >= 2 ** 62 and a.v == int(a.v) and b.v == int(b.v):
            # ... and its own integers (e.g. of abs) have 64 bits
            raise Close
        return Value(v, a.e * abs(b.v) + b.e * abs(a.v) + abs(v) * EPS + a.e * b.e)
    if op == '/':
        if abs(b.v) <= b.e * 4 and not (b.v == 0 and b.e == 0):
            raise Close
        if b.v == 0:
            raise ZeroDivisionError
        v = a.v / b.v
        return Value(v, (a.e + abs(v) * b.e) / abs(b.v) * 2 + abs(v) * EPS)
    raise HarnessError(op)


def spell(rng, word, upper=True):
    if not upper:
        return word
    x = rng.random()
    return word.upper() if x < .15 else word.capitalize() if x < .3 else word


def eco(rng, t, ids=None):
    """ecospold2 spelling: case-insensitive, if(a;b;c), power(a;b), percent signs, line breaks"""
    sp = lambda: rng.choice(['', '', '', ' ', '\r\n'] if rng.random() < .5 else ['', ''])
    op = t[0]
    if op == 'num':
        return t[1]
    if op == 'var':
        return spell(rng, t[1])
    if op == 'ref':
        return "{}('{}')".format(rng.choice(['Ref', 'Ref', 'ref']), t[1])
    if op == 'refpv':
        return "{}('{}', 'ProductionVolume')".format(rng.choice(['Ref', 'Ref', 'ref']), t[1])
    if op == 'neg':
        return '(-{})'.format(paren(rng, eco(rng, t[1]), t[1]))
    if op == 'pct':
        return eco(rng, t[1]) + '%'
    if op == 'fun':
        return '{}({})'.format(spell(rng, t[1]), eco(rng, t[2]))
    if op == 'if':
        yes = sp() + eco(rng, t[4])
        no = yes if t[4] is t[5] and rng.random() < .8 else sp() + eco(rng, t[5])
        return '{}({}{}{};{};{})'.format(spell(rng, 'if'), paren(rng, eco(rng, t[1]), t[1]), t[2], paren(rng, eco(rng, t[3]), t[3]), yes, no)
    if op == 'pow':
        if rng.random() < .35 and t[1][0] in ('num', 'var') and t[2][0] == 'num' and t[2][1][0] != '0':
            return '({}^{})'.format(eco(rng, t[1]), eco(rng, t[2]))
        return '{}({};{})'.format(spell(rng, 'power'), eco(rng, t[1]), eco(rng, t[2]))
    return '{}{}{}{}{}'.format(paren(rng, eco(rng, t[1]), t[1]), sp(), op, sp(), paren(rng, eco(rng, t[2]), t[2]))


def py(rng, t):
    op = t[0]
    if op in ('num', 'var'):
        return t[1]
    if op == 'neg':
        return '(-{})'.format(paren(rng, py(rng, t[1]), t[1]))
    if op == 'fun':
        return '{}({})'.format(t[1], py(rng, t[2]))
    if op == 'if':
        return '(({}) if ({} {} {}) else ({}))'.format(py(rng, t[4]), paren(rng, py(rng, t[1]), t[1]), t[2], paren(rng, py(rng, t[3]), t[3]), py(rng, t[5]))
    if op == 'pow':
        return '(({})**({}))'.format(py(rng, t[1]), py(rng, t[2]))
    return '{} {} {}'.format(paren(rng, py(rng, t[1]), t[1]), op, paren(rng, py(rng, t[2]), t[2]))


def paren(rng, text, t):
    if t[0] in ('num', 'var', 'fun', 'if', 'pow', 'neg', 'ref', 'refpv', 'pct'):
        return text
    return ('( {} )' if rng.random() < .2 else '({})').format(text)


def uses(t, acc=None):
    acc = set() if acc is None else acc
    if t[0] in ('var', 'ref', 'refpv'):
        acc.add(t[:2])
    else:
        for x in t[1:]:
            if isinstance(x, tuple):
                uses(x, acc)
    return acc


def ops(t):
    out = {t[0]}
    for x in t[1:]:
        if isinstance(x, tuple):
            out |= ops(x)
    return out


class Sheet:
    """A dataset full of named and unnamed formulas, and what each of them should evaluate to

    ``places``: list of dicts(obj, name, tree, want) in the dataset; ``tree`` is None for plain amounts."""

    def __init__(self, rng, eco_syntax, p_reserved=.15, p_ref=0., gen=None):
        from . import gen
        for attempt in range(200):
            try:
                self.build(rng, eco_syntax, p_reserved, p_ref, gen)
                return
            except Close:
                continue
        raise HarnessError('no well-conditioned sheet')

    def build(self, rng, eco_syntax, p_reserved, p_ref, gen):
        self.ds = ds = gen.dataset(rng, 'a', 'GLO', 'transforming activity', [])
        ds['reference product'] = 'x0'
        slots = []
        self.exchanges = []
        for i in range(rng.randint(1, 4)):
            e = gen.exchange(rng, 'x{}'.format(i), gen.num(rng, wide=.02), 'reference product' if not i else rng.choice(['from technosphere', 'byproduct', 'to environment', 'from environment']), p_unc=0)
            ds['exchanges'].append(e)
            slots.append(('exchange', e))
            if 'production volume' in e:
                e['production volume']['amount'] = gen.num(rng, wide=0)
                slots.append(('production volume', e['production volume']))
            for j in range(rng.choice([0, 0, 1, 2])):
                p = gen.prop(rng, 'p{}'.format(j), gen.num(rng, wide=0))
                e['properties'].append(p)
                slots.append(('property', p))
        for j in range(rng.randint(0, 4)):
            p = {'id': gen.uid(rng), 'name': 'parameter {}'.format(j), 'unit': 'kg', 'amount': gen.num(rng, wide=0)}
            ds['parameters'].append(p)
            slots.append(('parameter', p))
        order = list(slots)
        rng.shuffle(order)
        words = names(rng, len(order), p_reserved)
        env, refs, known = {}, {}, []
        self.places = []
        spelled = {}
        host = {id(e['production volume']): e['id'] for e in ds['exchanges'] if 'production volume' in e}
        for kind, obj in order:
            named = rng.random() < .65
            tree = None
            if rng.random() < .6:
                leaves = [l for l in known if l[0] == 'var']
                refl = [l for l in known if l[0] != 'var']
                if p_ref and refl and rng.random() < .8:
                    leaves = leaves + refl * 2
                tree = expr(rng, leaves, rng.choice([1, 2, 3, 3, 4]), eco_syntax)
                if tree[0] == 'num' and rng.random() < .7:
                    tree = None
            zero = False
            if tree is not None:
                try:
                    want = evaluate(tree, env, refs)
                except ZeroDivisionError:
                    want, zero = Value(0.), True
                obj['formula'] = eco(rng, tree) if eco_syntax else py(rng, tree)
                if rng.random() < .5:
                    obj['amount'] = want.v if not zero else obj['amount']
            else:
                want = Value(obj['amount'])
            name = None
            if named:
                name = words[len(self.places)]
                obj['variable'] = spell(rng, name) if eco_syntax else name
                env[name] = want
                known.append(('var', name))
            # things with an id can be referred to without a name
            if kind in ('exchange', 'parameter') and p_ref:
                known.append(('ref', obj['id']))
                refs['ref', obj['id']] = want
            elif kind == 'production volume' and p_ref:
                known.append(('refpv', host[id(obj)]))
                refs['refpv', host[id(obj)]] = want
            self.places.append(dict(kind=kind, obj=obj, name=name, tree=tree, want=want, zero=zero, amount=obj['amount']))
        # objects of the dataset in the order in which they are stored
        self.index = {id(p['obj']): p for p in self.places}
        self.env = env

    @staticmethod
    def objects(ds):
        for e in ds['exchanges']:
            yield e
            if 'production volume' in e:
                yield e['production volume']
            yield from e['properties']
        yield from ds['parameters']

    def expected(self):
        return [self.index[id(o)] for o in self.objects(self.ds)]


def agree(got, want):
    if not isinstance(got, (int, float)) and not hasattr(got, 'dtype'):
        return False
    got = float(got)
    return abs(got - want.v) <= want.e * 8 + 1e-11 * abs(want.v)
