"""Geography: containment, overlaps, order and the rest of the world"""
from .. import gen, ref
from ..topo import topo
ID = 'C10'
RULE = ('distinct = (operation, kind of arguments, answer) of questions asked; one long history of mixed questions per case, each answer compared with an '
        'independent bit-mask geometry')
REQUIRED = ['contains', 'contained', 'ordered', 'overlaps', 'rest of world', 'intersects', 'repeated questions', 'weighted order']


def gen_history(rng, index):
    t = topo()
    ops = []
    pool = [t.pick(rng) for _ in range(rng.randint(3, 12))]
    pool += [t.related(rng, p) for p in pool]

    def place():
        x = rng.random()
        return 'GLO' if x < .1 else rng.choice(pool) if x < .9 else t.pick(rng)

    def faces():
        if rng.random() < .1:
            return []
        others = [place() for _ in range(rng.randint(1, 4))]
        return [p for p in others if p != 'GLO'] or ['FR']

    for _ in range(60):
        x = rng.random()
        if ops and x < .12:
            ops.append(rng.choice(ops))
            continue
        row = None
        y = rng.random()
        if y < .35:
            row = ('row', faces())
        elif y < .4:
            row = ('empty',)
        if x < .5:
            parent = place() if rng.random() < .75 else rng.choice(['RoW', ('row', faces())])
            child = place() if rng.random() < .75 else rng.choice(['RoW', ('row', faces()), ('empty',)])
            sub = [place() for _ in range(rng.randint(1, 3))] if rng.random() < .35 else rng.choice([None, []])
            if rng.random() < .15:
                # One rest of the world inside of another one, without some places
                g = faces() or ['FR']
                row = ('row', g)
                parent, child, sub = 'RoW', ('row', g + faces()), rng.choice([[place()], [rng.choice(g)], [place(), place()]])
            ops.append(('contains', parent, child, sub, row))
        elif x < .68:
            loc = place() if rng.random() < .8 else rng.choice(['RoW', ('row', faces())])
            sub = [place() for _ in range(rng.randint(1, 3))] if rng.random() < .35 else None
            ops.append(('contained', loc, rng.random() < .3, sub, row))
        elif x < .8:
            ops.append(('ordered', [place() for _ in range(rng.randint(1, 8))] + (['RoW'] if rng.random() < .4 else []), row))
        elif x < .88:
            ops.append(('overlaps', t.disjoint(rng, rng.randint(1, 6)) + ([place()] if rng.random() < .4 else [])))
        elif x < .94:
            ops.append(('row', faces() + (['RoW'] if rng.random() < .3 else [])))
        else:
            ops.append(('intersects', place(), place()))
    return {'ops': ops, 'weights': rng.random() < .2, 'salt': rng.randrange(1000)}


def run_history(case, mon):
    from ocelot.transformations.locations._topology import Topology
    from ocelot.transformations.locations import topology as shared
    t = topo()
    inv = {v: k for k, v in t.index.items()}
    weigh = lambda f: 1 + (t.index[f] * 7919 + case['salt']) % 13
    top = Topology(size_proxy=weigh) if case['weights'] else shared
    if case['weights']:
        mon.count('weighted order')

    def real(x):
        if isinstance(x, tuple):
            return set() if x[0] == 'empty' else top.resolve_row(x[1]) if x[1] else set()
        return x

    def mask(x):
        if isinstance(x, tuple):
            return 0 if x[0] == 'empty' or not x[1] else t.row(x[1])
        return t.mask[x]

    asked = set()
    for op in case['ops']:
        kind = op[0]
        if repr(op) in asked:
            mon.count('repeated questions')
        asked.add(repr(op))
        if kind == 'contains':
            _, parent, child, sub, row = op
            if parent in ('RoW',) and row is None:
                want_faces = 0
            elif parent == 'RoW':
                want_faces = mask(row)
            else:
                want_faces = mask(parent)
            want_faces &= ~t.union(sub or [])
            if child == 'RoW':
                want = parent == 'GLO' and not sub
            elif parent == 'RoW' and not (row and mask(row)):
                want = False
            else:
                want = t.inside(mask(child), want_faces)
            kw = {}
            if sub is not None:
                kw['subtract'] = list(sub)
            if row is not None:
                kw['resolved_row'] = real(row)
            got = top.contains(real(parent), real(child), **kw)
            mon.check(bool(got) == want, 'contains({}, {}, subtract={}, resolved_row={}) is {}', parent, child, sub, row, got)
            mon.seen(kind, type(parent).__name__ if parent not in ('GLO', 'RoW') else parent, type(child).__name__ if child not in ('GLO', 'RoW') else child,
                     bool(sub), row and row[0], want)
        elif kind == 'contained':
            _, loc, excl, sub, row = op
            rm = mask(row) if row is not None else None
            area = (rm or 0) if loc == 'RoW' else mask(loc)
            area &= ~t.union(sub or [])
            want = {k for k, m in t.mask.items() if k != 'RoW' and m and t.inside(m, area) and not (k == loc and excl)} if area else set()
            if area:
                if rm and t.inside(rm, area) and not (loc == 'RoW' and excl):
                    want.add('RoW')
                elif loc == 'GLO' and row is None and not sub:
                    want.add('RoW')
            kw = {}
            if sub is not None:
                kw['subtract'] = list(sub)
            if row is not None:
                kw['resolved_row'] = real(row)
            got = {k for k in top.contained(real(loc), exclude_self=excl, **kw) if k == 'RoW' or (k in t.mask and t.mask[k])}
            mon.check(got == want, 'contained({}, exclude_self={}, subtract={}, resolved_row={}): extra {}, missing {}', loc, excl, sub, row,
                      sorted(got - want)[:5], sorted(want - got)[:5])
            mon.seen(kind, type(loc).__name__ if loc not in ('GLO', 'RoW') else loc, excl, bool(sub), row and row[0], min(len(want), 5))
        elif kind == 'ordered':
            _, locs, row = op
            rm = mask(row) if row is not None else 0
            size = (lambda m: sum(weigh(inv[i]) for i in range(m.bit_length()) if m >> i & 1)) if case['weights'] else t.size
            want = sorted(set(locs), key=lambda l: (size(rm if l == 'RoW' else t.mask[l]), l), reverse=True)
            got = top.ordered_dependencies([{'location': l} for l in locs], *([real(row)] if row is not None else []))
            mon.check(list(got) == want, 'order of {} is {}, expected {}', locs, got, want)
            mon.seen(kind, len(want), 'RoW' in want)
        elif kind == 'overlaps':
            locs = op[1]
            if not locs:
                continue
            want = sum(t.size(t.mask[l]) for l in locs) != t.size(t.union(locs))
            got = top.overlaps(list(locs))
            mon.check(bool(got) == want, 'overlaps({}) is {}', locs, got)
            mon.seen(kind, len(locs), want)
        elif kind == 'row':
            if not op[1]:
                continue
            got = set(top.resolve_row(list(op[1])))
            want = {inv[i] for i in range(len(inv)) if t.row([l for l in op[1] if l != 'RoW']) >> i & 1}
            mon.check(got == want, 'rest of the world without {}: {} faces, expected {}', op[1], len(got), len(want))
            kind = 'rest of world'
            mon.seen(kind, len(op[1]), min(len(want), 9))
        else:
            _, a, b = op
            want = bool(t.mask[a] & t.mask[b]) and a != 'GLO'
            got = top.intersects(a, b)
            mon.check(bool(got) == want, 'intersects({}, {}) is {}', a, b, got)
            mon.seen(kind, want)
        mon.count(kind)


KINDS = {'history': (gen_history, run_history)}
PLAN = {'quick': dict(history=500), 'thorough': dict(history=12000)}
