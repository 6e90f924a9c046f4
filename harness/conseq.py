"""Databases for the consequential model"""
from . import gen


def constrained(rng):
    """Constrained markets and the treatments they are linked to. Returns (data, links, conditional exchanges)"""
    names = gen.Names(rng)
    data, links, cond = [], 0, 0
    for _ in range(rng.randint(1, 4)):
        a, b = names.new(), names.new()
        t = gen.dataset(rng, names.new('treatment of {}'), 'GLO', 'transforming activity', [
            gen.exchange(rng, b, gen.num(rng), 'reference product'), gen.exchange(rng, a, gen.num(rng), 'from technosphere'), gen.emission(rng, 0)])
        m = gen.dataset(rng, 'market for ' + a, 'GLO', 'market activity', [gen.exchange(rng, a, 1., 'reference product')])
        rest = rng.random() < .5
        if rest:
            m['exchanges'].append(gen.exchange(rng, b + ' x', gen.num(rng), 'from technosphere'))
        m['exchanges'].append(gen.exchange(rng, a, -gen.num(rng), 'byproduct', **{'activity link': t['id'], 'conditional exchange': True}))
        cond += 1
        data += [t, m]
    rng.shuffle(data)
    return data, links, cond
