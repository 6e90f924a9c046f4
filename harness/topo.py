"""Independent spatial oracle.

Faces come straight from the ``constructive_geometries`` package (not from Ocelot's ``Topology``); every
location is an integer bit mask, so containment is ``child & ~parent == 0`` and size is a popcount.
The alias table is this harness' own copy of the names ecoinvent uses for power grids and IAI areas.
"""
from constructive_geometries import ConstructiveGeometries

ALIASES = {
    'ASCC': 'US-ASCC', 'CSG': 'CN-CSG', 'FRCC': 'US-FRCC', 'HICC': 'US-HICC', 'MRO, US only': 'US-MRO',
    'NPCC, US only': 'US-NPCC', 'RFC': 'US-RFC', 'SERC': 'US-SERC', 'SGCC': 'CN-SGCC', 'SPP': 'US-SPP',
    'TRE': 'US-TRE', 'WECC, US only': 'US-WECC',
    'IAI Area 2, North America': 'IAI Area, North America', 'IAI Area 1, Africa': 'IAI Area, Africa',
    'IAI Area 3, South America': 'IAI Area, South America',
    'IAI Area 4&5 without China': 'IAI Area, Asia, without China and GCC',
    'IAI Area 8, Gulf': 'IAI Area, Gulf Cooperation Council', 'IAI Area 1': 'IAI Area, Africa',
    'IAI Area 2, without Quebec': 'IAI Area, North America, without Quebec',
    'IAI Area 3': 'IAI Area, South America',
    'IAI Area 4&5, without China': 'IAI Area, Asia, without China and GCC',
    'IAI Area 8': 'IAI Area, Gulf Cooperation Council',
    'IAI Area, Europe outside EU & EFTA': 'IAI Area, Russia & RER w/o EU27 & EFTA',
}


class Topo:
    def __init__(self):
        cg = ConstructiveGeometries()
        faces = {k: set(v) for k, v in cg.data.items()}
        faces['GLO'] = set(cg.all_faces)
        for new, old in ALIASES.items():
            faces[new] = faces[old]
        self.faces = faces
        index = {f: i for i, f in enumerate(sorted(set().union(*faces.values()), key=str))}
        self.index = index
        self.mask = {}
        for k, v in faces.items():
            m = 0
            for f in v:
                m |= 1 << index[f]
            self.mask[k] = m
        self.mask['RoW'] = 0
        self.GLO = self.mask['GLO']
        # Places with no area, or with the whole area, are not used as ordinary regions
        self.regions = sorted(k for k in faces
                              if self.mask[k] and self.mask[k] != self.GLO and k not in ('GLO', 'RoW'))
        self.countries = [k for k in self.regions if len(k) == 2 and k.isupper()]
        self.big = sorted(self.regions, key=lambda k: -self.size(self.mask[k]))[:60]
        self.twins = [(a, b) for i, a in enumerate(self.regions) for b in self.regions[i + 1:]
                      if self.mask[a] != self.mask[b] and self.mask[a] & self.mask[b] and self.size(self.mask[a]) == self.size(self.mask[b])]
        self.parts = [k for k in self.regions if '-' in k]

    @staticmethod
    def size(mask):
        return bin(mask).count('1')

    def m(self, loc):
        return loc if isinstance(loc, int) else self.mask[loc]

    def union(self, locs):
        r = 0
        for l in locs:
            r |= self.m(l)
        return r

    def row(self, others):
        return self.GLO & ~self.union(others)

    @staticmethod
    def inside(child, parent):
        """Non-empty area inside another area"""
        return bool(child) and not (child & ~parent)

    hints = ()

    def pick(self, rng):
        x = rng.random()
        if self.hints and rng.random() < .25:
            return rng.choice(self.hints)
        if x < .35:
            return rng.choice(self.countries)
        if x < .6:
            return rng.choice(self.big)
        if x < .75:
            return rng.choice(self.parts)
        return rng.choice(self.regions)

    def related(self, rng, loc):
        """A place containing, contained in, overlapping or next to ``loc``"""
        m = self.m(loc)
        x = rng.random()
        if x < .35:
            c = [k for k in self.regions if self.inside(self.mask[k], m)]
        elif x < .7:
            c = [k for k in self.regions if self.inside(m, self.mask[k])]
        elif x < .9:
            c = [k for k in self.regions if self.mask[k] & m]
        else:
            c = self.regions
        return rng.choice(c or self.regions)

    def disjoint(self, rng, n, near=None):
        """``n`` (or fewer) places that don't overlap each other"""
        out, used = [], 0
        for _ in range(4 * n):
            if len(out) == n:
                break
            k = self.related(rng, rng.choice(near)) if near and rng.random() < .6 else self.pick(rng)
            if k in self.mask and k not in ('GLO', 'RoW') and not self.mask[k] & used:
                out.append(k)
                used |= self.mask[k]
        return out


    def cover(self, rng):
        """Large places which together leave little (or nothing) for the rest of the world"""
        out, used = [], 0
        pool = [k for k in self.big[:30]]
        rng.shuffle(pool)
        pool.sort(key=lambda k: -self.size(self.mask[k]) * rng.uniform(.5, 1))
        pool += rng.sample(self.regions, 150)
        target = rng.choice([.5, .6, .75, .9])
        for k in pool:
            if not self.mask[k] & used:
                out.append(k)
                used |= self.mask[k]
                if self.size(used) > target * self.size(self.GLO):
                    break
        return out


_t = None


def topo():
    global _t
    if _t is None:
        _t = Topo()
    return _t
