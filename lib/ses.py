"""Session scripts for the core harness."""
import random
import gen

WIDE = dict(pz=.05, po=.02, pskip=.1)


class Gen:
    """collects cases; every case is a list of script lines for harness/core"""

    def __init__(self, seed, prefix=''):
        self.rng = random.Random(seed)
        self.cases = []
        self.prefix = prefix

    def case(self, A, lines, sched=None):
        cid = '%s%d' % (self.prefix, len(self.cases))
        self.cases.append((cid, ['case %s %d%s' % (cid, A, '' if sched is None else ' %d' % sched)] + lines + ['bad']))

    def tab(self, name, A, nmax=7, wmax=6, **kw):
        root, rows = gen.rand_table(self.rng, A, nmax, wmax, **kw)
        return gen.tab_line(name, root, rows), (root, rows)

    def build(self, r, t, kind=None, mp=None, kinds=gen.KINDS):
        kind = kind or self.rng.choice(kinds)
        mp = self.rng.randint(0, 1) if mp is None else mp
        return 'build%s %s %s %s %d' % (gen.FAMILY(kind), r, t, kind, mp)

    def big(self, name, A, n, w, **kw):
        a = dict(WIDE)
        a.update(kw)
        root, rows = gen.table(self.rng, A, n, w, **a)
        return gen.tab_line(name, root, rows), (root, rows)


def is_stateless(rows):
    lv = [r[0] for r in rows]
    return len(lv) == len(set(lv))
