"""C18: the frontier-based search represents exactly the requested component structures."""
import graphs
from gcase import GGen, harness


def colors(rng, es, k):
    """k colour classes of any sizes"""
    vs = graphs.verts(es)
    rng.shuffle(vs)
    out = []
    for i in range(k):
        t = rng.choice([1, 2, 2, 2, 3, 4])
        out += ['color %d %d' % (v, i) for v in vs[:t]]
        vs = vs[t:]
    return out


def ops(rng, how=None):
    return ['fbs %d %d %d %s' % (rng.choice([-1, -1, 0, 0, 1, 1, 2]), rng.randint(0, 1), rng.randint(0, 1), how or rng.choice('bbpst'))]


def check(c):
    b = harness(c, [4])
    for rnd in range(8 if c.thorough else 1):
        g = GGen(c.seed * 1000 + rnd, 'f%d_' % rnd)
        rng = g.rng
        for _ in range(9000 if c.thorough else 4500):
            es = g.some(1, 9, 7)
            L = graphs.edge_lines(rng, es) + colors(rng, es, rng.choice([0, 0, 1, 1, 2, 2, 3])) + ['update']
            if rng.random() < .05:
                L.append('clear')
            for _ in range(rng.choice([1, 1, 2])):
                L += ops(rng)
            g.case(L)
        t = c.record(b, g.cases, 'comps%d' % rnd)
        c.validate(t, module='Graphs', binary=b, cases=g.cases, name='comps%d' % rnd, heap='12g', timeout=850)
        g = GGen(c.seed * 1000 + rnd + 500, 'F%d_' % rnd)
        rng = g.rng
        big = [(3, 4), (4, 3), (2, 7), (3, 5), (5, 3)] + ([(4, 4), (2, 12)] if c.thorough else [])
        for _ in range(160 if c.thorough else 48):
            es = graphs.grid(*rng.choice(big))
            if rng.random() < .3:
                es = [e for e in es if rng.random() < .9]
            if rng.random() < .2:
                i = rng.randint(0, len(es) - 1)
                es[i], es[i - 1] = es[i - 1], es[i]
            g.case(graphs.edge_lines(rng, es, 0) + colors(rng, es, rng.choice([0, 1, 2, 3])) + ['update'] + ops(rng))
        t = c.record(b, g.cases, 'grids%d' % rnd)
        c.validate(t, module='Graphs', binary=b, cases=g.cases, name='grids%d' % rnd, heap='12g', timeout=850)
    c.notes['bounds'] = 'all edge subsets of random graphs of up to 9 edges; counts on grids of up to 4x4 vertices'
