"""C17: path and cycle specifications represent exactly the paths and cycles of the graph."""
import graphs
from gcase import GGen, harness


def ops(rng, ncol, how=None, ham=True):
    how = how or rng.choice('bbpst')
    L = []
    if ncol:
        L.append('path %d %d %s' % (rng.randint(0, 1), ham and rng.random() < .4, how))
        if ncol == 1:
            L.append('slow ' + how)
    else:
        L.append('cycle %d %d %s' % (rng.randint(0, 1), ham and rng.random() < .6, how))
        if rng.random() < .4:
            L.append('slow ' + how)
    return L


def colors(rng, es, k):
    vs = graphs.verts(es)
    if len(vs) < 2 * k:
        return None
    pick = rng.sample(vs, 2 * k)
    return ['color %d %d' % (v, i // 2) for i, v in enumerate(pick)]


def check(c):
    b = harness(c, [1, 2, 3])
    for rnd in range(8 if c.thorough else 1):
        g = GGen(c.seed * 1000 + rnd, 'p%d_' % rnd)
        rng = g.rng
        for _ in range(8000 if c.thorough else 4000):
            es = g.some(1, 9, 7)
            k = rng.choice([0, 0, 1, 1, 1, 2, 2, 3])
            if k == 0 and rng.random() < .6:
                es = graphs.rand_graph(rng, rng.choice([4, 5, 5]), rng.randint(6, 9))
            col = colors(rng, es, k) if k else []
            if col is None:
                k, col = 1, colors(rng, es, 1)
            L = graphs.edge_lines(rng, es) + col + ['update']
            if k and rng.random() < .1:
                L += ['clear']
                k = 0
            for _ in range(rng.choice([1, 1, 2])):
                L += ops(rng, k)
            g.case(L)
        t = c.record(b, g.cases, 'paths%d' % rnd)
        c.validate(t, module='Graphs', binary=b, cases=g.cases, name='paths%d' % rnd, heap='12g', timeout=850)
        # larger graphs: the number of members, by the frontier process
        g = GGen(c.seed * 1000 + rnd + 500, 'P%d_' % rnd)
        rng = g.rng
        big = [(3, 4), (4, 3), (3, 5), (4, 4), (2, 9), (5, 3)] + ([(4, 5), (5, 4)] if c.thorough else [])
        for _ in range(200 if c.thorough else 48):
            es = graphs.grid(*rng.choice(big))
            if rng.random() < .3:
                es = [e for e in es if rng.random() < .9]
            if rng.random() < .2:
                i = rng.randint(0, len(es) - 1)
                es[i], es[i - 1] = es[i - 1], es[i]
            k = rng.choice([0, 1, 1, 2])
            col = colors(rng, es, k) if k else []
            ham = False
            if k == 1 and rng.random() < .5:
                # with the last-leaving vertex an end of the path the known finding cannot show
                last, ham = max(es[-1]), True
                v = rng.choice([x for x in graphs.verts(es) if x != last])
                col = ['color %d 0' % last, 'color %d 0' % v]
            L = graphs.edge_lines(rng, es, 0) + col + ['update'] + ops(rng, k, ham=ham)
            g.case(L)
        t = c.record(b, g.cases, 'grids%d' % rnd)
        c.validate(t, module='Graphs', binary=b, cases=g.cases, name='grids%d' % rnd, heap='12g', timeout=850)
    # known finding: vertices outside the mate window are not looked at when the last edge is taken
    kf = [('kf1', ['case kf1', 'edge 2 1', 'edge 2 3', 'color 1 0', 'color 2 0', 'update', 'path 0 1 b'])]
    t = c.record(b, kf, 'kf')
    r = c.tlc('Graphs', env={'TRACE': t, 'MODE': 'strict'}, name='known-finding')
    if r['ok']:
        c.gone.add('hamilton-window')
    c.notes['bounds'] = 'all edge subsets of random graphs of up to 9 edges; counts on grids of up to 4x5 vertices'
