"""Cases of the graph harness."""
import random
import graphs


class GGen:
    def __init__(self, seed, prefix):
        self.rng = random.Random(seed)
        self.cases = []
        self.prefix = prefix

    def case(self, lines):
        cid = '%s%d' % (self.prefix, len(self.cases))
        self.cases.append((cid, ['case ' + cid] + lines))

    def some(self, lo=1, hi=8, vmax=7):
        rng = self.rng
        nv = rng.randint(2, vmax)
        ne = rng.randint(lo, hi)
        x = rng.random()
        if x < .15:
            es = graphs.grid(*rng.choice([(2, 2), (2, 3), (3, 2), (2, 4), (1, 5)]))
            if len(es) > hi:
                es = es[:hi]
            if rng.random() < .4:
                rng.shuffle(es)
        else:
            es = graphs.rand_graph(rng, nv, ne, connected=x < .8)[:hi]
        if rng.random() < .5:
            es = graphs.relabel(rng, es)
        return es


def harness(c, feats):
    return c.cxx([('graph.cpp', [])] + [('graph.cpp', ['-DGF=%d' % k]) for k in feats], 'graph', ['-O1', '-fopenmp', '-std=c++14'])
