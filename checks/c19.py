"""C19: degree, size and linear constraints represent exactly the subsets that satisfy them."""
import graphs
from gcase import GGen, harness


def subset(rng, hi):
    x = rng.random()
    if x < .45:
        a = rng.randint(0, hi)
        return 'r:%d:%d:%d' % (a, rng.randint(a, hi + 1), rng.choice([1, 1, 1, 2, 2, 3]))
    if x < .6:
        return rng.choice(['q:', 'q:%d' % rng.randint(0, hi), 'q:%d:%d' % (rng.randint(0, 1), rng.randint(1, hi))])
    return 'm:%d:%d' % (rng.randrange(1, 1 << (hi + 1)), rng.randint(0, 1))


def deg(g):
    rng = g.rng
    es = g.some(1, 10, 7)
    L = graphs.edge_lines(rng, es) + ['update']
    for _ in range(rng.choice([1, 1, 2])):
        o = 'deg %d %s %s' % (rng.randint(0, 1), rng.choice('bbpst'), '-' if rng.random() < .35 else subset(rng, 3))
        vs = graphs.verts(es)
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            o += ' %d %s' % (rng.choice(vs), '-' if rng.random() < .15 else subset(rng, 3))
        L.append(o)
    return L


def size(g):
    rng = g.rng
    n = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 14, 20, 30, 40])
    hi = min(n + 1, 29)
    return ['size %d %s %s %d' % (n, '-' if rng.random() < .08 else subset(rng, hi), rng.choice('bbpst'), rng.randint(0, 1))]


def lin(g):
    rng = g.rng
    n = rng.randint(1, 10)
    t = rng.choice(['int', 'int', 'short', 'double'])
    o = 'lin %s %d %s' % (t, n, rng.choice('bbpst'))
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
        k = rng.choice([0] + [min(n, rng.randint(1, n)) for _ in range(9)])
        idx = rng.sample(range(1, n + 1), k)
        W = rng.choice([1, 3, 3, 9])
        w = [rng.randint(-W, W) for _ in idx]
        if rng.random() < .5:
            w = [abs(x) for x in w]
        lo, hi = sum(x for x in w if x < 0), sum(x for x in w if x > 0)
        y = rng.random()
        if y < .7:
            a = rng.randint(lo - 1, hi + 1)
            b = rng.randint(a, hi + 1) if a <= hi + 1 else a
        elif y < .85:
            a, b = lo - 5, rng.randint(lo - 1, hi)
        elif y < .95:
            a, b = rng.randint(lo, hi + 1), hi + 5
        else:
            a, b = rng.randint(lo, hi), rng.randint(lo, hi)
        o += ' %d %d %d' % (a, b, k) + ''.join(' %d %d' % p for p in zip(idx, w))
    return [o]


def check(c):
    b = harness(c, [5])
    for rnd in range(8 if c.thorough else 1):
        g = GGen(c.seed * 1000 + rnd, 'd%d_' % rnd)
        for k in range(9000 if c.thorough else 4500):
            g.case((deg, deg, lin, lin, size)[k % 5](g))
        t = c.record(b, g.cases, 'cons%d' % rnd)
        c.validate(t, module='Graphs', binary=b, cases=g.cases, name='cons%d' % rnd, heap='12g', timeout=850)
    c.notes['bounds'] = 'all subsets of up to 10 edges / items; exact counts for sizes of up to 40 items'
