"""C09: const_iterator enumerates the itemsets exactly once."""
import gen
import scale
from ses import Gen


def check(c):
    b = c.core('core', [2], {2: [1, 9]})
    for rnd in range(8 if c.thorough else 1):
        g = Gen(c.seed * 1000 + rnd, 's%d_' % rnd)
        rng = g.rng
        if rnd == 0:
            k = 0
            for A, n, w, lim in [(2, 1, 1, None), (2, 2, 1, None), (2, 2, 2, None), (2, 3, 1, None), (2, 3, 2, 20000 if c.thorough else 3000)]:
                for root, rows in gen.all_small(A, n, w, lim, rng):
                    g.case(A, [gen.tab_line('t', root, rows), 'buildA r t i0 0'] + (['red r ' + 'zqb'[k % 3]] if k % 4 else []) + ['iter r'])
                    k += 1
        for _ in range(6000 if c.thorough else 3000):
            l1, _ = g.tab('t', 2, 9, 6)
            L = [l1, g.build('r', 't', 'i0')]
            if rng.random() < .6:
                L.append('red r ' + rng.choice('qbz'))
            L += ['iter r']
            if rng.random() < .2:
                L += ['iter r', 'dump r']
            g.case(2, L)
        g.case(2, ['none r', 'iter r'] + [x for n in range(0, 9) for x in ('univ u %d 0' % n, 'iter u')])
        # sparse families over many variables (codes would overflow: compared as sets)
        t = c.record(b, g.cases, 'small%d' % rnd)
        c.validate(t, binary=b, cases=g.cases, name='iter%d' % rnd, heap='12g')
    g = Gen(c.seed + 85, 'b')
    for _ in range(300 if c.thorough else 60):
        root, rows = gen.table(g.rng, 2, g.rng.randint(15, 60), 3, pz=.5, po=.05, pskip=.2, style='rand')
        g.case(2, [gen.tab_line('t', root, rows), g.build('r', 't', 'i0'), 'iter r 5000'])
    t = c.record(b, g.cases, 'big')
    c.validate(t, binary=b, cases=g.cases, name='iter-deep', env={'MODE': 'big'}, heap='14g')
    c.notes['bounds'] = 'all tables of 4 small shapes; random n<=9; sparse diagrams of up to 60 levels'
    scale.run(c, 'C09')
