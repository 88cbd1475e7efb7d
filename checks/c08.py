"""C08: cardinalities are exact."""
import gen
import scale
from ses import Gen


def top(root, rows):
    return 0 if root < 2 else rows[root - 2][0]


def check(c):
    b = c.core('core', [2, 3, 4, 10], {A: [1] for A in (2, 3, 4, 10)})
    for rnd in range(8 if c.thorough else 1):
        g = Gen(c.seed * 1000 + rnd, 's%d_' % rnd)
        rng = g.rng
        if rnd == 0:
            k = 0
            for A, n, w, lim in [(2, 1, 1, None), (2, 2, 1, None), (2, 2, 2, None), (2, 3, 1, None), (3, 2, 1, None)]:
                for root, rows in gen.all_small(A, n, w, lim, rng):
                    g.case(A, [gen.tab_line('t', root, rows), 'buildA r t i0 %d' % (k % 2), 'card r', 'bcard r %d' % (n + k % 4), 'cardn r %d' % (n + k % 2)])
                    k += 1
        for _ in range(5000 if c.thorough else 2500):
            A = rng.choice([2, 2, 3, 4, 10])
            l1, (root, rows) = g.tab('t', A, {2: 12, 3: 8, 4: 6, 10: 4}[A], 7)
            n = top(root, rows)
            L = [l1, g.build('r', 't', 'i0')]
            if rng.random() < .5:
                L.append('red r ' + rng.choice('qbz'))
                n0 = n
            if rng.random() < .4:
                L += ['thr %d' % rng.choice([1, 2, 3, 8]), 'mp r 1']
            L += ['card r', 'bcard r %d' % (n + rng.choice([0, 0, 1, 5, 60])), 'cardn r %d' % n, 'dump r']
            g.case(A, L)
        # big numbers: long skips, carries over word boundaries
        for _ in range(600 if c.thorough else 70):
            A = rng.choice([2, 2, 2, 3, 10])
            n = rng.choice([30, 31, 32, 62, 63, 64, 65, 66, 95, 126, 127, 128, 130, 200])
            root, rows = gen.table(rng, A, n, rng.randint(1, 3), pz=rng.choice([0, .02, .1]), po=rng.choice([.02, .1, .3]),
                                   pskip=rng.choice([0, .3, .8]), style='rand')
            L = [gen.tab_line('t', root, rows), g.build('r', 't', 'i0')]
            if rng.random() < .5:
                L.append('red r ' + rng.choice('qbz'))
            L += ['card r', 'bcard r %d' % (n + rng.choice([0, 1, 31, 63, 64, 65, 190]))]
            g.case(A, L)
        if rnd == 0:
            for n in list(range(0, 12)) + [30, 31, 32, 33, 61, 62, 63, 64, 65, 125, 126, 127, 128, 129, 189, 190, 252, 253, 400]:
                for A in (2, 3, 10):
                    g.case(A, ['univ r %d 0' % n, 'card r', 'bcard r %d' % n, 'bcard r %d' % (n + 3)] +
                           (['red r b', 'card r', 'bcard r %d' % n] if n else []))
            g.case(2, ['none r', 'card r', 'bcard r 0', 'bcard r 5'])
        t = c.record(b, g.cases, 'small%d' % rnd)
        c.validate(t, binary=b, cases=g.cases, name='card%d' % rnd, heap='12g', env={'MODE': 'big'})
    c.notes['bounds'] = 'all tables of 5 small shapes; random n<=12; deep diagrams up to 400 levels with counts up to 10^400'
    scale.run(c, 'C08')
