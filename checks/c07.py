"""C07: the bottom-up evaluation protocol."""
import gen
import scale
from ses import Gen


def check(c):
    b = c.core('core', [2, 3, 4], {A: [1] for A in (2, 3, 4)})
    for rnd in range(8 if c.thorough else 1):
        g = Gen(c.seed * 1000 + rnd, 's%d_' % rnd)
        rng = g.rng
        if rnd == 0:
            k = 0
            for A, n, w, lim in [(2, 1, 1, None), (2, 2, 1, None), (2, 2, 2, None), (2, 3, 1, None), (3, 2, 1, None)]:
                for root, rows in gen.all_small(A, n, w, lim, rng):
                    g.case(A, [gen.tab_line('t', root, rows), 'buildA r t i0 %d' % (k % 2)] + (['red r ' + 'qbz'[k // 4 % 3]] if k // 4 % 4 else []) + ['eval r %d' % (k // 2 % 2)])
                    k += 1
        for _ in range(9000 if c.thorough else 4500):
            A = rng.choice([2, 2, 3, 4])
            l1, _ = g.tab('t', A, 12 if A == 2 else 7, 6)
            L = [l1, g.build('r', 't', 'i0')]
            if rng.random() < .6:
                L.append('red r ' + rng.choice('qbz'))
            if rng.random() < .5:
                L.append('thr %d' % rng.choice([1, 2, 3, 5, 8]))
            L.append('mp r %d' % rng.randint(0, 1))
            for _ in range(rng.choice([1, 1, 2])):
                L.append('eval r %d' % rng.randint(0, 1))
            if rng.random() < .2:
                l2, _ = g.tab('u', A, 6, 4)
                L += [l2, 'buildA s u i0 %d' % rng.randint(0, 1), 'subsetr r s', 'eval r %d' % rng.randint(0, 1), 'eval s 0']
            g.case(A, L)
        g.case(2, ['none r', 'eval r 0', 'univ s 7 1', 'eval s 1', 'univ q 0 0', 'eval q 0'])
        t = c.record(b, g.cases, 'small%d' % rnd)
        c.validate(t, binary=b, cases=g.cases, name='eval-small%d' % rnd, heap='12g', retag=lambda p: None)
        c.serial([2, 3, 4], {A: [1] for A in (2, 3, 4)}, g.cases, 'serial%d' % rnd, 4)
    g = Gen(c.seed + 83, 'b')
    for rep in range(12 if c.thorough else 3):
        for A, n, w, st in [(2, 10, 120, 'full'), (2, 100, 4, 'rand'), (3, 8, 40, 'dead'), (2, 4, 250, 'full')]:
            l1, _ = g.big('t', A, n, w, style=st)
            g.case(A, [l1, g.build('r', 't', 'i0'), 'eval r %d' % g.rng.randint(0, 1), 'mp r 1', 'eval r 1'])
    t = c.record(b, g.cases, 'big')
    c.validate(t, binary=b, cases=g.cases, name='eval-big', env={'MODE': 'big'}, heap='14g', retag=lambda p: None)
    c.serial([2, 3, 4], {A: [1] for A in (2, 3, 4)}, g.cases, 'serial-big', 3, mode='big', heap='14g')
    c.notes['bounds'] = 'all tables of 5 small shapes; random n<=12, threads 1..8; big diagrams of about 1000 nodes'
    scale.run(c, 'C07')
