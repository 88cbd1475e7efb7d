"""C06: lookahead, unreduction and BDD/ZDD conversion keep the meaning."""
import gen
import scale
from ses import Gen


def check(c):
    b = c.core('core', [2, 3, 4], {A: [1, 7, 8] for A in (2, 3, 4)})
    for rnd in range(8 if c.thorough else 1):
        g = Gen(c.seed * 1000 + rnd, 's%d_' % rnd)
        rng = g.rng
        if rnd == 0:
            k = 0
            for A, n, w, lim in [(2, 1, 1, None), (2, 2, 1, None), (2, 2, 2, None), (2, 3, 1, None), (3, 2, 1, None),
                                 (2, 3, 2, 10000 if c.thorough else 600)]:
                for root, rows in gen.all_small(A, n, w, lim, rng):
                    kd = gen.KINDS_D[k % len(gen.KINDS_D)]
                    bz = 'bz'[(k // 2) % 2]
                    if k % 2:
                        op = 'look r t %s %s %d' % (kd, bz, k // 4 % 2)
                    else:
                        op = 'unred r t %s %s %d %d' % (kd, bz, k // 4 % 2, n + k % 3)
                    g.case(A, [gen.tab_line('t', root, rows), op])
                    k += 1
        for _ in range(9000 if c.thorough else 4500):
            A = rng.choice([2, 2, 2, 3, 4])
            nm, wm = {2: (7, 6), 3: (5, 5), 4: (4, 4)}[A]
            l1, (r1, t1) = g.tab('t', A, nm, wm, styles=gen.STYLES + ['red', 'red'])
            top = 0 if r1 < 2 else t1[r1 - 2][0]
            L = [l1]
            use_dd = rng.random() < .4
            src, kd = 't', rng.choice(gen.KINDS_D)
            m = rng.random()
            if use_dd or m < .3:
                L.append(g.build('d', 't', 'i0'))
                if rng.random() < .6:
                    L.append('red d ' + rng.choice('qbz'))
            if use_dd:
                src, kd = 'd', 'dd'
            if m < .3:
                n = top + rng.choice([0, 0, 1, 2])
                if rng.random() < .3:
                    L.append('mp d 1')
                x = rng.choice(['b2z', 'z2b'])
                L.append('%s r d %d' % (x, n))
                if rng.random() < .5:
                    L.append('%s q r %d' % ('z2b' if x == 'b2z' else 'b2z', n))
                if rng.random() < .5:
                    L.append('red r ' + ('z' if x == 'b2z' else 'b'))
                L.append('dump d')
            elif m < .65:
                L.append('look r %s %s %s %d' % (src, kd, rng.choice('bz'), rng.randint(0, 1)))
            else:
                L.append('unred r %s %s %s %d %d' % (src, kd, rng.choice('bz'), rng.randint(0, 1), top + rng.choice([-1, 0, 0, 1, 2])))
            g.case(A, L)
        t = c.record(b, g.cases, 'small%d' % rnd)
        c.validate(t, binary=b, cases=g.cases, name='convert-small%d' % rnd, heap='12g')
    c.notes['bounds'] = 'all tables of 5 small shapes; random tables n<=7, arities 2,3,4, 8 state kinds and DD inputs'
    scale.run(c, 'C06')
