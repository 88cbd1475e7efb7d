"""C02: reduction is canonical and meaning-preserving."""
import gen
import scale
from ses import Gen, is_stateless

K = ['i0', 'i0', 'vec', 'ac4', 'hi1']


def check(c):
    b = c.core('core', [2, 3, 4, 10], {A: [1] for A in (2, 3, 4, 10)})
    for rnd in range(8 if c.thorough else 1):
        g = Gen(c.seed * 1000 + rnd, 's%d_' % rnd)
        if rnd == 0:                 # every table of small shapes x rule x builder
            k = 0
            for A, n, w, lim in [(2, 1, 1, None), (2, 2, 1, None), (2, 2, 2, None), (2, 3, 1, None), (3, 1, 1, None),
                                 (3, 2, 1, None), (2, 3, 2, 20000 if c.thorough else 1000), (3, 2, 2, 3000 if c.thorough else 300)]:
                for root, rows in gen.all_small(A, n, w, lim, g.rng):
                    g.case(A, [gen.tab_line('t', root, rows), g.build('r', 't', 'i0', (k // 3) % 2), 'red r ' + 'qbz'[k % 3]])
                    k += 1
        for _ in range(9000 if c.thorough else 3500):
            A = g.rng.choice([2, 2, 2, 3, 4, 10])
            nm, wm = {2: (9, 9), 3: (7, 7), 4: (6, 6), 10: (4, 8)}[A]
            line, _ = g.tab('t', A, nm, wm)
            L = [line, g.build('r', 't', g.rng.choice(['i0', 'i1', 'i2', 'eq']))]
            if g.rng.random() < 0.3:
                L.append('thr %d' % g.rng.choice([1, 2, 3, 8]))
            if g.rng.random() < 0.25:
                L.append('copy s r')
            L.append('red r ' + g.rng.choice('qbz'))
            if g.rng.random() < 0.4:      # reductions compose
                L.append('mp r %d' % g.rng.randint(0, 1))
                L.append('red r ' + g.rng.choice('qbz'))
            if 'copy s r' in L:           # the other algorithm reaches the same diagram
                L += ['dump s', 'mp s %d' % g.rng.randint(0, 1)] + [x.replace('red r', 'red s') for x in L if x.startswith('red r')] + ['eq r s']
            g.case(A, L)
        t = c.record(b, g.cases, 'small%d' % rnd)
        c.validate(t, binary=b, cases=g.cases, name='reduce-small%d' % rnd, heap='12g')
        c.serial([2, 3, 4, 10], {A: [1] for A in (2, 3, 4, 10)}, g.cases, 'serial%d' % rnd, 4)
    g = Gen(c.seed + 78, 'b')
    for rep in range(5 if c.thorough else 1):
        for A, n, w, style in [(2, 20, 250, 'full'), (2, 5, 3000, 'dup'), (2, 4, 3000, 'full'), (2, 250, 6, 'red'),
                               (2, 250, 6, 'dead'), (3, 10, 200, 'full'), (2, 30, 60, 'dead'), (2, 30, 60, 'dup'),
                               (10, 4, 60, 'red'), (2, 3, 5000, 'full'), (4, 8, 100, 'deadend'), (2, 30, 80, 'red')]:
            kw = dict(pz=.3, po=.3, pskip=0) if n <= 4 and A == 2 else {}
            line, _ = g.big('t', A, n, w, style=style, **kw)
            r = g.rng.choice('qbz')
            L = [line, g.build('r', 't', 'i0', g.rng.randint(0, 1)), 'copy s r', 'mp s 1', 'mp r 0', 'red r ' + r, 'red s ' + r, 'eq r s']
            g.case(A, L)
    t = c.record(b, g.cases, 'big')
    c.validate(t, binary=b, cases=g.cases, name='reduce-big', env={'MODE': 'big'}, heap='14g')
    c.serial([2, 3, 4, 10], {A: [1] for A in (2, 3, 4, 10)}, g.cases, 'serial-big', 3, mode='big', heap='14g')
    c.notes['bounds'] = ('all tables of 6 small shapes x {qdd,bdd,zdd} x {serial,MP}; random n<=9 w<=9 arities 2,3,4,10 '
                         'incl. reduction chains; big: <=5000 nodes per level, <=250 levels')
    scale.run(c, 'C02')
