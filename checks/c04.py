"""C04: zddSubset yields exactly the itemsets accepted by both."""
import gen
import scale
from ses import Gen, is_stateless


def check(c):
    b = c.core('core', [2, 3, 4], {2: [1, 4, 5, 6], 3: [1, 4, 5, 6], 4: [1, 4]})
    for rnd in range(8 if c.thorough else 1):
        g = Gen(c.seed * 1000 + rnd, 's%d_' % rnd)
        rng = g.rng
        if rnd == 0:
            # all pairs (diagram, specification) of small tables
            tabs = list(gen.all_small(2, 2, 1)) + list(gen.all_small(2, 1, 1)) + [(0, []), (1, [])]
            k = 0
            for i, (r1, t1) in enumerate(tabs):
                L = [gen.tab_line('t', r1, t1), 'buildA x t i0 0', 'copy xm x', 'mp xm 1']
                for j, (r2, t2) in enumerate(tabs):
                    k += 1
                    if k % (1 if c.thorough else 3):
                        continue
                    s = 'xm' if k % 2 else 'x'
                    L += [gen.tab_line('u', r2, t2), 'copy y ' + s, 'subsetA y u ' + ('nil' if k % 5 == 0 else 'i%d' % (k % 4))]
                g.case(2, L)
        for _ in range(9000 if c.thorough else 4000):
            A = rng.choice([2, 2, 2, 3, 4])
            nm, wm = {2: (8, 7), 3: (6, 5), 4: (5, 4)}[A]
            l1, (r1, t1) = g.tab('t', A, nm, wm)
            l2, (r2, t2) = g.tab('u', A, nm, wm, styles=gen.STYLES + ['stateless'])
            L = [l1, l2, g.build('x', 't', kinds=['i0', 'i2', 'eq'])]
            if rng.random() < .2:
                L.append('thr %d' % rng.choice([1, 2, 3, 8]))
            if rng.random() < .5:
                L.append('red x ' + rng.choice('qzb'))
            if rng.random() < .3:
                L.append('mp x %d' % rng.randint(0, 1))
            ks = gen.KINDS if A < 4 else ['i0', 'i1', 'i2', 'i3', 'eq']
            for rep in range(rng.choice([1, 1, 1, 2, 3])):
                if rng.random() < .2:
                    L += [g.build('y', 'u', kinds=['i0', 'eq'])]
                    if rng.random() < .5:
                        L.append('red y z')
                    L.append('subsetr x y')
                    L.append('dump y')
                else:
                    k = rng.choice(ks)
                    if is_stateless(t2) and rng.random() < .5:
                        k = 'nil'
                    L.append('subset%s x u %s' % (gen.FAMILY(k), k))
                if rng.random() < .3:
                    L.append('red x z')
                if rep == 0 and rng.random() < .5:
                    l2, (r2, t2) = g.tab('u', A, nm, wm)
                    L.append(l2)
            L.append('card x')
            g.case(A, L)
        t = c.record(b, g.cases, 'small%d' % rnd)
        c.validate(t, binary=b, cases=g.cases, name='subset-small%d' % rnd, heap='12g')
        c.serial([2, 3, 4], {2: [1, 4, 5, 6], 3: [1, 4, 5, 6], 4: [1, 4]}, g.cases, 'serial%d' % rnd, 4)
    g = Gen(c.seed + 80, 'b')
    for rep in range(5 if c.thorough else 1):
        for A, n, w1, w2, st, mp in [(2, 18, 150, 20, 'full', 0), (2, 18, 150, 20, 'full', 1), (2, 18, 20, 150, 'full', 0), (2, 18, 20, 150, 'dead', 1),
                                     (2, 5, 1000, 4, 'full', 0), (2, 5, 4, 1000, 'full', 1), (2, 150, 4, 4, 'rand', 0), (2, 150, 4, 4, 'dead', 1),
                                     (3, 8, 60, 20, 'full', 1), (3, 8, 60, 20, 'dead', 0), (2, 40, 20, 20, 'deadend', 0), (2, 40, 20, 20, 'dead', 1)]:
            l1, _ = g.big('t', A, n, w1, style=st)
            l2, _ = g.big('u', A, g.rng.choice([n - 2, n, n + 2]), w2, style=g.rng.choice(['full', 'dead']), pz=.02)
            k = g.rng.choice(['i0', 'vec', 'ac5', 'hi2'])
            L = [l1, l2, g.build('x', 't', 'i0', mp)]
            if g.rng.random() < .5:
                L.append('red x z')
            L += ['subset%s x u %s' % (gen.FAMILY(k), k), 'red x z', 'card x']
            g.case(A, L)
    t = c.record(b, g.cases, 'big')
    c.validate(t, binary=b, cases=g.cases, name='subset-big', env={'MODE': 'big'}, heap='14g')
    c.serial([2, 3, 4], {2: [1, 4, 5, 6], 3: [1, 4, 5, 6], 4: [1, 4]}, g.cases, 'serial-big', 3, mode='big', heap='14g')
    c.notes['bounds'] = 'pairs of small tables; random chains of subsettings n<=8; big products'
    scale.run(c, 'C04')
