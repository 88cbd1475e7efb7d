"""C13: mergeStates decides which states survive, at every level and at the 1-terminal."""
import gen
from ses import Gen


def wline(rng, rows, A, hi):
    w = [[rng.randint(0, hi) for _ in range(A)] for _ in rows]
    return 'wts t %d %s' % (rng.randint(1, 3 + hi * 3), ' '.join(' '.join(map(str, r)) for r in w))


def check(c):
    b = c.core('core', [2, 3], {2: [1, 15], 3: [1, 15]})
    for rnd in range(10 if c.thorough else 1):
        g = Gen(c.seed * 1000 + rnd, 's%d_' % rnd)
        rng = g.rng
        for _ in range(6000 if c.thorough else 5000):
            A = rng.choice([2, 2, 2, 3])
            n, w = rng.choice([(3, 2), (4, 3), (5, 3), (6, 2)]) if A == 2 else rng.choice([(3, 2), (4, 2)])
            style = rng.choice(['rand', 'rand', 'dup', 'dead'])
            root, rows = gen.table(rng, A, rng.randint(1, n), w, style=style, pz=rng.choice([.05, .2]), po=.1, pskip=rng.choice([0, .2]))
            if rng.random() < .3:      # many dead nodes below early 1-terminal candidates: the sweeper moves the candidates
                n = rng.randint(3, 5) if A == 2 else 3
                root, rows = gen.table(rng, A, n, rng.randint(3, 6), style=rng.choice(['deadend', 'deadend', 'dead']), pz=.05, po=rng.choice([.15, .3]), pskip=.1)
            if rng.random() < .02:     # wide levels: the node lists and hash tables grow
                n, A = rng.randint(3, 6), 2
                root, rows = gen.table(rng, A, n, rng.choice([20, 60]), style='full', pz=.05, po=.05, pskip=.1)
            hi = rng.choice([1, 2, 3, 5])
            mode = rng.choice(['min', 'lvl', 'cap', 'cut'])
            kind = rng.choice(['sca', 'arr', 'hyb', 'sca'])
            mp = rng.randint(0, 1)
            L = ['thr %d' % rng.randint(1, 4), gen.tab_line('t', root, rows), wline(rng, rows, A, hi)]
            x = rng.random()
            if x < .2 and A == 2:      # the merging specification as an operand
                root2, rows2 = gen.table(rng, A, rng.randint(1, n), rng.choice([1, 1, 2, w]), style=rng.choice(['rand', 'dup', 'full']), pz=.1, po=.1, pskip=.15)
                L += [gen.tab_line('u', root2, rows2), 'mop r t %s %s %d %s u' % (kind, mode, mp, rng.choice(['and', 'AND', 'int', 'INT']))]
            elif x < .3:
                L += ['mop r t %s %s %d %s %d' % (kind, mode, mp, rng.choice(['bunr', 'zunr', 'zl']), rng.randint(0, n + 1))]
            elif x < .6:
                L += ['mbuild r t %s %s %d' % (kind, mode, mp)]
                if rng.random() < .4:
                    L += ['red r ' + rng.choice('qbz')]
            else:
                root2, rows2 = gen.table(rng, A, rng.randint(1, n), w, style=rng.choice(['rand', 'dup', 'full']), pz=.1, po=.1, pskip=.15)
                L += [gen.tab_line('u', root2, rows2), g.build('r', 'u', 'i0'), 'mp r %d' % mp]
                if rng.random() < .4:
                    L += ['red r z']
                L += ['msubset r t %s %s' % (kind, mode)]
            g.case(A, L)
        for _ in range(1500 if c.thorough else 700):      # the sweeper moves many 1-terminal candidates
            root, rows = gen.table(rng, 2, rng.choice([5, 6, 6]), rng.choice([5, 6]), style='deadend', pz=.05, po=rng.choice([.1, .2]), pskip=rng.choice([0, .1, .2]))
            g.case(2, ['thr 1', gen.tab_line('t', root, rows), wline(rng, rows, 2, 3), 'mbuild r t %s %s 0' % (rng.choice(['sca', 'arr', 'hyb']), rng.choice(['min', 'cut']))])
        t = c.record(b, g.cases, 'merge%d' % rnd)
        c.validate(t, binary=b, cases=g.cases, name='merge%d' % rnd, heap='12g')
        c.serial([2, 3], {2: [1, 15], 3: [1, 15]}, g.cases, 'serial%d' % rnd, 3)
    # known finding: the multi-processor builders do not merge at the 1-terminal
    kf = [('kf1', ['case kf1 2', 'tab t 3 2 1 1 1 2 2 2', 'wts t 9 0 1 0 0', 'mbuild r t sca min 1', 'bad'])]
    t = c.record(b, kf, 'kf')
    r = c.tlc('Session', env={'TRACE': t, 'MODE': 'strict'}, name='known-finding')
    if r['ok']:
        c.gone.add('mp-terminal-merge')
    c.notes['bounds'] = 'random weighted tables of up to 6 levels, 3 merge policies, serial and parallel'
