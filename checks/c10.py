"""C10: the multi-processor algorithms give the serial result on every schedule."""
import os
import gen
from ses import Gen
from vlib import CheckError

KINDS = ['i0', 'i0', 'i1', 'i2', 'eq', 'vec', 'ac4', 'hi1']


def session(g, A, shape, thr):
    """one session that uses the parallel algorithms in a row"""
    rng = g.rng
    nm, wm = shape
    st = rng.choice(['full', 'rand', 'dup', 'dead', 'red', 'deadend'])
    root, rows = gen.table(rng, A, rng.randint(2, nm), wm, style=st, pz=rng.choice([.05, .2]), po=.1, pskip=rng.choice([0, .2, .4]))
    L = ['thr %d' % thr, gen.tab_line('t', root, rows)]
    x = rng.random()
    if x < .12 and A == 2:
        L.append('look r t %s %s 1' % (rng.choice(['i0', 'ac4', 'vec']), rng.choice('bz')))
    elif x < .3:
        w = [[rng.randint(0, 3) for _ in range(A)] for _ in rows]
        L.append('wts t %d %s' % (rng.randint(1, 9), ' '.join(' '.join(map(str, r)) for r in w)))
        L.append('mbuild r t %s %s 1' % (rng.choice(['sca', 'arr', 'hyb']), rng.choice(['min', 'cap', 'cut'])))
    elif x < .4 and A == 2:
        root2, rows2 = gen.table(rng, A, rng.randint(2, nm), wm, style=st, pz=.1, po=.1, pskip=.2)
        L += [gen.tab_line('u', root2, rows2)]
        f = rng.choice(['and', 'or', 'int', 'uni'])
        L.append('op_%s r %s 1 %s t u' % (f, f, rng.choice(['ii', 'av', 'vi'])))
    else:
        L.append(g.build('r', 't', rng.choice(KINDS), 1))
    if rng.random() < .6:
        L += ['red r ' + rng.choice('qbz')]
    if rng.random() < .45:
        root2, rows2 = gen.table(rng, A, rng.randint(2, nm), max(2, wm // 2), style=rng.choice(['full', 'rand', 'dup', 'dead']), pz=.1, po=.1, pskip=.2)
        L += [gen.tab_line('u', root2, rows2)]
        if rng.random() < .3:
            w = [[rng.randint(0, 3) for _ in range(A)] for _ in rows2]
            L.append('wts u %d %s' % (rng.randint(1, 9), ' '.join(' '.join(map(str, r)) for r in w)))
            L.append('msubset r u %s %s' % (rng.choice(['sca', 'arr', 'hyb']), rng.choice(['min', 'cap', 'cut'])))
        else:
            k = rng.choice(['i0', 'i1', 'eq', 'vec'])
            L.append('subset%s r u %s' % (gen.FAMILY(k), k))
        if rng.random() < .6:
            L.append('red r ' + rng.choice('qbz'))
    if rng.random() < .4:
        L.append('eval r 1')
    return L


def longedges(rng, n, w, near=.6):
    """edges over many levels, and dead nodes"""
    rows, by = [], {}
    for i in range(1, n + 1):
        by[i] = list(range(len(rows) + 2, len(rows) + 2 + (1 if i == n else w)))
        for _ in by[i]:
            if i == 1:
                rows.append([1] + rng.choice([[0, 0], [0, 1], [1, 0], [1, 1]]))
            elif i < n - 2 and rng.random() < .2:
                rows.append([i, 0, 0])
            else:
                rows.append([i] + [rng.choice(by[i - 1 if rng.random() < near else rng.randint(1, i - 1)]) for _ in range(2)])
    return len(rows) + 1, rows


def ladder(rng, n, w):
    """every assignment, with several nodes on every level"""
    rows, by = [], {0: [1]}
    for i in range(1, n + 1):
        by[i] = list(range(len(rows) + 2, len(rows) + 2 + (1 if i == n else w)))
        for _ in by[i]:
            rows.append([i] + [rng.choice(by[i - 1]) for _ in range(2)])
    return len(rows) + 1, rows


def check(c):
    # the algorithm, in every interleaving
    c.model('MpBuild', 'MpBuild1')
    c.model('MpBuild', 'MpBuild2')
    if c.thorough:
        c.model('MpBuild', 'MpBuild3')
        c.model('MpBuild', 'MpBuild4')
        c.model('MpReduce', 'MpReduce3')
    c.model('MpReduce', 'MpReduce1')
    c.model('MpReduce', 'MpReduce2')
    # the code, under imposed schedules
    feats = {2: [1, 2, 3, 4, 5, 7, 10, 11, 12, 13, 15], 3: [1, 2, 3, 4, 5, 15]}
    try:
        b = c.core('sched', [2, 3], feats, flags=('-O1', '-fopenmp', '-fsanitize=thread'), extra=[('vpomp.cpp', ['-DVP_PLAIN'])], ldflags=[], libs=['-lpthread'])
        how = 'deterministic OpenMP runtime with preemption at memory accesses'
    except CheckError as e:
        if 'undefined reference' not in str(e):
            raise
        b, how = None, 'libgomp only (the code uses an OpenMP entry point the deterministic runtime does not provide)'
        c.log(how)
    if b:
        for rnd in range(12 if c.thorough else 1):
            g = Gen(c.seed * 1000 + rnd, 'd%d_' % rnd)
            for _ in range(3000 if c.thorough else 2200):
                A = g.rng.choice([2, 2, 2, 3])
                shape = g.rng.choice([(3, 3), (5, 4), (6, 6), (4, 12)] if A == 2 else [(3, 3), (4, 5)])
                g.case(A, session(g, A, shape, g.rng.choice([2, 2, 3, 3, 4, 5, 8])), sched=g.rng.randint(1, 10 ** 9))
            # edges over many levels and dead nodes: the sweeper depends on what the threads report
            for _ in range(3000 if c.thorough else 1500):
                root, rows = longedges(g.rng, g.rng.randint(6, 10), g.rng.randint(5, 10))
                L = ['thr %d' % g.rng.choice([2, 3, 4]), gen.tab_line('t', root, rows), g.build('r', 't', 'i0', 1)]
                if g.rng.random() < .4:
                    root, rows = longedges(g.rng, g.rng.randint(6, 10), g.rng.randint(2, 4))
                    L += [gen.tab_line('u', root, rows), 'subsetA r u i0']
                g.case(2, L, sched=g.rng.randint(1, 10 ** 7) * 10 + g.rng.choice([2, 3, 4, 4, 5, 7, 8, 8, 8, 8]))
            for _ in range(3000 if c.thorough else 2200):
                n = g.rng.randint(6, 8)
                root, rows = ladder(g.rng, n, g.rng.randint(3, 8))
                L = ['thr %d' % g.rng.choice([2, 2, 3, 4]), gen.tab_line('t', root, rows), g.build('r', 't', 'i0', 0), 'mp r 1']
                root, rows = longedges(g.rng, n, g.rng.randint(4, 8), .5)
                g.case(2, L + [gen.tab_line('u', root, rows), 'subsetA r u i0'], sched=g.rng.randint(1, 10 ** 7) * 10 + g.rng.choice([4, 4, 4, 4, 4, 8, 2]))
            # the same session under many schedules
            for _ in range(12):
                L = session(g, 2, (4, 4), g.rng.choice([2, 3]))
                for k in range(60 if c.thorough else 25):
                    g.case(2, L, sched=g.rng.randint(1, 10 ** 9))
            t = c.record(b, g.cases, 'sched%d' % rnd)
            c.validate(t, binary=b, cases=g.cases, name='sched%d' % rnd, heap='12g', retag=lambda p: None)
        g = Gen(c.seed * 77 + 5, 'D')
        for _ in range(60 if c.thorough else 12):
            A = g.rng.choice([2, 2, 3])
            g.case(A, session(g, A, (8, 60) if A == 2 else (6, 30), g.rng.choice([2, 3, 6])), sched=g.rng.randint(1, 10 ** 9))
        t = c.record(b, g.cases, 'schedbig')
        c.validate(t, binary=b, cases=g.cases, name='schedbig', env={'MODE': 'big'}, heap='12g', retag=lambda p: None)
    # the code on the real OpenMP runtime, and without OpenMP
    b2 = c.core('omp', [2, 3], feats)
    b3 = c.core('noomp', [2, 3], {2: [1, 2, 3, 4, 5, 7, 10, 15], 3: [1, 2, 3, 4, 5, 15]}, flags=('-O1',))
    for rnd in range(6 if c.thorough else 1):
        g = Gen(c.seed * 1000 + 500 + rnd, 'r%d_' % rnd)
        for _ in range(2500 if c.thorough else 1500):
            A = g.rng.choice([2, 2, 3])
            shape = g.rng.choice([(3, 3), (5, 4), (6, 6), (4, 12)] if A == 2 else [(3, 3), (4, 5)])
            g.case(A, session(g, A, shape, g.rng.choice([1, 2, 3, 5, 8, 13, 16])))
        t = c.record(b2, g.cases, 'real%d' % rnd)
        c.validate(t, binary=b2, cases=g.cases, name='real%d' % rnd, heap='12g', retag=lambda p: None)
        if b3:
            cs = [x for x in g.cases[::1 if c.thorough else 3] if not any(l.startswith(('op_or', 'op_int', 'op_uni')) for l in x[1])]
            t = c.record(b3, cs, 'noomp%d' % rnd)
            c.validate(t, binary=b3, cases=cs, name='noomp%d' % rnd, heap='12g')
    c.notes['schedules'] = how
    c.notes['bounds'] = ('algorithm: all interleavings of 2-3 threads and tasks on small tables; code: seeded schedules of 2-8 threads '
                         'with preemption at every memory access, and 1-16 threads of the real runtime')
