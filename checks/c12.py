"""C12: every state object the library makes is used within its life and destroyed exactly once."""
import gen, random
from ses import Gen

UNARY = ['build', 'find', 'dot', 'cnt', 'cntf', 'cnt64', 'subset', 'bl.build', 'zl.build', 'bu.build', 'zu.build', 'bl.find', 'zl.dot', 'bl.dot']
BIN = ['%s.%s' % (o, h) for o in ('and', 'or', 'int', 'uni') for h in ('build', 'find', 'dot', 'cnt')]


def check(c):
    b = c.cxx([('life.cpp', [])] + [('life.cpp', ['-DLIFE_K=' + k, '-DLIFE_A=%d' % A]) for A in (2, 3) for k in ('LScalar', 'LHybrid', 'LOwn')], 'life', ['-O0', '-fopenmp', '-std=c++14'])
    for rnd in range(8 if c.thorough else 1):
        g = Gen(c.seed * 1000 + rnd, 'l%d_' % rnd)
        rng = g.rng
        jobs = []
        for A in (2, 3):
            for kind in ('sca', 'hyb', 'own'):
                for op in UNARY + (BIN if A == 2 else []):
                    for mp in ((0, 1) if op.endswith('build') or op == 'subset' else (0,)):
                        for k in range(60 if c.thorough else 20):
                            jobs.append((A, kind, op, mp))
        for A, kind, op, mp in jobs:
            nm, wm = rng.choice([(4, 3), (6, 5), (6, 5), (9, 8)])
            l1, _ = g.tab('1', A, nm, wm)
            l2, _ = g.tab('2', A, 6, 5)
            if rng.random() < .12:   # terminal roots on either side
                l1 = 'tab 1 %d 0' % rng.randint(0, 1)
            if rng.random() < .12:
                l2 = 'tab 2 %d 0' % rng.randint(0, 1)
            L = [l1, l2, 'run %s %s %d %d %d' % (op, kind, mp, rng.choice([1, 2, 3]), rng.choice([0, 0, 1, 2, 3]))]
            cid = '%s%d' % (g.prefix, len(g.cases))
            g.cases.append((cid, ['case %s %d' % (cid, A)] + L))
        t = c.record(b, g.cases, 'life%d' % rnd)
        c.validate(t, module='Life', binary=b, cases=g.cases, name='life%d' % rnd, heap='10g')
    c.notes['bounds'] = 'all algorithms x 3 state kinds x arity 2,3, tables of up to 6 levels'
