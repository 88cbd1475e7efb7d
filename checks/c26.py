"""C26: conversion to and from SAPPOROBDD."""
import json, os, random
import gen
from vlib import Violation

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N = 8


def table(rng, hi, lo=0):
    """a table between levels lo + 1 and hi"""
    m = hi - lo
    root, rows = gen.table(rng, 2, m, rng.randint(1, 4), pz=rng.choice([.05, .2, .4]), po=rng.choice([.05, .15, .3]), pskip=rng.choice([0, .15, .5]),
                           style=rng.choice(gen.STYLES), top=rng.choice([m, m, m, rng.randint(0, m)]))
    return root, [[r[0] + lo] + list(r[1:]) for r in rows]


def check(c):
    fl = ['-O1', '-g', '-fopenmp', '-std=c++14', '-ftrivial-auto-var-init=pattern', '-I' + os.path.join(HERE, 'harness', 'sapporo')]
    b = c.cxx([('sapporo.cpp', [])], 'sapporo', fl)
    for rnd in range(8 if c.thorough else 1):
        rng = random.Random(c.seed * 1000 + rnd)
        cases = []

        def case(L):
            cid = 's%d_%d' % (rnd, len(cases))
            cases.append((cid, ['case ' + cid] + L))

        def session(small=None):
            hi = rng.randint(1, 6)
            root, rows = table(rng, hi)
            L = [gen.tab_line('t', root, rows)]
            plain = rng.random() < .5
            v = rng.choice([0, 0, 1, 3, 6])
            if v:
                L.append('vars ' + ' '.join(str(k if plain else rng.randint(1, k)) for k in range(1, v + 1)))
            okb, okz = [], []
            for k in range(rng.choice([1, 2, 3])):
                x = rng.random()
                if small is not None and k == 0:
                    root, rows, off = small[0], small[1], rng.choice([0, 0, 1, 3, -1])
                elif x < .5:
                    off = rng.choice([0, 0, 0, 1, 2, 4])
                    root, rows = table(rng, rng.randint(1, min(6, N - off)))
                else:
                    lo = rng.randint(1, 4)
                    root, rows = table(rng, rng.randint(lo, 7), lo)
                    off = -rng.choice([lo, lo, lo, 1, lo + 1, lo + 2, -1])
                nm, r = 't%d' % k, 'r%d' % rng.randint(0, 2)
                L.append(gen.tab_line(nm, root, rows))
                if rng.random() < .5:
                    low = any(q[0] + off < 1 for q in rows)
                    how = rng.choice(['-', 'p', 'p'] if not low else ['-']) + rng.choice(['', 'b', 'q', 'qb'])
                    L.append('tob %s %s %d %s' % (r, nm, off, how))
                    if not low:
                        okb.append(r)
                else:
                    L.append('toz %s %s %d %s' % (r, nm, off, rng.choice(['-', 'p']) + rng.choice(['', 'z', 'q', 'qz'])))
                    okz.append(r)
            for _ in range(rng.choice([1, 2, 3])):
                z = rng.random() < .5
                ok = okz if z else okb
                if not ok:
                    continue
                # a family over variables in another order than their levels: see the known finding below
                off = rng.choice([0, 0, 1, 2] if plain or not z or not v else [0])
                how = rng.choice(['build', 'build', 'subset', 'and', 'or', 'look', 'unr'])
                if hi > N - off:
                    how = 'build'
                L.append('from%s %s %s %d %s %s' % ('z' if z else 'b', rng.choice(ok), rng.choice(ok), off, how, N - off if how == 'unr' else 't'))
            case(L)
        if rnd == 0:
            sm = list(gen.all_small(2, 2, 2))
            for root, rows in (sm if c.thorough else rng.sample(sm, min(len(sm), 400))):
                session((root, rows))
        for _ in range(6000 if c.thorough else 2500):
            session()
        t = c.record(b, cases, 'sap%d' % rnd)
        c.validate(t, module='Sapporo', binary=b, cases=cases, name='sap%d' % rnd, heap='12g', timeout=850)
    # known finding: SapporoZdd with an offset loops when variables and levels are numbered differently
    kf = [('kf1', ['case kf1', gen.tab_line('t', 3, [[1, 0, 1], [2, 1, 2]]), 'vars 1 1', 'toz r t 0 -', 'fromz r r 1 build t'])]
    t = c.record(b, kf, 'kf')
    ev = json.loads(open(t).readline())['ev']
    if ev[-1]['err'] != 'the package is called forever':
        r = c.tlc('Sapporo', env={'TRACE': t}, name='known-finding')
        if not r['ok']:
            raise Violation('SapporoZdd with an offset and reordered variables', t)
        c.gone.add('sapporozdd-offset-order')
    c.notes['bounds'] = 'tables of up to 7 levels, offsets -7 to 4, any order of variables; SAPPOROBDD replaced by a stand-in with its conventions'
    c.assumptions.append('SAPPOROBDD itself is not available: harness/sapporo/{BDD,ZBDD}.h keep its interface; handles, calling threads and calls are counted')
