"""C14: DOT and Sapporo text denote the diagram; Graphillion dumps are read back as written."""
import json
import gen, texts
import scale
from vlib import Violation
from ses import Gen
from c13 import wline


def reachable(root, rows):
    """keeps the rows reachable from the root (what a real ZDD dump contains)"""
    seen, st = set(), [root]
    while st:
        x = st.pop()
        if x >= 2 and x not in seen:
            seen.add(x)
            st += rows[x - 2][1:]
    order = sorted(seen)
    nid = {x: i + 2 for i, x in enumerate(order)}
    nid.update({0: 0, 1: 1})
    return nid[root], [[rows[x - 2][0]] + [nid[y] for y in rows[x - 2][1:]] for x in order]


def check(c):
    b = c.core('core', [2, 3, 4], {2: [1, 4, 15, 16], 3: [1, 4, 15, 16], 4: [1, 4, 16]})
    for rnd in range(8 if c.thorough else 1):
        g = Gen(c.seed * 1000 + rnd, 't%d_' % rnd)
        rng = g.rng
        for _ in range(10000 if c.thorough else 5000):
            A = rng.choice([2, 2, 2, 3, 4])
            nm, wm = rng.choice([(3, 3), (6, 5), (10, 8)])
            line, (root, rows) = g.tab('t', A, nm, wm)
            if rng.random() < .05:
                line, root, rows = 'tab t %d 0' % (rng.randint(0, 1)), 0, []
            L = [line]
            for _ in range(rng.choice([1, 1, 2])):
                L.append('dot t %s T%d %s %s' % (rng.choice(['i0', 'i1', 'vec', 'eq', 'hi1', 'hi3', 'lab', 'lab']), rng.randint(0, 99),
                                                 rng.choice(['no', 'no', 'bl', 'zl']), rng.choice(['str', 'os'])))
            L.append(g.build('r', 't', rng.choice(['i0', 'eq'])))
            if rng.random() < .6:
                L.append('red r ' + rng.choice('qbz'))
            if rng.random() < .3:
                l2, _ = g.tab('u', A, 6, 4)
                L += [l2, 'subsetA r u i0']
            L += ['dot r dd D%d %s os' % (rng.randint(0, 9), rng.choice(['no', 'no', 'zl', 'bl'])), 'dott r X%d' % rng.randint(0, 9)]
            if A == 2:
                L.append('sap r')
                r2, rw2 = reachable(root, rows)
                if rng.random() < .5 and r2 != 1:       # r2 = 1: see the known finding below
                    L += [gen.tab_line('v', r2, rw2), 'gz g v %d %d %s' % (rng.choice([1, 1, 3]), rng.randint(0, 999), rng.choice(['as', 'shuf'])), 'sap g']
            g.case(A, L)
        for _ in range(3000 if c.thorough else 1200):       # merging specifications
            A = rng.choice([2, 2, 3])
            root, rows = gen.table(rng, A, rng.randint(1, 5 if A == 2 else 3), rng.choice([2, 3, 5]), style=rng.choice(['rand', 'dup', 'full']),
                                   pz=.1, po=.15, pskip=rng.choice([0, .3]))
            hi = rng.choice([1, 2, 4])
            L = [gen.tab_line('t', root, rows), wline(rng, rows, A, hi)]
            L += ['mdot M%d t %s %s' % (rng.randint(0, 99), rng.choice(['sca', 'arr', 'hyb']), rng.choice(['min', 'lvl', 'cap', 'cut']))]
            g.case(A, L)
        t = c.record(b, g.cases, 'text%d' % rnd)
        texts.retag(t)
        c.validate(t, binary=b, cases=g.cases, name='text%d' % rnd, env={'MODE': 'big'}, heap='12g', retag=texts.retag)
    # known finding: a Graphillion dump that consists of the line "T" only
    kf = [('kf1', ['case kf1 2', 'tab v 1 0', 'gz g v 1 0 as', 'sap g'])]
    t = c.record(b, kf, 'kf')
    texts.retag(t)
    r = c.tlc('Session', env={'TRACE': t, 'MODE': 'big'}, name='known-finding')
    if r['ok']:
        c.gone.add('graphillion-single-T')
    else:       # the known wrong outcome is the empty family, and nothing else
        ev = json.loads(open(t).readline())['ev']
        if not texts.empty_gz(ev):
            raise Violation('Graphillion dump "T" read as neither {{}} nor the empty family', t)
    c.notes['bounds'] = 'random tables of up to 10 levels and 8 states a level, arity 2-4'
    scale.run(c, 'C14')
