"""C05: and/or/intersection/union of specifications."""
import gen
import scale
from ses import Gen

F = {'and': 10, 'or': 11, 'int': 12, 'uni': 13}


def args(pat, L, g, nm, wm, style=None, big=None):
    names = []
    for k, ch in enumerate(pat):
        tn = 't%d' % k
        if big:
            l, _ = g.big(tn, 2, g.rng.randint(big[0] - 2, big[0]), g.rng.choice(big[1]), style=g.rng.choice(['full', 'dead']), pz=.03)
        else:
            l, _ = g.tab(tn, 2, nm, wm)
        L.append(l)
        if ch == 'd':
            L.append(g.build('d%d' % k, tn, kinds=['i0', 'eq']))
            if g.rng.random() < .5:
                L.append('red d%d %s' % (k, g.rng.choice('qbz')))
            names.append('d%d' % k)
        else:
            names.append(tn)
    return names


def binary(cases):
    """the sessions with two-operand operations only (all there is before C++11)"""
    return [x for x in cases if not any(l.startswith('op_') and len(l.split()) > 7 for l in x[1])]


def check(c):
    b = c.core('core', [2], {2: [1, 10, 11, 12, 13]})
    for rnd in range(8 if c.thorough else 1):
        g = Gen(c.seed * 1000 + rnd, 's%d_' % rnd)
        rng = g.rng
        if rnd == 0:                     # all ordered pairs of the smallest tables
            tabs = list(gen.all_small(2, 2, 1)) + list(gen.all_small(2, 1, 1)) + [(0, []), (1, [])]
            k = 0
            for i, (r1, t1) in enumerate(tabs):
                L = [gen.tab_line('t', r1, t1)]
                for j, (r2, t2) in enumerate(tabs):
                    f = list(F)[(i + j) % 4]
                    k += 1
                    if k % (1 if c.thorough else 2):
                        continue
                    L += [gen.tab_line('u', r2, t2), 'op_%s r %s %d %s t u' % (f, f, k % 2, ['ii', 'av', 'vi'][k % 3])]
                g.case(2, L)
        for _ in range(9000 if c.thorough else 4000):
            f = rng.choice(list(F))
            pat = rng.choice(['ii', 'jj', 'av', 'vi', 'dd', 'dh', 'ed', 'iav', 'ddd', 'didi'])
            L = []
            n = len(pat)
            nm = 8 if n == 2 else 6
            names = args(pat, L, g, nm, 6 if n == 2 else 4)
            if rng.random() < .1 and pat in ('ii', 'jj', 'dd'):
                names[1] = names[0]      # idempotence
            L.append('op_%s r %s %d %s %s' % (f, f, rng.randint(0, 1), pat, ' '.join(names)))
            if rng.random() < .4:
                L += ['red r ' + rng.choice('qbz'), 'card r']
            g.case(2, L)
        t = c.record(b, g.cases, 'small%d' % rnd)
        c.validate(t, binary=b, cases=g.cases, name='ops-small%d' % rnd, heap='12g')
        c.serial([2], {2: [1, 10, 11, 12, 13]}, binary(g.cases), 'serial%d' % rnd, 4, defs=['-DVP_CXX98'])
    g = Gen(c.seed + 81, 'b')
    for rep in range(16 if c.thorough else 4):
        for f in F:
            L = []
            pat = g.rng.choice(['ii', 'jj', 'av', 'vi', 'dd', 'dh', 'ed'])
            names = args(pat, L, g, 0, 0, big=(16, [4, 12, 40]))
            L += ['op_%s r %s %d %s %s' % (f, f, g.rng.randint(0, 1), pat, ' '.join(names)), 'red r ' + ('b' if f in ('and', 'or') else 'z')]
            g.case(2, L)
    t = c.record(b, g.cases, 'big')
    c.validate(t, binary=b, cases=g.cases, name='ops-big', env={'MODE': 'big'}, heap='14g')
    c.serial([2], {2: [1, 10, 11, 12, 13]}, g.cases, 'serial-big', 3, mode='big', heap='14g')
    c.notes['bounds'] = 'ordered pairs of 60 small tables x 4 operations; random 2-,3-,4-ary operations n<=8; big products'
    scale.run(c, 'C05')
