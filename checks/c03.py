"""C03: operator== decides equality of the represented decision tree."""
import copy
import gen
import scale
from ses import Gen


def mutate(rng, A, root, rows):
    rows = copy.deepcopy(rows)
    if not rows:
        return 1 - root, rows
    k = rng.randrange(len(rows))
    low = [0, 1] + [j + 2 for j, r in enumerate(rows) if r[0] < rows[k][0]]
    rows[k][1 + rng.randrange(A)] = rng.choice(low)
    return root, rows


def unshare(rng, A, root, rows):
    """same decision tree, some states split in two"""
    n = len(rows)
    order = []
    for k, r in enumerate(rows):
        order.append((r[0], k, 0))
        if rng.random() < 0.4 and k + 2 != root:
            order.append((r[0], k, 1))
    order.sort(key=lambda x: (x[0], rng.random()))
    pos = {}
    for i, (_, k, v) in enumerate(order):
        pos.setdefault(k + 2, []).append(i + 2)
    out = []
    for l, k, v in order:
        out.append([l] + [ch if ch < 2 else rng.choice(pos[ch]) for ch in rows[k][1:]])
    return (root if root < 2 else pos[root][0]), out


def check(c):
    b = c.core('core', [2, 3, 4], {A: [1, 2] for A in (2, 3, 4)})
    for rnd in range(8 if c.thorough else 1):
        g = Gen(c.seed * 1000 + rnd, 's%d_' % rnd)
        rng = g.rng
        if rnd == 0:                 # all ordered pairs of the smallest tables, reduced or not
            tabs = list(gen.all_small(2, 2, 1)) + [(0, []), (1, [])]
            for i, (r1, t1) in enumerate(tabs):
                L = [gen.tab_line('t', r1, t1), 'buildA x t i0 0', 'copy xz x', 'red xz z', 'copy xb x', 'red xb b', 'copy xq x', 'red xq q']
                for j, (r2, t2) in enumerate(tabs):
                    if (i * 7 + j) % 3:
                        continue
                    L += [gen.tab_line('u', r2, t2), 'buildA y u i0 1', 'eq x y', 'eq xz y', 'red y ' + 'zbq'[j % 3],
                          'eq xz y', 'eq xb y', 'eq xq y', 'eq x y']
                g.case(2, L)
        for _ in range(9000 if c.thorough else 3500):
            A = rng.choice([2, 2, 3, 4])
            root, rows = gen.rand_table(rng, A, 7 if A == 2 else 5, 6)
            m = rng.random()
            r2, rows2 = (root, rows) if m < .2 else mutate(rng, A, root, rows) if m < .6 else unshare(rng, A, root, rows)
            L = [gen.tab_line('t', root, rows), gen.tab_line('u', r2, rows2),
                 g.build('x', 't', kinds=['i0', 'vec', 'ac4', 'eq']), g.build('y', 'u', kinds=['i0', 'vec', 'ac4', 'eq']), 'eq x y']
            for r in 'xy':
                if rng.random() < .6:
                    L.append('red %s %s' % (r, rng.choice('qbz')))
            L += ['eq x y', 'eq x x', 'copy z x', 'eq z y', 'eq z x']
            if rng.random() < .2:
                L += ['none n', 'eq n x', 'eq n y']
            if rng.random() < .2:
                L += ['univ n %d 0' % rng.randint(0, 5), 'eq n x']
            L += ['dump x', 'dump y']
            g.case(A, L)
        t = c.record(b, g.cases, 'small%d' % rnd)
        c.validate(t, binary=b, cases=g.cases, name='equality-small%d' % rnd, heap='12g')
        c.serial([2, 3, 4], {A: [1, 2] for A in (2, 3, 4)}, g.cases, 'serial%d' % rnd, 4)
    g = Gen(c.seed + 79, 'b')
    for rep in range(16 if c.thorough else 3):
        for A, n, w, style in [(2, 20, 200, 'full'), (2, 5, 2000, 'full'), (2, 200, 5, 'rand'), (3, 9, 150, 'dup')]:
            root, rows = gen.table(g.rng, A, n, w, style=style, pz=.05, po=.02, pskip=.1)
            m = g.rng.random()
            r2, rows2 = mutate(g.rng, A, root, rows) if m < .6 else unshare(g.rng, A, root, rows)
            r = g.rng.choice('qbz')
            g.case(A, [gen.tab_line('t', root, rows), gen.tab_line('u', r2, rows2), g.build('x', 't', 'i0'), g.build('y', 'u', 'i0'),
                       'eq x y', 'red x ' + r, 'red y ' + r, 'eq x y', 'dump x', 'dump y'])
    t = c.record(b, g.cases, 'big')
    c.validate(t, binary=b, cases=g.cases, name='equality-big', env={'MODE': 'big'}, heap='14g')
    c.serial([2, 3, 4], {A: [1, 2] for A in (2, 3, 4)}, g.cases, 'serial-big', 3, mode='big', heap='14g')
    c.notes['bounds'] = 'pairs of small tables (equal, one edge changed, states split), reduced or not, arities 2,3,4; big pairs'
    scale.run(c, 'C03')
