"""C01: construction from a top-down specification."""
import gen
import scale
from ses import Gen, is_stateless


def exhaustive(c, g):
    """every table of a few small shapes, state kinds and builders rotating"""
    kinds = gen.KINDS
    k = 0
    shapes = [(2, 1, 1, None), (2, 2, 1, None), (2, 2, 2, None), (2, 3, 1, None), (3, 1, 1, None), (3, 2, 1, None),
              (2, 3, 2, 6000 if c.thorough else 1200), (3, 2, 2, 3000 if c.thorough else 500)]
    for A, n, w, lim in shapes:
        for root, rows in gen.all_small(A, n, w, lim, g.rng):
            kind = kinds[k % len(kinds)]
            if is_stateless(rows) and k % 5 == 0:
                kind = 'nil'
            g.case(A, [gen.tab_line('t', root, rows), g.build('r', 't', kind, (k // len(kinds)) % 2)])
            k += 1


def random_small(c, g, count):
    for _ in range(count):
        A = g.rng.choice([2, 2, 2, 3, 4, 10])
        nm, wm = {2: (9, 9), 3: (7, 7), 4: (6, 6), 10: (4, 8)}[A]
        line, (root, rows) = g.tab('t', A, nm, wm, styles=gen.STYLES + ['stateless'])
        kinds = gen.KINDS + (['nil'] * 6 if is_stateless(rows) else [])
        L = [line]
        if g.rng.random() < 0.3:
            L.append('thr %d' % g.rng.choice([1, 2, 3, 8]))
        L.append(g.build('r', 't', kinds=kinds))
        if g.rng.random() < 0.2:     # the same specification object kind again, other builder
            L.append(g.build('q', 't', kinds=kinds))
        g.case(A, L)


def big(c, g):
    shapes = [(2, 24, 300, 'full', 0), (2, 24, 300, 'full', 1), (2, 6, 3000, 'full', 0), (2, 5, 3000, 'full', 1),
              (2, 300, 6, 'rand', 0), (2, 300, 6, 'dead', 1), (3, 12, 200, 'full', 0), (3, 12, 200, 'dead', 1),
              (2, 40, 60, 'dead', 0), (2, 40, 60, 'dead', 1), (2, 40, 60, 'deadend', 0), (10, 5, 100, 'full', 1),
              (2, 12, 1000, 'dead', 0), (2, 3, 9000, 'full', 0), (2, 500, 2, 'rand', 1), (4, 9, 150, 'deadend', 0)]
    reps = 4 if c.thorough else 1
    for rep in range(reps):
        for A, n, w, style, mp in shapes:
            kw = {}
            if n == 3:               # very wide levels only
                kw = dict(pz=.3, po=.3, pskip=0)
            line, _ = g.big('t', A, n, w, style=style, **kw)
            ks = ['i0', 'i1' if w <= 300 else 'i3', 'vec', 'ac5', 'hi2', 'eq', 'al4']
            g.case(A, [line, g.build('r', 't', g.rng.choice(ks), mp)])
    for d in range(12, 15):          # a complete fan-out: one state per prefix
        if d > 12 and not c.thorough:
            break
        rows, nxt, base = [], [], 0
        for i in range(1, d + 1):
            cnt = 2 ** (d - i)
            start = len(rows) + 2
            for j in range(cnt):
                rows.append([i] + ([g.rng.randint(0, 1), 1] if i == 1 else [base + 2 * j, base + 2 * j + 1]))
            base = start
        g.case(2, [gen.tab_line('t', len(rows) + 1, rows), g.build('r', 't', g.rng.choice(['i0', 'vec', 'hl2']), d % 2)])


def check(c):
    b = c.core('core', [2, 3, 4, 10], {2: [1, 2, 3], 3: [1, 2, 3], 4: [1, 2], 10: [1, 2]} if False else
               {A: [1, 2, 3] for A in (2, 3, 4, 10)})
    for rnd in range(6 if c.thorough else 1):
        g = Gen(c.seed * 1000 + rnd, 's%d_' % rnd)
        if rnd == 0:
            exhaustive(c, g)
        random_small(c, g, 8000 if c.thorough else 3500)
        t = c.record(b, g.cases, 'small%d' % rnd)
        c.validate(t, binary=b, cases=g.cases, name='construct-small%d' % rnd, heap='12g')
        c.serial([2, 3, 4, 10], {A: [1, 2, 3] for A in (2, 3, 4, 10)}, g.cases, 'serial%d' % rnd, 4)
    g = Gen(c.seed + 77, 'b')
    big(c, g)
    t = c.record(b, g.cases, 'big')
    c.validate(t, binary=b, cases=g.cases, name='construct-big', env={'MODE': 'big'}, heap='12g')
    c.serial([2, 3, 4, 10], {A: [1, 2, 3] for A in (2, 3, 4, 10)}, g.cases, 'serial-big', 3, mode='big', heap='14g')
    c.notes['bounds'] = ('every table of 6 small shapes; random tables n<=9 w<=9, arities 2,3,4,10, 19 state kinds, both '
                         'builders; wide (<=9000 states per level), deep (<=500 levels) tables; complete binary fan-out')
    scale.run(c, 'C01')
