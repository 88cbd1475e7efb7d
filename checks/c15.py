"""C15: path counting and instance search work on the specification itself."""
import gen
import scale
from ses import Gen

KIND = ['i0', 'i1', 'eq', 'vec', 'ac6', 'hi2']


def chain(A, n, jump=0):
    """count grows by a factor A per level; a skip edge of length `jump` from the middle"""
    rows = []
    for i in range(1, n + 1):
        rows.append([i] + [1 if i == 1 else i for _ in range(A)])
    return n + 1, rows


def longskip(rng, A, n, skips):
    """wide fan of nearly full trees with edges of every length between them"""
    rows = []
    for i in range(1, n + 1):
        for v in range(2 if i < n else 1):
            ch = []
            for b in range(A):
                lo = i - 1
                if rng.random() < skips:
                    lo = rng.randint(max(0, i - 130), i - 1)
                ch.append(1 if lo == 0 else 2 + 2 * (lo - 1) + rng.randint(0, 1))
            rows.append([i] + ch)
    return 2 + 2 * (n - 1), rows


def adversarial(A, top, d):
    """the node far below is reached first by one long skip, later by everything else"""
    # levels 1..1: final; level 2..d: full chain; level d+1..: full chain; one edge jumps d levels
    rows = []
    n = top + d
    for i in range(1, n + 1):
        below = 1 if i == 1 else i
        ch = [below] * A
        rows.append([i] + ch)
    # two variants of the level d+1 node so that one of them skips to level 1
    return n + 1, rows


def check(c):
    feats = {2: [1, 9, 14], 3: [1, 9, 14], 5: [1, 9, 14]}
    b = c.core('core', [2, 3, 5], feats, extra=('memtag.cpp',))
    for rnd in range(8 if c.thorough else 1):
        g = Gen(c.seed * 1000 + rnd, 's%d_' % rnd)
        rng = g.rng
        if rnd == 0:
            for A, n, w, lim in [(2, 1, 1, None), (2, 2, 1, None), (2, 2, 2, None), (2, 3, 1, None), (2, 3, 2, 2000), (3, 2, 1, None), (3, 2, 2, 800)]:
                for k, (root, rows) in enumerate(gen.all_small(A, n, w, lim, rng)):
                    g.case(A, [gen.tab_line('t', root, rows), 'pcnt t ' + KIND[k % 4], 'one t %s 4' % KIND[k % 4]])
            for A in (2, 3, 5):
                for r in (0, 1):
                    for k in KIND:
                        g.case(A, ['tab t %d 0 ' % r, 'pcnt t ' + k, 'one t %s 3' % k])
        for _ in range(3000 if c.thorough else 1500):
            A = rng.choice([2, 2, 3, 5])
            l1, _ = g.tab('t', A, 7, 5) if A > 2 or rng.random() < .8 else g.tab('t', A, 11, 4)
            k = rng.choice(KIND)
            L = [l1, 'pcnt t ' + k, 'one t %s 8' % k]
            if rng.random() < .3:
                L += [g.build('r', 't', 'i0'), 'red r ' + rng.choice('qbz'), 'pcnt r dd', 'one r dd 6', 'dump r']
            g.case(A, L)
        t = c.record(b, g.cases, 'small%d' % rnd)
        c.validate(t, binary=b, cases=g.cases, name='count%d' % rnd, heap='12g')
    g = Gen(c.seed + 77, 'b')
    rng = g.rng
    for A in (2, 3, 5):
        for n in (20, 61, 62, 63, 64, 70, 109, 126, 127, 130, 200) + ((320, 500) if c.thorough else ()):
            for p in (0, .02, .1, .5):
                if p == 0:
                    root, rows = chain(A, n)
                else:
                    root, rows = longskip(rng, A, n, p)
                for k in (['i0', 'vec'] if c.thorough else ['i0']):
                    g.case(A, [gen.tab_line('t', root, rows), 'pcnt t ' + k])
    for A, n, w, style in [(2, 8, 60, 'full'), (2, 6, 400, 'full'), (2, 12, 120, 'rand'), (3, 6, 150, 'full'), (5, 4, 100, 'full'),
                           (2, 20, 40, 'dup'), (2, 9, 200, 'dead')]:
        for rep in range(4 if c.thorough else 1):
            line, _ = g.big('t', A, n, w, style=style)
            g.case(A, [line, 'pcnt t ' + rng.choice(['i0', 'i1', 'i3', 'vec', 'hi2'])])
    t = c.record(b, g.cases, 'big', mem_gb=8)
    c.validate(t, binary=b, cases=g.cases, name='count-big', env={'MODE': 'big'}, heap='14g')
    # the same large counts with bounds-checked memory: every byte the counters write is theirs
    bs = c.core('cores', [2, 3], {2: [14], 3: [14]}, flags=('-O1', '-fsanitize=address', '-fno-omit-frame-pointer'))
    sub = [x for x in g.cases if int(x[1][0].split()[2]) in (2, 3)]
    t = c.record(bs, sub, 'asan', mem_gb=0, env={'ASAN_OPTIONS': 'detect_leaks=0'})
    c.validate(t, binary=bs, cases=sub, name='count-asan', env={'MODE': 'big'}, heap='14g')
    c.notes['bounds'] = 'all tables of 7 small shapes; chains and skip networks of up to 200 levels (500 thorough), arities 2,3,5'
    scale.run(c, 'C15')
