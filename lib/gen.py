"""Random and exhaustive generation of top-down specifications (tables)."""
import itertools, random


def table(rng, A, n, w, pz=0.25, po=0.15, pskip=0.2, style='rand', top=None):
    """Returns (root, rows); rows sorted by level, ids 2.. ; root level = top or n."""
    top = n if top is None else top
    rows, by = [], {i: [] for i in range(n + 1)}
    nid = 2
    for i in range(1, top + 1):
        if style == 'stateless':
            cnt = 1
        elif i == top:
            cnt = 1
        else:
            cnt = rng.randint(1, w) if style != 'full' else w
        pool = None
        if style == 'dup':
            pool = [None] * rng.randint(1, 3)

        def target():
            x = rng.random()
            if style == 'dead':
                z = pz + (0.45 if i <= 2 else 0.25 if i <= top // 2 else 0.0)
            else:
                z = pz
            if x < z:
                return 0
            if x < z + po:
                return 1
            if i == 1:
                return rng.choice([0, 1])
            lo = i - 1
            if rng.random() < pskip:
                lo = rng.randint(0, i - 1)
            if lo == 0 or not by[lo]:
                return rng.choice([0, 1])
            return rng.choice(by[lo])
        cur = []
        tg = [target() for _ in range(3)] if style == 'dup' else None
        for _ in range(cnt):
            if style == 'dup':
                ch = [rng.choice(tg) for _ in range(A)]
            elif style == 'deadend' and rng.random() < 0.4:
                ch = [0] * A
            elif style == 'red' and rng.random() < 0.5:
                t = target()
                if rng.random() < 0.5:
                    ch = [t] * A
                else:
                    ch = [t] + [0] * (A - 1)
            else:
                ch = [target() for _ in range(A)]
            rows.append([i] + ch)
            cur.append(nid)
            nid += 1
        by[i] = cur
    root = by[top][0] if top >= 1 else rng.choice([0, 1])
    return root, rows


def tab_line(name, root, rows):
    return 'tab %s %d %d %s' % (name, root, len(rows), ' '.join(' '.join(map(str, r)) for r in rows))


def all_small(A, n, w, limit=None, rng=None):
    """All tables with one root at level n and w states at each lower level whose
    targets range over both terminals and every lower state."""
    ids = {}
    nid = 2
    levels = []
    for i in range(1, n + 1):
        cnt = 1 if i == n else w
        ids[i] = list(range(nid, nid + cnt))
        nid += cnt
    slots = []
    for i in range(1, n + 1):
        tg = [0, 1] + [s for k in range(1, i) for s in ids[k]]
        for s in ids[i]:
            for b in range(A):
                slots.append(tg)
    total = 1
    for t in slots:
        total *= len(t)

    def mk(vec):
        rows, k = [], 0
        for i in range(1, n + 1):
            for s in ids[i]:
                rows.append([i] + list(vec[k:k + A]))
                k += A
        return ids[n][0], rows
    if limit is None or total <= limit:
        for vec in itertools.product(*slots):
            yield mk(vec)
    else:
        for _ in range(limit):
            yield mk([rng.choice(t) for t in slots])


KINDS = ['i0', 'i1', 'i2', 'i3', 'i4', 'eq', 'vec', 'ac4', 'ac7', 'ac9', 'as4', 'as5', 'al4', 'hc1', 'hc3', 'hi1', 'hi4', 'hl1', 'hl2']
FAMILY = lambda k: 'C' if k[0] == 'h' else 'B' if (k == 'vec' or k[0] == 'a') else 'A'
KINDS_D = ['i0', 'i4', 'i1', 'i4', 'vec', 'eq', 'ac4', 'ac6', 'hi1', 'hi3']
STYLES = ['rand', 'full', 'dead', 'dup', 'deadend', 'red']


def rand_table(rng, A, nmax, wmax, nmin=0, styles=STYLES):
    n = rng.randint(nmin, nmax)
    w = rng.randint(1, wmax)
    return table(rng, A, n, w, pz=rng.choice([0.05, 0.2, 0.4]), po=rng.choice([0.02, 0.1, 0.3]),
                 pskip=rng.choice([0.0, 0.15, 0.5]), style=rng.choice(styles))
