"""C21: the containers under the diagrams behave as the abstract data types they are documented to be."""
import random


class S:
    def __init__(self, rng, cid, kind, n, v):
        self.rng, self.cid, self.n = rng, cid, n
        self.L = ['case %s %s %d %d' % (cid, kind, n, v)]

    def op(self, o, a=0, b=0, x=0, y=0, q=()):
        self.L.append('%s %d %d %d %d %s' % (o, a + 1, b + 1, x, y, ' '.join(map(str, q))))

    def done(self):
        for i in range(self.n):
            self.op('see', i, i)
        return self.cid, self.L


def vec(rng, cid):
    n = rng.randint(1, 3)
    s = S(rng, cid, 'vec', n, rng.randint(0, 4))
    sz = [0] * n
    big = rng.choice([4, 8, 40])
    for _ in range(rng.randint(5, 30)):
        a, b = rng.randrange(n), rng.randrange(n)
        o = rng.choice(['new', 'newv', 'copy', 'asg', 'std', 'swap', 'rsv', 'init', 'rsz', 'rsz', 'er1', 'er1', 'er2', 'er2', 'clr', 'pop', 'set', 'back', 'eq', 'hash', 'it'] + ['push'] * 8 + ['pusho'] * 3)
        x = rng.randint(0, big)
        if o == 'new':
            x = rng.choice([-1, x])
            s.op(o, a, x=x)
            sz[a] = max(0, x)
        elif o == 'newv':
            s.op(o, a, x=x, y=rng.randint(1, 9))
            sz[a] = x
        elif o == 'copy':
            if a == b:
                continue
            s.op(o, a, b)
            sz[a] = sz[b]
        elif o == 'asg':
            s.op(o, a, b)
            sz[a] = sz[b]
        elif o == 'std':
            q = [rng.randint(0, 9) for _ in range(rng.choice([0, 1, 3, x]))]
            s.op(o, a, x=rng.randint(0, 1), q=q)
            sz[a] = len(q)
        elif o == 'swap':
            s.op(o, a, b)
            sz[a], sz[b] = sz[b], sz[a]
        elif o == 'rsv':
            s.op(o, a, x=x)
        elif o in ('init', 'rsz'):
            x = rng.choice([x, sz[a], max(0, sz[a] - 1), sz[a] + 1])
            s.op(o, a, x=x)
            sz[a] = x
        elif o == 'er1':
            if sz[a]:
                s.op(o, a, x=rng.randrange(sz[a]))
                sz[a] -= 1
        elif o == 'er2':
            i, j = sorted((rng.randint(0, sz[a]), rng.randint(0, sz[a])))
            if sz[a]:
                s.op(o, a, x=i, y=j)
                sz[a] -= j - i
        elif o == 'clr':
            s.op(o, a)
            sz[a] = 0
        elif o == 'push':
            s.op(o, a, x=rng.randint(0, 9))
            sz[a] += 1
        elif o == 'pusho':
            if sz[a]:
                s.op(o, a, x=rng.randrange(sz[a]))
                sz[a] += 1
        elif o == 'pop':
            s.op(o, a)
            sz[a] = max(0, sz[a] - 1)
        elif o == 'set':
            if sz[a]:
                s.op(o, a, x=rng.randrange(sz[a]), y=rng.randint(1, 9))
        elif o == 'back':
            if sz[a]:
                s.op(o, a, x=rng.randint(0, 1))
        elif o == 'it':
            if sz[a]:
                s.op(o, a)
        else:
            if rng.random() < .5 and a != b:
                s.op('asg', a, b)
                sz[a] = sz[b]
                if sz[a] and rng.random() < .6:
                    s.op('set', a, x=rng.randrange(sz[a]), y=rng.randint(1, 9))
            s.op(o, a, b)
    return s.done()


def hashed(rng, cid, kind):
    n = rng.randint(1, 3)
    s = S(rng, cid, kind, n, rng.randint(0, 2 if kind == 'tab' else 1))
    keys = rng.choice([6, 30, 400])
    used = [1]
    for _ in range(rng.choice([10, 25, 60])):
        a, b = rng.randrange(n), rng.randrange(n)
        o = rng.choice(['new', 'copy', 'asg', 'mov', 'clr', 'ini', 'reh'] + ['add'] * 12 + ['put'] * 5 + ['get'] * 6)
        x = rng.choice([-1, 0, 1, 2, 8, 9, 12, 50])
        if o == 'new':
            s.op(o, a, x=x, y=rng.randint(0, 3))
        elif o in ('copy', 'reh'):
            if o == 'copy' and a == b:
                continue
            s.op(o, a, b, x=x)
        elif o == 'mov':
            if a != b:
                s.op(o, a, b)
        elif o == 'ini':
            s.op(o, a, x=max(0, x))
        elif o in ('add', 'put', 'get'):
            x = rng.choice(used) if rng.random() < (.7 if o == 'get' else .2) else rng.randint(1, keys)
            used.append(x)
            s.op(o, a, x=x, y=rng.randint(1, 99))
        else:
            s.op(o, a, b, x=rng.randint(0, 1))
    return s.done()


def lists(rng, cid, kind):
    n = rng.randint(1, 3)
    s = S(rng, cid, kind, n, rng.randint(0, 5 if kind == 'list' else 2))
    sz = [0] * n
    wide = rng.random() < .4
    for _ in range(rng.choice([8, 20, 50])):
        a, b = rng.randrange(n), rng.randrange(n)
        o = rng.choice(['all'] * 8 + ['pop'] * 4 + ['clr', 'asg', 'copy', 'see'] * (1 if rng.random() < .4 else 0))
        y = rng.randint(0, 1)
        if o == 'all':
            m = rng.choice([1, 1, 1, 2, 3, 7, 12]) if wide else 1
            s.op(o, a, x=rng.randint(0, 1), y=y, q=[rng.randint(1, 100) for _ in range(m)])
            sz[a] += 1
        elif o == 'pop':
            if sz[a]:
                s.op(o, a, y=y)
                sz[a] -= 1
        elif o == 'clr':
            s.op(o, a, y=y)
            sz[a] = 0
        elif o in ('asg', 'copy'):
            if a == b:
                continue
            s.op(o, a, b, y=y)
            if sz[b] == 0:
                sz[a] = 0
        else:
            s.op(o, a, y=y)
    return s.done()


def pool(rng, cid):
    n = rng.randint(1, 3)
    s = S(rng, cid, 'pool', n, 0)
    big = rng.choice([.05, .3])
    for _ in range(rng.choice([6, 14, 26])):
        a, b = rng.randrange(s.n), rng.randrange(s.n)
        o = rng.choice(['all'] * 9 + ['reu'] * 2 + ['clr', 'spl', 'grow', 'rsv', 'mov'])
        if o == 'all':
            if rng.random() < big:
                x = rng.choice([39992, 40000, 40001, 40008, 41000, 60000, 399992, 400000, 450000])
            else:
                x = rng.choice([1, 7, 8, 9, 24, 100, 4000, 30000, 39992, 40000])
            y = rng.randint(0, 3)
            s.op(o, a, x=max(1, x // 8) if y == 1 else x, y=y)
        elif o in ('spl', 'mov'):
            if a != b:
                if o == 'mov':
                    s.op('clr', a)
                s.op(o, a, b)
        elif o == 'grow':
            s.op(o, a, x=1)
            s.n += 1
        else:
            s.op(o, a, x=rng.randint(1, 2))
    return s.done()


def bits(rng, cid):
    n = rng.randint(1, 3)
    v = rng.choice([1, 2, 3, 64, 128, 192])
    s = S(rng, cid, 'bit', n, v)
    m = 64 * v if v < 64 else v
    edge = [x for x in (0, 1, 31, 32, 62, 63, 64, 65, 126, 127, 128, 190, 191) if x < m]
    for _ in range(rng.choice([8, 25, 60])):
        a, b = rng.randrange(n), rng.randrange(n)
        o = rng.choice(['add'] * 10 + ['rem'] * 3 + ['pull'] * 3 + ['has'] * 3 + ['meet', 'eq', 'hash', 'see'] * 2 + ['clr'] + (['asg'] if v < 64 else []))
        x = rng.choice(edge) if rng.random() < .5 else rng.randrange(m)
        s.op(o, a, b, x=x)
    return s.done()


def small(rng, cid):
    n = rng.randint(1, 3)
    v = rng.choice([2, 4, 9, 101, 103, 106])
    s = S(rng, cid, 'small', n, v)
    cap = v - 100 if v > 100 else 99
    val = [set() for _ in range(n)]
    cps = [cap] * n
    for _ in range(rng.choice([8, 25, 50])):
        a, b = rng.randrange(n), rng.randrange(n)
        o = rng.choice(['add'] * 10 + ['rem'] * 3 + ['has'] * 2 + ['meet', 'meetq', 'equ', 'equq', 'con', 'conq', 'eq', 'hash', 'clr'] + (['asg'] if v < 100 else ['from']))
        x = rng.randint(0, 12)
        q = sorted(set(rng.randint(0, 12) for _ in range(rng.randint(0, 5))))
        if rng.random() < .3:
            q = sorted(val[a] | (set(rng.sample(q, 1)) if q and rng.random() < .4 else set()))
        if o == 'add':
            if v > 100 and x not in val[a] and len(val[a]) >= cps[a]:
                continue           # the caller promised at most that many elements
            if v > 100 or len(val[a]) < v - 1:
                val[a].add(x)
        elif o == 'rem':
            val[a].discard(x)
        elif o == 'clr':
            val[a] = set()
        elif o == 'asg':
            val[a] = set(val[b])
        elif o == 'from':
            q = [rng.randint(0, 12) for _ in range(rng.randint(1, 8))]
            val[a] = set(q)
            cps[a] = len(q)
        s.op(o, a, b, x=x, q=q)
    return s.done()


def dtab(rng, cid):
    n = rng.randint(1, 2)
    s = S(rng, cid, 'dtab', n, 0)
    t = [[] for _ in range(n)]
    for _ in range(rng.choice([8, 20])):
        a, b = rng.randrange(n), rng.randrange(n)
        o = rng.choice(['new', 'copy', 'asg', 'init'] + ['rows', 'row', 'col', 'col', 'set', 'set'] * 3)
        x = rng.randint(0, 5)
        if o in ('new', 'init'):
            t[a] = [0] * x
            s.op(o, a, x=x)
        elif o in ('copy', 'asg'):
            if a == b and o == 'copy':
                continue
            t[a] = list(t[b])
            s.op(o, a, b)
        elif o == 'rows':
            t[a] = t[a][:x] + [0] * (x - len(t[a]))
            s.op(o, a, x=x)
        elif t[a]:
            i = rng.randrange(len(t[a]))
            if o == 'row':
                t[a][i] = rng.randint(0, 4)
                s.op(o, a, x=i, y=t[a][i])
            elif o == 'col':
                t[a][i] += 1
                s.op(o, a, x=i)
            elif t[a][i]:
                s.op(o, a, x=i, y=rng.randint(1, 9), q=[rng.randrange(t[a][i])])
    return s.done()


def ranges(rng, cid):
    s = S(rng, cid, 'range', 1, 0)
    for _ in range(30):
        lo = rng.choice([0, 1, 3, rng.randint(0, 50), -rng.randint(1, 9)])
        hi = rng.choice([lo - 1, lo, lo + rng.randint(0, 30)])
        q = [lo, hi, rng.choice([1, 1, 2, 3, 7])][:rng.randint(0, 3)]
        x = rng.choice([lo - 1, lo, lo + 1, hi, hi + 1, rng.randint(-5, 60), 0])
        s.op('in', x=x, q=q)
    return s.cid, s.L


def big_vec(rng, cid):
    n = rng.randint(1, 2)
    s = S(rng, cid, 'vec', n, rng.randint(0, 4))
    sz = [0] * n
    for _ in range(6):
        a, b = rng.randrange(n), rng.randrange(n)
        o = rng.choice(['pushn', 'pushn', 'rsz', 'er2', 'asg', 'copy', 'rsv', 'init', 'clr'])
        x = rng.randint(0, 1500)
        if o == 'pushn':
            s.op(o, a, x=x, y=rng.randint(0, 100))
            sz[a] += x
        elif o in ('rsz', 'init'):
            s.op(o, a, x=x)
            sz[a] = x
        elif o == 'er2':
            i, j = sorted((rng.randint(0, sz[a]), rng.randint(0, sz[a])))
            if sz[a]:
                s.op(o, a, x=i, y=j)
                sz[a] -= j - i
        elif o == 'rsv':
            s.op(o, a, x=x * 3)
        elif o == 'clr':
            s.op(o, a)
            sz[a] = 0
        elif a != b:
            s.op(o, a, b)
            sz[a] = sz[b]
    return s.done()


def big_hashed(rng, cid, kind):
    n = rng.randint(1, 2)
    s = S(rng, cid, kind, n, rng.randint(0, 2 if kind == 'tab' else 1))
    tot = [0] * n
    for _ in range(7):
        a, b = rng.randrange(n), rng.randrange(n)
        o = rng.choice(['addn'] * 4 + ['getn'] * 2 + ['copy', 'asg', 'mov', 'clr', 'reh', 'new', 'ini'])
        x = rng.choice([60, 300, 700])
        if o == 'addn':
            if tot[a] + x <= 2000:
                s.op(o, a, x=x, y=rng.randint(1, 3000), q=[rng.choice([1, 1, 2, 5, 16, 311])])
                tot[a] += x
        elif o == 'getn':
            s.op(o, a, x=3000, y=rng.randint(1, 3000))
        elif o in ('copy', 'asg', 'mov'):
            if a != b:
                s.op(o, a, b, x=rng.choice([-1, 1, 40, 4000]))
                tot[a] = tot[b]
                if o == 'mov':
                    tot[b] = 0
        elif o == 'reh':
            s.op(o, a, x=rng.choice([-1, 1, 40, 4000]))
        else:
            s.op(o, a, x=rng.choice([1, 40, 4000]))
            tot[a] = 0
    return s.done()


def big_lists(rng, cid, kind):
    n = rng.randint(1, 2)
    s = S(rng, cid, kind, n, rng.choice([0, 0, rng.randint(0, 5 if kind == 'list' else 2)]))
    sz = [0] * n
    for _ in range(6):
        a = rng.randrange(n)
        o = rng.choice(['alln'] * 3 + ['popn', 'all', 'clr'])
        if o == 'alln':
            x = rng.choice([300, 999, 1000, 1001, 1600])
            if sz[a] + x <= 4000:
                s.op(o, a, x=x, y=rng.randint(0, 1))
                sz[a] += x
        elif o == 'popn':
            x = rng.choice([sz[a], rng.randint(0, sz[a])])
            s.op(o, a, x=x, y=rng.randint(0, 1))
            sz[a] -= x
        elif o == 'all':
            s.op(o, a, q=[rng.randint(1, 100) for _ in range(rng.choice([1, 40, 999, 1000, 1001, 2500]))])
            sz[a] += 1
        else:
            s.op(o, a)
            sz[a] = 0
    return s.done()


def check(c):
    b = c.cxx([('cont.cpp', [])], 'cont', ['-O1', '-std=c++14'])
    bs = c.cxx([('cont.cpp', [])], 'cont-san', ['-O1', '-std=c++14', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'])
    for rnd in range(10 if c.thorough else 1):
        rng = random.Random(c.seed * 1000 + rnd)
        cases = []
        m = 3 if c.thorough else 1
        for f, k in [(vec, 900), (lambda r, i: hashed(r, i, 'tab'), 500), (lambda r, i: hashed(r, i, 'map'), 400), (lambda r, i: lists(r, i, 'list'), 500),
                     (lambda r, i: lists(r, i, 'plist'), 200), (pool, 500), (bits, 500), (small, 500), (dtab, 300), (ranges, 100),
                     (big_vec, 24), (lambda r, i: big_hashed(r, i, 'tab'), 24), (lambda r, i: big_hashed(r, i, 'map'), 20),
                     (lambda r, i: big_lists(r, i, 'list'), 24), (lambda r, i: big_lists(r, i, 'plist'), 10)]:
            for _ in range(k * m):
                cases.append(f(rng, 'k%d_%d' % (rnd, len(cases))))
        t = c.record(bs, cases, 'san%d' % rnd, mem_gb=0, env={'ASAN_OPTIONS': 'detect_leaks=1'})
        c.validate(t, module='Containers', binary=bs, cases=cases, name='san%d' % rnd, heap='12g')
        t = c.record(b, cases, 'plain%d' % rnd)
        c.validate(t, module='Containers', binary=b, cases=cases, name='plain%d' % rnd, heap='12g')
    c.notes['bounds'] = 'random sessions of up to 60 operations on up to 3 objects of each container kind; some sessions with up to 4000 elements per object'
