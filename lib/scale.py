"""Large instances with known answers (spec/Scale.tla): sessions per property."""
import random


def sessions(prop, rng, thorough):
    """list of (arity, lines)"""
    out = []
    B = rng.randint(0, 1)
    big = [(2, 17, 2), (2, 17, 2), (3, 11, 2), (4, 9, 2)]           # rows of 131071, 177146 and 262143 nodes
    mid = [(2, 13, 3), (2, 14, 2), (3, 8, 2), (4, 6, 3), (2, 11, 3), (3, 6, 3), (2, 10, 2)]
    small = [(2, 5, 3), (2, 3, 3), (3, 3, 3), (2, 6, 2), (4, 3, 3), (2, 2, 3), (2, 8, 3)]
    deep = [(2, 3, 400), (2, 3, 23000), (3, 2, 500)]

    def R(A, p):
        M = A ** p - 1
        return rng.choice([0, 1, M - 1, rng.randrange(M), rng.randrange(M)])

    def build(A, p, m, r='r', kind=None, mp=None, la='-', res=None):
        return 'build %s %d %d %d %s %d %s' % (r, p, m, R(A, p) if res is None else res, kind or rng.choice('iav' if A ** p < 70000 else 'ia'),
                                               rng.randint(0, 1) if mp is None else mp, la)

    def take(L, k):
        return [L[i] for i in sorted(rng.sample(range(len(L)), min(k, len(L))))]
    k = 3 if thorough else 1
    if prop == 'C01':
        for A, p, m in big[1:] + mid + small + deep:
            out.append((A, [build(A, p, m, mp=mp) for mp in (0, 1)]))
    elif prop == 'C02':
        for A, p, m in big[1:] + mid + small + deep[:1]:
            L = [build(A, p, m)]
            for x in rng.sample('qbz', 1 if A ** p > 60000 else 3):
                L += ['copy s r', 'red s %s 0' % x, 'copy t r', 'red t %s 1' % x, 'eq s t']
            out.append((A, L))
        A, p, m = deep[1]
        out.append((A, [build(A, p, m), 'red r %s %d' % (rng.choice('qbz'), B)]))
    elif prop == 'C03':
        for A, p, m in [big[1 + B]] + mid + small + deep[:1]:
            x = rng.choice('qbz')
            a = R(A, p)
            b = rng.choice([a, (a + 1) % (A ** p - 1), R(A, p)])
            out.append((A, [build(A, p, m, res=a), 'red r %s 0' % x, build(A, p, m, 's', res=b), 'red s %s 1' % x, 'eq r s', 'eq s r', 'copy t r', 'eq t r', 'eq t s']))
    elif prop == 'C04':
        for A, p, m in [(2, 16, 2), (3, 10, 2), (4, 8, 2)] + [x for x in mid + small if (x[1] % 2 == 0 or x[1] % 3 == 0) and (x[1] > 3 or x[0] > 2)] + [(2, 4, 200), (2, 4, 4000)]:
            for mp in (0, 1):
                a = R(A, p)
                q = rng.choice([x for x in range(1 if A > 2 else 2, p) if p % x == 0])
                M2 = A ** q - 1
                L = [build(A, p, m, res=a)]
                if rng.random() < .5:
                    L.append('red r %s %d' % (rng.choice('qbz') if A == 2 else rng.choice('qb'), mp))
                form = 'z' if ' z ' in L[-1] and L[-1].startswith('red') else ''
                L.append('sub r %d %d %d %s %d' % (p * m, q, a % M2 if rng.random() < .75 else rng.randrange(M2), rng.choice('ia'), mp))
                L.append('red r %s %d' % ('z' if form else rng.choice('qbz'), mp))
                out.append((A, L))
    elif prop == 'C05':
        for A, p, m in [(2, 13, 2), (2, 13, 3), (2, 10, 3), (2, 6, 2), (2, 5, 3), (2, 3, 3)]:
            for op, form in (('u', 'z'), ('i', 'z'), ('bo', 'b'), ('ba', 'b')):
                a = R(A, p)
                b = rng.choice([a, R(A, p), (a + 1) % (A ** p - 1)])
                L = [build(A, p, m, res=a), build(A, p, m, 's', res=b)]
                if rng.random() < .6:
                    L += ['red r %s 0' % form, 'red s %s 1' % form]
                elif form == 'b':
                    L += ['red r q 0', 'red s q 0']
                L += ['op t %s r s %d' % (op, rng.randint(0, 1)), 'red t %s %d' % (form, rng.randint(0, 1))]
                L.append('card t ' + ('big' if form == 'z' else 'bdd') if a != b or op in ('u', 'bo') else 'eq t r' if 'red r ' + form + ' 0' in L else 'card t big')
                if form == 'b' and L[-1].startswith('card') and op == 'ba' and a != b:
                    L.pop()         # the empty function has no top level to count from
                out.append((A, L))
    elif prop == 'C06':
        for A, p, m in [(2, 15, 2), (2, 13, 3), (2, 10, 2), (2, 5, 3), (2, 3, 3), (2, 3, 300)]:
            for la in 'zb':
                L = [build(A, p, m, la=la), 'red r %s %d' % (la, B)]
                if m <= 3 and la == 'z':
                    L.append('card r big')
                out.append((A, L))
    elif prop == 'C07':
        for A, p, m in [big[1], (3, 10, 2), (4, 8, 2)] + [x for x in mid + small if x[1] * x[2] <= 40]:
            L = [build(A, p, m), 'ends r 0', 'ends r 1']
            if A == 2:
                L += ['red r q 0', 'ends r %d' % B]
            out.append((A, L))
    elif prop == 'C08':
        for A, p, m in big[1:] + mid + small:
            if A ** (p * (m - 1)) > 2 ** 30:
                continue
            L = [build(A, p, m), 'card r big', 'card r int', 'card r dbl']
            if A == 2:
                L += ['card r bdd', 'red r b 1', 'card r bdd']
            L += [build(A, p, m), 'red r z 0', 'card r big', 'card r int']
            out.append((A, L))
    elif prop == 'C09':
        for A, p, m in [(2, 17, 2), (2, 8, 3), (2, 13, 2), (2, 5, 3), (2, 3, 3), (2, 9, 2)]:
            out.append((A, [build(A, p, m)] + (['iter r'] if p <= 5 else []) + ['red r z %d' % B, 'iter r']))
    elif prop == 'C14':
        for A, p, m in [(2, 16, 2), (2, 12, 3), (2, 7, 3), (2, 3, 3), (2, 3, 300)]:
            out.append((A, [build(A, p, m), 'red r z %d' % B, 'sap r']))
    elif prop == 'C15':
        for A, p, m in big[1:] + mid + small:
            if A ** (p * (m - 1)) > 2 ** 30:
                continue
            r = R(A, p)
            for how in ('fast', 'slow', '64') if A ** p < 60000 else (rng.choice(['fast', 'slow']), '64'):
                out.append((A, ['paths %d %d %d %s %s' % (p, m, r, rng.choice('iav'), how)]))
    return out * 1


def run(c, prop):
    b = c.cxx([('scale.cpp', [])] + [('scale.cpp', ['-DSCALE_A=%d' % A]) for A in (2, 3, 4)], 'scale', ['-O1', '-fopenmp', '-std=c++11'])
    for rnd in range(4 if c.thorough else 1):
        rng = random.Random(c.seed * 77 + rnd)
        cases = []
        for k, (A, L) in enumerate(sessions(prop, rng, c.thorough)):
            cid = 'scale%d_%d' % (rnd, k)
            cases.append((cid, ['case %s %d' % (cid, A)] + L))
        t = c.record(b, cases, 'scale%d' % rnd, shards=4, timeout=240)
        c.validate(t, module='Scale', binary=b, cases=cases, name='scale%d' % rnd, heap='4g')
    c.notes['scale'] = 'rows of up to 262143 nodes, up to 69000 levels, answers in closed form (spec/Scale.tla)'
