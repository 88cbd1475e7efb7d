"""C20: big numbers compute exactly."""
import random

B64 = 1 << 64


def interesting(rng, top):
    r = rng.random()
    if r < .25:
        v = rng.choice([0, 1, 2, 9, 10, 11])
    elif r < .7:
        v = (1 << rng.randint(0, 64)) + rng.randint(-2, 2)
    else:
        v = rng.getrandbits(rng.randint(1, 64))
    return max(0, min(v, top))


def free_case(rng, cid, big):
    slots = rng.randint(2, 4)
    mask = 0
    if rng.random() < .25:
        mask = 1 << rng.randrange(slots)
    null = [mask >> i & 1 for i in range(slots)]
    val = [0] * slots
    cap = 63 * 60
    L = ['case %s 0 %d %d' % (cid, slots, mask)]
    live = [i for i in range(slots) if not null[i]]

    def op(name, a, b=0, n=0, k=0):
        L.append('%s %d %d %d %d' % (name, a + 1, b + 1, n, k))
    for _ in range(rng.randint(6, 30 if big else 14)):
        a = rng.randrange(slots)
        b = rng.randrange(slots)
        x = rng.random()
        if x < .15:
            n = interesting(rng, B64 - 1)
            op('st', a, n=n)
            if not null[a]:
                val[a] = n
        elif x < .25:
            op('cp', a, b)
            if not null[a]:
                val[a] = val[b]
        elif x < .5:
            a, b = rng.choice(live), rng.choice(live)
            if max(val[a], val[b]).bit_length() + 1 > cap:
                continue
            op('add', a, b)
            val[a] += val[b]
        elif x < .62:
            n = rng.choice([1, 2, 3, 7, 10, 10, 10, 1000, 1 << 16, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, rng.randint(1, (1 << 32) - 1)])
            op('div', a, n=n)
            if not null[a]:
                val[a] //= n
        elif x < .8:
            a = rng.choice(live)
            k = rng.choice([0, 1, 5, 31, 62, 63, 64, 125, 126, 127, 189, rng.randint(0, 700 if big else 130)])
            if val[a].bit_length() + k > cap:
                continue
            op('shl', a, k=k)
            val[a] <<= k
        elif x < .9:
            nm = rng.choice(['eq', 'ne', 'eqn', 'nen'])
            n = rng.choice([val[b] % B64, val[a] % B64, val[a] % (B64 // 2) + B64 // 2, val[a] % (B64 // 2), interesting(rng, B64 - 1)])
            if rng.random() < .3:
                n ^= 1 << rng.randrange(64)
            op(nm, a, b, n=n)
        else:
            op(rng.choice(['size', 'get', 'str']), a, k=rng.randint(0, 1))
    if len(live) > 2 and rng.random() < .5:        # two numbers differing in one bit only
        i, j, k = rng.sample(live, 3)
        e = rng.randint(0, max(val[i].bit_length(), 1) + 2)
        op('cp', j, i)
        op('st', k, n=1)
        op('shl', k, k=e)
        op('add', j, k)
        op('eq', i, j)
        op('ne', j, i)
        val[j], val[k] = val[i] + (1 << e), 1 << e
    for i in range(slots):
        if not null[i]:
            op('eqn', i, n=val[i] % B64)
            op('nen', i, n=val[i] % (B64 // 2) + B64 // 2)
        op('size', i)
        op('get', i)
        op('eqn', i, n=0)
        op('nen', i, n=0)
        op('str', i, k=i & 1)
        for j in range(slots):
            op(rng.choice(['eq', 'ne']), i, j)
    return cid, L


def fixed_case(rng, cid, w):
    slots = rng.randint(2, 3)
    val = [0] * slots
    L = ['case %s %d %d 0' % (cid, w, slots)]

    def op(name, a, b=0, n=0, k=0):
        L.append('%s %d %d %d %d' % (name, a + 1, b + 1, n, k))
    lim = 1 << (32 * w)
    for _ in range(rng.randint(10, 10 + 30 * w)):
        a, b = rng.randrange(slots), rng.randrange(slots)
        x = rng.random()
        if x < .12:
            n = interesting(rng, (1 << 32) - 1)
            op('st', a, n=n, k=rng.randint(0, 1))
            val[a] = n
        elif x < .2:
            op('cp', a, b)
            val[a] = val[b]
        elif x < .75:
            if rng.random() < .8:
                b = a              # doubling reaches the limit quickly
            if rng.random() < .25:
                op('sum', a, b)
                continue
            op('add', a, b)
            val[a] += val[b]
            if val[a] >= lim:
                n = interesting(rng, (1 << 32) - 1)
                op('st', a, n=n)
                val[a] = n
        elif x < .82:
            if rng.random() < .5:      # operands of full width
                for _ in range(rng.randint(16 * w, 32 * w)):
                    if 2 * val[a] + 3 >= lim or not val[a]:
                        break
                    op('add', a, a)
                    val[a] *= 2
            n = rng.choice([1, 2, 3, 10, 10, 1 << 16, 4294967291, 3000000019, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, rng.randint(1, (1 << 32) - 1)])
            op('div', a, n=n)
            val[a] //= n
        elif x < .92:
            n = rng.choice([val[b] % (1 << 32), val[a] % (1 << 32), val[a] % (1 << 32), interesting(rng, (1 << 32) - 1)])
            op(rng.choice(['eq', 'ne', 'eqn', 'nen']), a, b, n=n)
        else:
            op(rng.choice(['get', 'str']), a, k=rng.randint(0, 1))
    for i in range(slots):
        op('get', i)
        op('str', i, k=i & 1)
        op('eqn', i, n=0)
        for j in range(slots):
            op(rng.choice(['eq', 'ne']), i, j)
    return cid, L


def check(c):
    b = c.cxx([('numbers.cpp', [])], 'numbers', ['-O1', '-std=c++14'])
    bs = c.cxx([('numbers.cpp', [])], 'numbers-san', ['-O1', '-std=c++14', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'])
    for rnd in range(12 if c.thorough else 1):
        rng = random.Random(c.seed * 1000 + rnd)
        cases = []
        if rnd == 0:    # every word boundary, systematically
            for e in (0, 1, 31, 32, 33, 62, 63, 64, 125, 126, 127, 188, 189, 190):
                for d in (1, 2, 10, 3000000000, (1 << 32) - 1):
                    L = ['case e%d_%d 0 3 0' % (e, d), 'st 1 1 1 0', 'shl 1 1 0 %d' % e, 'cp 2 1 0 0', 'st 3 1 %d 0' % (B64 - 1), 'add 3 1 0 0', 'add 2 1 0 0', 'eq 2 1 0 0',
                         'add 1 3 0 0', 'size 1 1 0 0', 'str 1 1 0 0', 'div 1 1 %d 0' % d, 'div 3 3 %d 0' % d, 'str 3 1 0 0', 'eqn 1 1 0 0', 'get 1 1 0 0', 'get 3 1 0 0', 'size 3 3 0 0']
                    cases.append((L[0].split()[1], L))
                L = ['case z%d 0 2 0' % e, 'shl 1 1 0 %d' % e, 'eqn 1 1 0 0', 'eq 1 2 0 0', 'eq 2 1 0 0', 'size 1 1 0 0', 'str 1 1 0 0', 'add 2 1 0 0', 'get 2 1 0 0']
                cases.append((L[0].split()[1], L))
        for k in range(4000 if c.thorough else 1800):
            cases.append(free_case(rng, 'f%d_%d' % (rnd, k), k % 5 == 0))
        for k in range(1500 if c.thorough else 700):
            cases.append(fixed_case(rng, 'x%d_%d' % (rnd, k), rng.choice([1, 2, 2, 3, 5, 9] if k % 4 == 0 else [1, 2, 3])))
        t = c.record(b, cases, 'num%d' % rnd)
        c.validate(t, module='Numbers', binary=b, cases=cases, name='num%d' % rnd, heap='10g')
        t = c.record(bs, cases, 'san%d' % rnd, mem_gb=0, env={'ASAN_OPTIONS': 'detect_leaks=0'})
    c.notes['bounds'] = 'values up to 3780 bits; every 63-bit word boundary; FixedBigNumber<1,2,3,5,9>'
