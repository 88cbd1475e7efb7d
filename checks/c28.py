"""C28: progress messages."""
import random

WORDS = ['building', 'Reading', 'x', '7_items', 'two|lines', '~', 'a_b', '_lead', '|next', 'tail|', '9', 'task|']


def session(rng):
    L, alive, opened, nid = [], [], set(), 1
    on = rng.random() < .9
    if on:
        L.append('show 1')
    for _ in range(rng.randint(3, 25)):
        x = rng.random()
        if not alive or x < .12:
            L.append('new %d' % nid)
            alive.append(nid)
            nid += 1
            continue
        h = rng.choice(alive[-2:] if rng.random() < .7 else alive)
        if x < .3:
            L.append('begin %d %s' % (h, rng.choice(WORDS)))
            if on:
                opened.add(h)
        elif x < .5:
            L.append('write %d %s' % (h, rng.choice(WORDS)))
        elif x < .56:
            if h in opened:             # steps without a task have no number
                L.append('steps %d %d' % (h, rng.choice([1, 2, 3, 7, 10, 11, 20, 60, 200])))
        elif x < .76:
            if h in opened:
                L += [('step %d' % h) + (' =' if rng.random() < .1 else '')] * rng.choice([1, 1, 2, 5, 12, 30])
        elif x < .9:
            L.append(rng.choice(['end %d' % h, 'end %d %s' % (h, rng.choice(WORDS)), 'endn %d %d' % (h, rng.choice([0, 5, 123456])),
                                 'endi %d %s %s' % (h, rng.choice(WORDS), rng.choice(WORDS))]))
            opened.discard(h)
        elif x < .93:
            L.append(rng.choice(['clock %d' % rng.choice([1, 4, 5, 9]),
                                 'use %d %d %d' % (rng.choice([0, 1, 2, 7, 17, 18, 43]), rng.choice([0, 1, 3, 10]), rng.choice([0, 100, 1024, 1500, 2000, 70000, 1048576, 3000000]))]))
        elif x < .97:
            L.append('del %d' % h)
            alive.remove(h)
            opened.discard(h)
        elif not opened:                # switched only between tasks
            on = not on
            L.append('show %d' % on)
    return L


def slow_session(rng):
    L = ['show 1', 'new 1', 'begin 1 building']
    L.append('steps 1 %d' % rng.choice([60, 120, 200, 300]))
    for _ in range(rng.randint(2, 6)):
        L += ['step 1'] * rng.choice([1, 10, 49, 50, 51, 70])
        L.append('use %d %d %d' % (rng.choice([0, 1, 19, 20, 21, 43]), rng.choice([0, 3]), rng.choice([100, 1024, 70000])))
        if rng.random() < .15:
            L += ['new 2', 'write 2 x', 'del 2'] if rng.random() < .5 else ['write 1 ' + rng.choice(WORDS)]
    return L + [rng.choice(['end 1', 'endn 1 77', 'del 1'])]


def usage_session(rng):
    L, have = [], []
    for _ in range(rng.randint(3, 20)):
        x = rng.random()
        k = rng.randint(1, 4)
        if x < .25:
            L.append('use %d %d %d' % (rng.choice([0, 1, 2, 7, 401]), rng.choice([0, 1, 3, 10]), rng.choice([0, 100, 1024, 1500, 2000, 70000, 3000000])))
        elif x < .4 or not have:
            L.append('uget %d' % k)
            have.append(k)
        elif x < .55:
            L.append('%s %d %d' % (rng.choice(['uadd', 'usub']), rng.choice(have), rng.choice(have)))
        elif x < .65:
            L.append('%s %d %d %d' % (rng.choice(['usum', 'udif']), k, rng.choice(have), rng.choice(have)))
            have.append(k)
        elif x < .8:
            L.append('uout %d' % rng.choice(have))
        else:
            L.append('%s %d' % (rng.choice(['tstart', 'tstop', 'tout', 'tout', 'treset']), rng.randint(1, 2)))
            if L[-1].startswith('tstop') and L[-1].replace('stop', 'start') not in L:
                L.pop()
    for k in sorted(set(have)):
        L.append('uout %d' % k)
    return L + ['tout 1', 'tout 2']


def check(c):
    b = c.cxx([('msgs.cpp', [])], 'msgs', ['-O1', '-std=c++14', '-ftrivial-auto-var-init=pattern', '-rdynamic'])
    for rnd in range(10 if c.thorough else 1):
        rng = random.Random(c.seed * 1000 + rnd)
        cases = []
        for k in range(20000 if c.thorough else 10000):
            cases.append(('m%d_%d' % (rnd, k), ['case m%d_%d' % (rnd, k)] + (usage_session(rng) if k % 4 == 3 else slow_session(rng) if k % 20 == 1 else session(rng))))
        t = c.record(b, cases, 'msg%d' % rnd, mem_gb=1, timeout=60, single_timeout=20)
        c.validate(t, module='Messages', binary=b, cases=cases, name='msg%d' % rnd, heap='10g')
    c.notes['bounds'] = 'histories of up to 25 steps over any number of handlers; messages switched only while no task is open; delays by a clock of the session'
