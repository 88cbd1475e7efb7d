"""C22: the N-queens application and the specifications it is made of."""
import itertools, json, os, random, re
import gen, texts
from vlib import REPO

HOW = ['b', 'br', 'p', 'pr', 's', 'sr', 't', 'tr']


def cli(c, binary, n, opts):
    """one run of the command -> event"""
    rc, so, se = c.run_bin([binary] + ['-' + o for o in opts] + [str(n)], 120, env={'OMP_NUM_THREADS': '2'}, cli=True)
    e = {'op': 'dqueen' if 'colored' in opts and 'colored1' not in opts else 'cqueen' if 'colored1' in opts else 'queen',
         'n': n, 'f': -1, 'err': '', 'hasd': False, 'c': -1, 'opts': ' '.join(opts)}
    if rc != 0:
        e['err'] = 'exit status %s' % rc
        return e
    if 'noreport' not in opts:
        m = re.search(rb'#solution = (\S+)', se)
        if not m or not re.match(rb'^\d+$', m.group(1)):
            e['err'] = 'no number of solutions'
            return e
        e['c'] = int(m.group(1))
    elif b'#solution' in se + so:
        e['err'] = 'report printed'
    if 'dump' in opts:
        g = texts.dot(so.decode('utf8', 'replace'), 2, '')
        if not g['ok']:
            e['err'] = 'not a diagram'
            return e
        e['hasd'], e['d'] = True, {'root': g['root'], 'nodes': g['nodes']}
    elif so.strip():
        e['err'] = 'unexpected output'
    return e


def check(c):
    inc = ['-I' + os.path.join(REPO, 'apps')]
    app = os.path.join(REPO, 'apps/ddqueens')
    b = c.cxx([('queens.cpp', [])], 'queens', ['-O1', '-fopenmp', '-std=c++14'] + inc)
    q = c.cxx([(os.path.join(app, 'ddqueens.cpp'), [])], 'ddqueens', ['-O1', '-fopenmp'] + inc)
    # the command, every combination of options
    rng = random.Random(c.seed)
    names = ['colored', 'colored1', 'sat', 'rook', 'p', 'dump', 'noreport']
    runs = []
    for n in range(1, 9):
        for k in range(len(names) + 1):
            for o in itertools.combinations(names, k):
                if ('colored' in o or 'colored1' in o) and n > 5 and not (n == 6 and k < 3):
                    continue
                if n >= 4 and len(o) > 2 and rng.random() > (1 if c.thorough else .3):
                    continue
                runs.append((n, list(o)))
    runs += [(7, ['colored1']), (7, ['colored1', 'p']), (7, ['colored']), (7, ['colored', 'p', 'dump'])]
    tp = os.path.join(c.work, 'cli.ndjson')
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(8) as ex:
        evs = list(ex.map(lambda r: cli(c, q, *r), runs))
    with open(tp, 'w') as f:
        for k, e in enumerate(evs):
            f.write(json.dumps({'id': 'cli%d' % k, 'A': 2, 'ev': [e]}) + '\n')
    c.log('ran the command %d times' % len(runs))

    def rerun(rec, tp):
        k = int(rec['id'][3:])
        rec['ev'] = [cli(c, q, *runs[k])]
        with open(tp, 'w') as f:
            f.write(json.dumps(rec) + '\n')
        return tp
    c.validate(tp, module='Queens', name='cli', rerun=rerun, heap='10g')
    # the specifications
    for rnd in range(8 if c.thorough else 1):
        rng = random.Random(c.seed * 1000 + rnd)
        cases = []

        def case(L):
            cid = 'q%d_%d' % (rnd, len(cases))
            cases.append((cid, ['case ' + cid] + L))
        if rnd == 0:
            for n in range(1, 9 if c.thorough else 8):
                for f in range(-1, n):
                    for how in (HOW if n < 6 else ['b', 'pr', 's', 'tr']):
                        case(['queen %d %d %s' % (n, f, how)])
                        if n <= 6:
                            case(['rook %d %d %s' % (n, f, how)])
            for n in range(1, 6):
                for how in HOW:
                    case(['cqueen %d %s' % (n, how)])
                    if n < 5:
                        case(['crook %d %s' % (n, how)])
            for n in range(1, 6):
                for m in range(1, 7):
                    if (n + 1) ** m > 3000:
                        continue
                    case(['nary %d %d %s' % (n + 1, m, rng.choice(HOW)), 'onehot %d %d %s' % (n, m, rng.choice(HOW))])
        for _ in range(6000 if c.thorough else 3000):
            m = rng.randint(1, 5)
            k = rng.randint(1, {1: 6, 2: 5, 3: 4, 4: 3, 5: 2}[m])
            L, ts = [], []
            for i in range(rng.randint(1, k)):
                root, rows = gen.table(rng, 2, m, rng.randint(1, 4), pz=rng.choice([.05, .2, .4]), po=rng.choice([.02, .1, .3]),
                                       pskip=rng.choice([0, .15, .5]), style=rng.choice(gen.STYLES), top=rng.choice([m, m, m, rng.randint(0, m)]))
                nm = rng.choice('RT') + str(i)
                L.append(gen.tab_line(nm, root, rows))
                ts.append(nm)
            pick = [rng.choice(ts) for _ in range(k)]
            arg = '= %s %d' % (pick[0], k) if rng.random() < .2 else ' '.join(pick)
            L.append('inter %d %s %s' % (m, rng.choice(HOW), arg))
            L.append('colored %d %s %s' % (m, rng.choice(['b', 'br', 'p', 'pr']), arg))
            L.append('interpos %s %s %d %d' % (rng.choice(HOW), pick[0], k, rng.randrange(k)))
            case(L)
        t = c.record(b, cases, 'spec%d' % rnd)
        c.validate(t, module='Queens', binary=b, cases=cases, name='spec%d' % rnd, heap='12g', timeout=850)
    c.notes['bounds'] = 'boards of up to 8x8 (colourings 5x5, one 7x7), every first column, every option; random components of up to 5 levels'
