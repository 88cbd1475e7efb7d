"""C25: the CNF applications answer with exactly the models of the formula."""
import concurrent.futures as cf
import itertools, json, os, random, re
import graphs, texts
from vlib import REPO

NODE = re.compile(r'^  "(\d+):(\d+)" \[label="((?:\([^)]*\))*)"\];$')
PIC = re.compile(r'^  c(\d+)_(\d+) \[label="([+-])(\d+)",')
NUM = re.compile(r'^  c(\d+)_0 \[label="(\d+)",shape=none\];$')
MAP = re.compile(r'^  c(\d+)_(\d+) -> c(\d+)_(\d+) \[color=navy\];$')


def run(c, bins, k, r):
    e = {'app': r['app'], 'out': r['out'], 'sorted': r['sorted'], 'err': False, 'badcli': bool(r.get('bad')), 'crash': '', 'nvar': -1, 'nclause': -1, 'nsol': -1, 'ndist': -1,
         'list': [], 'd': {'ok': False, 'root': 0, 'nodes': []}, 'states': [], 'levels': [], 'pic': [], 'map': [], 'opts': ' '.join(r['opts'])}
    files, stdin = ['-'], r['text'].encode()
    if not r['stdin']:
        p = os.path.join(c.work, 'f%d.cnf' % k)
        with open(p, 'w') as f:
            f.write(r['text'])
        files, stdin = [p], None
    of = os.path.join(c.work, 'o%d.txt' % k)
    if r['out'] == 'list':
        files.append('-' if r['tostd'] else of)
    rc, so, se = c.run_bin([bins[r['app']]] + graphs.spoil(r.get('bad'), r['opts'], files, c.work), 60, env={'OMP_NUM_THREADS': '2', 'ASAN_OPTIONS': 'detect_leaks=0'}, stdin=stdin, mem_gb=None, cli=True)
    so, se = so.decode('utf8', 'replace'), se.decode('utf8', 'replace')
    if not r['stdin']:
        os.remove(files[0])
    if r['out'] == 'list' and not r['tostd'] and os.path.exists(of):
        so = open(of).read()
        os.remove(of)
    if rc not in (0, 1) or 'Sanitizer' in se or 'CUDD stand-in' in se:
        e['crash'] = '%s %s' % (rc, ' '.join(se.split()[-60:])[:400])
        return e
    e['err'] = rc == 1
    if e['err']:
        return e
    m = re.search(r'#var = (\d+), #clause = (\d+)\n', se)
    if m:
        e['nvar'], e['nclause'] = int(m.group(1)), int(m.group(2))
    m = re.search(r'#solution = (\d+)\n', se)
    if m:
        e['nsol'] = int(m.group(1))
    m = re.search(r'\n *#clause = (\d+)\n', se)
    if m:
        e['ndist'] = int(m.group(1))
    if r['out'] == 'list':
        for ln in so.split('\n')[:-1]:
            e['list'].append([int(x) if re.match(r'^[+-]\d+$', x) else 0 for x in ln.split(' ')])
    elif r['out'] in ('bdd', 'states'):
        e['d'] = strip(texts.dot(so, 2, r['title']))
    elif r['out'] in ('clauses', 'ztdd'):
        g = texts.dot(so, 3, r['title'])
        e['d'] = strip(g)
        e['levels'] = [[int(b), a] if re.match(r'^\d+$', b) else [0, a] for a, b in g['levels']] if r['out'] == 'clauses' else []
        if r['out'] == 'clauses' and g['ok']:
            lab = {}
            for ln in so.split('\n'):
                m = NODE.match(ln)
                if m and not ln.startswith('  "0:'):
                    lab[int(m.group(1)), int(m.group(2))] = [[int(x) for x in cl.split()] for cl in re.findall(r'\(([^)]*)\)', m.group(3))]
            e['states'] = [lab[k] for k in sorted(lab)]
            if len(lab) != len(g['nodes']):
                e['d']['ok'] = False
    elif r['out'] == 'cnf':
        pic = {}
        for ln in so.split('\n'):
            m = NUM.match(ln)
            if m and m.group(1) == m.group(2):
                pic.setdefault(int(m.group(1)), [])
            m = PIC.match(ln)
            if m and m.group(2) == m.group(4):
                pic.setdefault(int(m.group(1)), []).append(int(m.group(3) + m.group(4)))
            m = MAP.match(ln)
            if m and m.group(2) == m.group(4):
                e['map'].append([int(m.group(2)), int(m.group(1)), int(m.group(3))])
        e['pic'] = [pic.get(j + 1, []) for j in range(max(pic) if pic else 0)]
    return e


def strip(g):
    return {'ok': g['ok'], 'root': g['root'], 'nodes': g['nodes']}


def formula(rng, nv):
    """-> (nv, nc, integers after the header)"""
    x = rng.random()
    nc = rng.randint(1, 9)
    cl = []
    for _ in range(nc):
        k = rng.choice([1, 2, 2, 3, 3, 4])
        if x < .3:                       # clauses over neighbouring variables: short frontiers, equal remainders
            a = rng.randint(1, nv)
            vs = [min(nv, a + i) for i in range(k)]
        else:
            vs = [rng.randint(1, nv) for _ in range(k)]
        cl.append([rng.choice([-1, 1]) * v for v in vs])
        if cl and rng.random() < .15:    # repeated, or with a common end
            cl[-1] = list(rng.choice(cl))
            rng.shuffle(cl[-1])
        elif rng.random() < .2:
            cl[-1] = cl[-1][:1] + rng.choice(cl)[-2:]
    if rng.random() < .02:               # nothing but tautologies
        cl = [[v, -v] for v in (rng.randint(1, nv) for _ in cl)]
    toks = []
    for c in cl:
        toks += c + [0]
        if rng.random() < .05:
            toks.append(0)               # an empty clause is skipped
    y = rng.random()
    if y < .02:
        nc += 1
    elif y < .04:
        nc -= 1
    elif y < .05:
        toks.insert(rng.randint(0, len(toks)), nv + rng.randint(1, 3))
    elif y < .055:
        nv, nc = rng.choice([(0, nc), (nv, 0)])
    return nv, nc, toks


def text(rng, nv, nc, toks):
    s = ''.join('c comment %d\n' % rng.randint(0, 99) for _ in range(rng.randint(0, 2))) + 'p cnf %d %d\n' % (nv, nc)
    for t in toks:
        s += str(t) + (rng.choice(['\n', '\n', ' ', '  ']) if t == 0 else rng.choice([' ', ' ', ' ', '\n']))
    return s


CB = [('list', [], ''), ('none', [], ''), ('bdd', ['-dump'], 'BDD'), ('states', ['-dd0'], 'dd0'), ('states', ['-dd1'], 'dd1'), ('cnf', ['-cnf'], '')]
CZ = [('list', [], ''), ('none', [], ''), ('bdd', ['-dump'], 'BDD'), ('clauses', ['-dd0'], 'CNF'), ('ztdd', ['-dd1'], 'ZTDD'), ('ztdd', ['-dd2'], 'ZTDD')]


def request(rng, small=None):
    if small is not None:
        nv, nc, toks = small
    else:
        nv, nc, toks = formula(rng, rng.randint(1, 7))
    app = rng.choice(['bdd', 'bdd', 'ztdd'])
    out, opts, title = rng.choice(CB if app == 'bdd' else CZ)
    opts = list(opts)
    srt = False
    if app == 'bdd':
        if rng.random() < .3:
            srt = True
            opts.append('-s')
        x = rng.random()
        if x < .2:
            opts.append('-n')
        elif x < .35:
            opts.append('-b')
        elif x < .6:
            opts += ['-limit', str(rng.choice([0, 1, 2, 3, 5, 9]))]
        if rng.random() < .3:
            opts.append('-c')
        rng.shuffle(opts) if '-limit' not in opts else None
    return {'app': app, 'out': out, 'opts': opts, 'title': title, 'sorted': srt, 'stdin': rng.random() < .5, 'tostd': rng.random() < .6,
            'nv': nv, 'nc': nc, 'toks': toks, 'text': text(rng, nv, nc, toks),
            'bad': rng.choice(['option', 'files', 'nofile', 'missing']) if rng.random() < .03 else ''}


def check(c):
    cudd = ['-I' + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness', 'cudd')]
    fl = ['-O1', '-g', '-fsanitize=address', '-ftrivial-auto-var-init=pattern'] + cudd
    A = os.path.join(REPO, 'apps')
    bins = {'bdd': c.cxx([(A + '/cnfbdd/cnfbdd.cpp', []), (A + '/cnfbdd/CnfToBdd.cpp', [])], 'cnfbdd', fl),
            'ztdd': c.cxx([(A + '/cnf2ztdd2bdd/cnf2ztdd2bdd.cpp', []), (A + '/cnf2ztdd2bdd/CnfToZtdd.cpp', [])], 'cnf2ztdd2bdd', fl)}
    for rnd in range(10 if c.thorough else 1):
        rng = random.Random(c.seed * 1000 + rnd)
        reqs = []
        if rnd == 0:                     # every formula of up to three clauses over two variables (a third of them in quick runs)
            lits = [[1], [-1], [2], [-2], [1, 2], [1, -2], [-1, 2], [-1, -2], [1, -1]]
            for n in (1, 2, 3):
                for cs in itertools.product(lits, repeat=n):
                    if n == 3 and rng.random() > (1 if c.thorough else .3):
                        continue
                    reqs.append(request(rng, (2, n, [x for q in cs for x in q + [0]])))
        reqs += [request(rng) for _ in range(6000 if c.thorough else 2200)]
        with cf.ThreadPoolExecutor(8) as ex:
            evs = list(ex.map(lambda k: run(c, bins, k, reqs[k]), range(len(reqs))))
        tp = os.path.join(c.work, 'cnf%d.ndjson' % rnd)

        def rec(k, e):
            r = reqs[k]
            return json.dumps({'id': 'f%d' % k, 'A': 2, 'nv': r['nv'], 'nc': r['nc'], 'toks': r['toks'], 'text': r['text'], 'ev': [e]}) + '\n'
        with open(tp, 'w') as f:
            for k, e in enumerate(evs):
                f.write(rec(k, e))
        c.log('ran the commands %d times' % len(reqs))

        def rerun(rc, tp):
            k = int(rc['id'][1:])
            with open(tp, 'w') as f:
                f.write(rec(k, run(c, bins, k, reqs[k])))
            return tp
        c.validate(tp, module='Cnf', name='cnf%d' % rnd, rerun=rerun, heap='10g')
    c.notes['bounds'] = 'formulas of up to 9 clauses over up to 7 variables, every combination of the options; CUDD replaced by a stand-in with its conventions'
    c.assumptions.append('CUDD itself is not available: apps are built against harness/cudd/cudd.h, which keeps its interface, variable order and complement edges')
