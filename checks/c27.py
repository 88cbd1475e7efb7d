"""C27: the graphillion_example command reports exactly the subgraphs it was asked for."""
import concurrent.futures as cf
import json, os, random, re
import gen, graphs, texts
from c14 import reachable
from c23 import digits
from vlib import REPO, Violation

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EDGE = re.compile(r'^  "v?(\d+)"--"v?(\d+)"(\[[^\]]*\])?;$')
VERT = re.compile(r'^  "v?(\d+)"(\[.*\])?;$')
DEFAULT = [[1, 2], [1, 3], [1, 4], [2, 4], [2, 5], [3, 4], [3, 6], [4, 5], [4, 6], [4, 7], [5, 7], [6, 7]]


def dumps(text):
    res = []
    for ln in text.split('\n'):
        if ln.startswith('graph'):
            res.append(([], []))
        m = EDGE.match(ln)
        if m and res:
            res[-1][0].append((int(m.group(1)), int(m.group(2)), m.group(3) or ''))
        m = VERT.match(ln)
        if m and res and 'fill' in (m.group(2) or ''):
            res[-1][1].append(int(m.group(1)))
    return res


def run(c, binary, wd, k, r):
    ld = {'op': 'gload', 'k': r['k'], 'lines': r['lines'], 'hasg': r['groups'] is not None, 'groups': r['groups'] or [], 'colored': r['colored'], 'err': False}
    e = dict(op='gcli', err=False, badcli=bool(r.get('bad')), nv=-1, ne=-1, ncol=-1, c=[-4], cx=[-1], d={'root': 0, 'nodes': []}, lib=-1, sets=[], nsets=0, edges=[], nedges=0, filled=[],
             base={'root': r['base'][0], 'nodes': r['base'][1]}, **{x: r[x] for x in ('path', 'matching', 'spanning', 'noloop', 'uec', 'lb', 'ub', 'st', 'import', 'out', 'max')})
    files = []
    for ext, t in (('g', r['text']), ('t', r['gtext'])):
        if t is not None:
            p = os.path.join(wd, '%d.%s' % (k, ext))
            with open(p, 'w') as f:
                f.write(t)
            files.append(p)
    rc, so, se = c.run_bin([binary] + graphs.spoil(r.get('bad'), r['opts'], files, wd), 60, env={'OMP_NUM_THREADS': '2', 'ASAN_OPTIONS': 'detect_leaks=0'}, stdin=r['itext'].encode(), mem_gb=None, cli=True)
    for p in files:
        os.remove(p)
    so, se = so.decode('utf8', 'replace'), se.decode('utf8', 'replace')
    if rc not in (0, 1) or 'Sanitizer' in se:
        e['crash'] = '%s %s' % (rc, se[-500:])
        return [ld, e]
    e['err'] = rc == 1
    m = re.search(r'#vertex = (\d+), #edge = (\d+), #color = (\d+)\n', se)
    if m:
        e['nv'], e['ne'], e['ncol'] = map(int, m.groups())
    if e['err']:
        return [ld, e]
    cnt = re.findall(r'#solution = (\S+)', se)
    if cnt:
        e['c'] = digits(cnt[0])
    if '-count' in r['opts']:
        e['cx'] = digits(cnt[1]) if len(cnt) > 1 else [-5]
    if '-sapporo' in r['opts'] and r['out'] != 'graph':
        m = re.search(r'ToZBDD \.\.\.(?:\n\s*\S*)? <?(\d+)', se)
        e['lib'] = int(m.group(1)) if m else -7
    if r['out'] == 'graph':
        g = dumps(so)
        if len(g) == 1:
            e['edges'] = [[u, v] for u, v, _ in g[0][0]]
            e['nedges'] = len(g[0][0])
            e['filled'] = g[0][1]
    elif r['out'] == 'solutions':
        for g, _ in dumps(so):
            e['sets'].append([[u, v] for u, v, s in g if 'bold' in s])
            if len(g) != e['ne'] or any(('bold' in s) == ('dotted' in s) for _, _, s in g):
                e['nsets'] -= 1000
        e['nsets'] += len(e['sets'])
    elif r['out'] in ('zdd', 'export'):
        g = texts.sap(so) if r['out'] == 'export' else texts.dot(so, 2, 'ZDD')
        e['d'] = {'root': g['root'], 'nodes': g['nodes']} if g['ok'] else {'root': -1, 'nodes': []}
    return [ld, e]


def gen_run(rng):
    r = dict(k='edges', text=None, groups=None, gtext=None, colored=[], base=(0, []), itext='', max=0)
    if rng.random() < .05:
        es, r['lines'], r['colored'] = DEFAULT, DEFAULT, [2, 3]
    else:
        if rng.random() < .3:
            es = graphs.grid(*rng.choice([(2, 2), (2, 3), (3, 2), (2, 4), (1, 5)]))[:10]
        else:
            es = graphs.rand_graph(rng, rng.randint(2, 7), rng.randint(1, 9), connected=rng.random() < .8)[:9]
        es = [tuple(e) for e in es]
        if rng.random() < .4:
            r['k'] = 'adj'
            nv = max(v for e in es for v in e)
            lines = [[] for _ in range(nv)]
            for u, v in es:
                lines[u - 1].append(v)
                if rng.random() < .3:
                    lines[v - 1].append(u)
            if rng.random() < .02:
                lines = [[]]
            es = []
            for i, ln in enumerate(lines):
                for v in ln:
                    if (i + 1, v) not in es and (v, i + 1) not in es:
                        es.append((i + 1, v))
        else:
            lines = [list(e) if rng.random() < .5 else list(e)[::-1] for e in es]
            if rng.random() < .2:
                lines.insert(rng.randint(0, len(lines)), list(rng.choice(lines)))
            if rng.random() < .1:
                lines.insert(rng.randint(0, len(lines)), [])
            if rng.random() < .02:
                lines[-1] = lines[-1][:1] if rng.random() < .5 else lines[-1] + [1]
            if rng.random() < .01:
                lines = []
        r['lines'] = lines
        r['text'] = ''.join(' '.join(map(str, ln)) + '\n' for ln in lines)
        vs = sorted({v for e in es for v in e})
        if rng.random() < .5 and vs:
            g = [[] for _ in range(rng.randint(1, 3))]
            for v in vs:
                if rng.random() < .4:
                    rng.choice(g).append(v)
            if rng.random() < .3:
                g[-1] = rng.sample(vs, 2)
                g = [[v for v in x if v not in g[-1]] for x in g[:-1]] + [g[-1]]
            if rng.random() < .03:
                g[0].append(99)
            r['groups'] = g
            r['gtext'] = ''.join(' '.join(map(str, x)) + '\n' for x in g)
    for x, p in (('path', .35), ('matching', .2), ('spanning', .25), ('noloop', .25), ('st', .2)):
        r[x] = rng.random() < p
    o = [['-' + x] for x in ('path', 'matching', 'spanning', 'noloop', 'st') if r[x]]
    for x, p in (('uec', .3), ('lb', .25), ('ub', .25)):
        r[x] = -1
        if rng.random() < p:
            r[x] = rng.choice([0, 1, 1, 2, 3]) if x == 'uec' else rng.randint(0, len(es) + 1)
            o.append(['-' + x, str(r[x])])
    if rng.random() < .3:
        o.append(['-nola'])
    if rng.random() < .3:
        o.append(['-count'])
    if rng.random() < .3:
        o.append(['-sapporo'])
    if r['k'] == 'adj':
        o.append(['-a'])
    n = len({frozenset(e) for e in es})
    r['import'] = False
    if n and rng.random() < .25:
        root, rows = gen.table(rng, 2, n, rng.randint(1, 4), pz=.15, po=.15, pskip=rng.choice([0, .2]), style=rng.choice(['rand', 'full', 'dup']), top=rng.choice([n, n, rng.randint(1, n)]))
        if root >= 2:
            root, rows = reachable(root, rows)
            if rows and rows[0][0] == 1:      # otherwise: see the known finding below
                r['import'] = True
                r['base'] = (root, rows)
                r['itext'] = dump(rng, n, rows)
                o.append(['-import'])
    r['out'] = rng.choice(['none', 'zdd', 'zdd', 'export', 'solutions', 'solutions', 'solutions', 'graph'])
    if r['out'] == 'solutions':
        r['max'] = rng.choice([0, 1, 2, 5, 1000])
        o.append(['-solutions', str(r['max'])])
    elif r['out'] != 'none':
        o.append(['-' + r['out']])
    rng.shuffle(o)
    r['opts'] = [x for y in o for x in y]
    if rng.random() < .03:               # a command line that cannot be understood
        r['bad'] = rng.choice(['option', 'option', 'value', 'dash', 'files', 'missing', 'missing2'])
    return r


def dump(rng, n, rows):
    """Graphillion's text of a ZDD over the edges 1..n"""
    ref = lambda x: 'BT'[x] if x < 2 else str(x * 2)
    ls = ['%d %d %s %s' % (2 * (k + 2), n - q[0] + 1, ref(q[1]), ref(q[2])) for k, q in enumerate(rows)]
    if rng.random() < .5:
        rng.shuffle(ls)
    return '\n'.join(ls) + '\n.\n'


def check(c):
    app = os.path.join(REPO, 'apps/graphillion')
    b = c.cxx([(os.path.join(app, 'graphillion_example.cpp'), [])], 'graphillion_example',
              ['-O1', '-g', '-fopenmp', '-std=c++11', '-fsanitize=address', '-ftrivial-auto-var-init=pattern', '-I' + os.path.join(HERE, 'harness', 'sapporo')])
    wd = os.path.join(c.work, 'in')
    os.makedirs(wd)
    for rnd in range(8 if c.thorough else 1):
        rng = random.Random(c.seed * 1000 + rnd)
        runs = [gen_run(rng) for _ in range(5000 if c.thorough else 2500)]
        with cf.ThreadPoolExecutor(8) as ex:
            evs = list(ex.map(lambda k: run(c, b, wd, k, runs[k]), range(len(runs))))
        for k, e in enumerate(evs):
            if 'crash' in e[1]:
                evs[k] = run(c, b, wd, k, runs[k])
                if 'crash' in evs[k][1]:
                    rp = os.path.join(c.replay_dir(), 'run.json')
                    json.dump(dict(runs[k], status=evs[k][1]['crash']), open(rp, 'w'))
                    raise Violation('graphillion_example %s ends abnormally (%s)' % (' '.join(runs[k]['opts']), evs[k][1]['crash']), rp)
        c.log('ran the command %d times (%d refused)' % (len(runs), sum(e[1]['err'] for e in evs)))
        tp = os.path.join(c.work, 'cli%d.ndjson' % rnd)

        def rec(k, e):
            return json.dumps({'id': 'cli%d' % k, 'A': 2, 'opts': ' '.join(runs[k]['opts']), 'files': [runs[k]['text'] or '', runs[k]['gtext'] or '', runs[k]['itext']], 'ev': e}) + '\n'
        with open(tp, 'w') as f:
            for k, e in enumerate(evs):
                f.write(rec(k, e))

        def rerun(rc, tp):
            k = int(rc['id'][3:])
            with open(tp, 'w') as f:
                f.write(rec(k, run(c, b, wd, k, runs[k])))
            return tp
        c.validate(tp, module='Graphs', name='cli%d' % rnd, rerun=rerun, heap='12g', timeout=850)
    # known finding: an imported family that does not use the last edge is read one level too low
    kf = dict(k='edges', text='1 2\n2 3\n', lines=[[1, 2], [2, 3]], groups=None, gtext=None, colored=[], base=(2, [[2, 1, 1]]), itext='4 1 T T\n.\n', max=0, path=False, matching=False,
              spanning=False, noloop=False, uec=-1, lb=-1, ub=-1, st=False, out='zdd', opts=['-import', '-zdd'])
    kf['import'] = True
    ev = run(c, b, wd, 0, kf)
    tp = os.path.join(c.work, 'kf.ndjson')
    with open(tp, 'w') as f:
        f.write(json.dumps({'id': 'kf', 'A': 2, 'ev': ev}) + '\n')
    if c.tlc('Graphs', env={'TRACE': tp}, name='known-finding')['ok']:
        c.gone.add('graphillion-last-item')
    elif ev[1].get('d') != {'root': 2, 'nodes': [[1, 1, 1]]}:
        raise Violation('import of a family without the last edge', tp)
    c.notes['bounds'] = 'graphs of up to 10 edges (the built-in one: 12), every option, random imported families'
    c.assumptions.append('-sapporo runs on a stand-in for SAPPOROBDD (harness/sapporo)')
