"""C23: the ddpaths command reports exactly the subgraphs it was asked for."""
import concurrent.futures as cf
import itertools, json, os, random, re
import graphs, texts
from vlib import REPO


def digits(s):
    """decimal text -> little-endian base-10000 digits"""
    if not re.match(r'^\d+$', s):
        return [-3]
    v = []
    while s:
        v.append(int(s[-4:]))
        s = s[:-4]
    while v and v[-1] == 0:
        v.pop()
    return v


EDGE = re.compile(r'^  "(\d+)"--"(\d+)"(\[[^\]]*\])?;$')


def dumps(text):
    """graph dumps -> list of [(u, v, attributes)]"""
    res = []
    for ln in text.split('\n'):
        if ln.startswith('graph'):
            res.append([])
        m = EDGE.match(ln)
        if m and res:
            res[-1].append((int(m.group(1)), int(m.group(2)), m.group(3) or ''))
    return res


def leaving_orders(lines):
    """vertex numberings by leaving order (every choice among ties)"""
    es = []
    for k, ln in enumerate(lines):
        for v in ln:
            e = (k + 1, v)
            if e not in es and e[::-1] not in es:
                es.append(e)
    last = {}
    for a, (u, v) in enumerate(es):
        last[u] = last[v] = a
    groups = []
    for a, (u, v) in enumerate(es):
        g = [x for x in (u, v) if last[x] == a]
        if g:
            groups.append(g)
    ties = [g for g in groups if len(g) == 2]
    if len(ties) > 4:
        return None
    out = []
    for ch in itertools.product(*[[g, g[::-1]] if len(g) == 2 else [g] for g in groups]):
        out.append([v for g in ch for v in g])
    return out


def run(c, binary, wd, k, r):
    ld = {'op': 'load', 'lines': r['lines'], 'hasg': r['groups'] is not None, 'groups': r['groups'] or [], 't': r['t'], 'err': False}
    e = dict(op='cli', t=r['t'], ham=r['ham'], slow=r['slow'], dc=r['dc'], uec=r['uec'], lb=r['lb'], ub=r['ub'], out=r['out'],
             err=False, badcli=bool(r.get('bad')), nv=-1, ne=-1, ncol=-1, c=[-4], cx=[-1], d={'root': 0, 'nodes': []}, sets=[], nsets=0, edges=[], nedges=0, c0=0,
             vns=(leaving_orders(r['lines']) or []) if r['ham'] else [])
    gf = os.path.join(wd, '%d.g' % k)
    with open(gf, 'w') as f:
        f.write(r['text'])
    opts = list(r['opts'])
    stdin = None
    if r['stdin']:
        files = ['-']
        stdin = r['text'].encode()
    else:
        files = [gf]
    if r['groups'] is not None:
        tf = os.path.join(wd, '%d.t' % k)
        with open(tf, 'w') as f:
            f.write(r['gtext'])
        files.append(tf)
    rc, so, se = c.run_bin([binary] + graphs.spoil(r.get('bad'), opts, files, wd), 60, env={'OMP_NUM_THREADS': '2'}, stdin=stdin, cli=True)
    for x in (gf, os.path.join(wd, '%d.t' % k)):
        if os.path.exists(x):
            os.remove(x)
    so, se = so.decode('utf8', 'replace'), se.decode('utf8', 'replace')
    if rc not in (0, 1):
        e['nv'] = -9            # a crash is neither an answer nor a reported error
        e['crash'] = str(rc)
        e['c'] = [-9]
    e['err'] = rc == 1
    m = re.search(r'#vertex = (\d+), #edge = (\d+), max_frontier_size = (\d+)(?:, #color = (\d+))?', se)
    if m:
        e['nv'], e['ne'] = int(m.group(1)), int(m.group(2))
        e['ncol'] = int(m.group(4)) if m.group(4) else -1
    cnt = re.findall(r'#solution = (\S+)', se)
    if cnt:
        e['c'] = digits(cnt[0])
        if 'count' in r['flags']:
            e['cx'] = digits(cnt[1]) if len(cnt) > 1 else [-5]
    if e['err']:
        return [ld, e]
    if r['out'] == 'graph':
        g = dumps(so)
        if len(g) == 1:
            e['edges'] = [[u, v] for u, v, _ in g[0]]
            e['nedges'] = len(g[0])
    elif r['out'] == 'all':
        for g in dumps(so):
            e['sets'].append([[u, v] for u, v, s in g if 'bold' in s])
            if len(g) != e['ne'] or any(('bold' in s) == ('dotted' in s) for _, _, s in g):
                e['nsets'] -= 1000
        e['nsets'] += len(e['sets'])
    elif r['out'] in ('zdd', 'zdd1', 'export'):
        g = texts.sap(so) if r['out'] == 'export' else texts.dot(so, 2, 'Result ZDD' if r['out'] == 'zdd' else 'Intermediate ZDD')
        e['d'] = {'root': g['root'], 'nodes': g['nodes']} if g['ok'] else {'root': -1, 'nodes': []}
    return [ld, e]


def gen_run(rng, big=False):
    t = rng.choice(['path', 'path', 'cycle', 'cc', 'forest'])
    if big:
        es = graphs.grid(*rng.choice([(3, 4), (4, 3), (4, 4), (3, 5), (2, 8)]))
        es = [e for e in es if rng.random() < .95]
    elif rng.random() < .3:
        es = graphs.grid(*rng.choice([(2, 2), (2, 3), (3, 2), (2, 4), (1, 5), (3, 3)]))[:11]
    else:
        nv = rng.randint(2, 7)
        es = graphs.rand_graph(rng, nv, rng.randint(1, 10), connected=rng.random() < .8)
        es = es[:10]
        if t == 'cycle' and rng.random() < .7:
            es = graphs.rand_graph(rng, 5, rng.randint(6, 9))
    both = rng.random() < .5
    nv = max(v for e in es for v in e)
    lines = [[] for _ in range(nv)]
    for u, v in es:
        if rng.random() < .5:
            u, v = v, u
        lines[u - 1].append(v)
        if both:
            lines[v - 1].append(u)
    if rng.random() < .05:
        lines.append([])
    if rng.random() < .02:
        lines = [[] for _ in range(rng.randint(0, 3))]
    sep = lambda: rng.choice([' ', ' ', ' ', '  ', '\t'])
    text = ''.join(rng.choice(['', '', '', ' ']) + ''.join((sep() if i else '') + str(v) for i, v in enumerate(ln)) + rng.choice(['', '', ' ']) + '\n' for ln in lines)
    vs = graphs.verts(es)
    groups = None
    if rng.random() < (.6 if t in ('path', 'cc', 'forest') else .2):
        if t == 'path' or rng.random() < .5:
            k = rng.randint(1, max(1, min(3, len(vs) // 2)))
            pick = rng.sample(vs, 2 * k)
            groups = [pick[2 * i:2 * i + 2] for i in range(k)]
        else:
            k = rng.randint(1, 3)
            groups = [[] for _ in range(k)]
            for v in vs:
                if rng.random() < .5:
                    rng.choice(groups).append(v)
            groups = [g for g in groups if g] or [[vs[0]]]
        x = rng.random()
        if x < .03:
            groups[-1].append(nv + 5)         # no such vertex
        elif x < .06:
            groups.append([rng.choice(vs)])   # not a pair, perhaps
    gtext = ''.join(' '.join(map(str, g)) + '\n' for g in groups or [])
    ncol = len(groups) if groups is not None else 0
    r = dict(t=t, lines=lines, text=text, groups=groups, gtext=gtext, ham=False, slow=False, dc=False, uec=-1, lb=-1, ub=-1, out='none', flags=[],
             stdin=rng.random() < .1)
    o = []
    if t != 'path' or rng.random() < .3:
        o.append(['-t', t])
    if rng.random() < .3 and not (big and t in ('path', 'cycle')):
        r['ham'] = True
        o.append(['-hamilton'])
    if rng.random() < .25 and (t != 'path' or ncol <= 1):
        r['slow'] = True
        o.append(['-slow'])
    if rng.random() < .3:
        o.append(['-nola'])
    if rng.random() < .3:
        r['dc'] = True
        o.append(['-dc'])
    if rng.random() < .3:
        o.append(['-p'])
    if rng.random() < .25:
        o.append(['-nored'])
    if not big:
        if rng.random() < .3:
            r['lb'] = rng.randint(0, len(es) + 1)
            o.append(['-lb', str(r['lb'])])
        if rng.random() < .3:
            r['ub'] = rng.randint(0, len(es) + 1)
            o.append(['-ub', str(r['ub'])])
    if rng.random() < .4:
        u = rng.choice([0, 1, 1, 2, 3])
        o.append(['-uec', str(u)])
        if t in ('cc', 'forest'):
            r['uec'] = u
    if rng.random() < .3:
        r['flags'].append('count')
        o.append(['-count'])
    if not big:
        r['out'] = rng.choice(['none', 'zdd', 'zdd', 'export', 'zdd1', 'all', 'all', 'all', 'graph'] if rng.random() < .9 else ['graph'])
        if r['out'] != 'none':
            o.append(['-' + r['out']])
    rng.shuffle(o)
    r['opts'] = [x for y in o for x in y]
    if rng.random() < .03:               # a command line that cannot be understood
        r['bad'] = rng.choice(['option', 'option', 'value', 'type', 'files', 'nofile', 'missing', 'missing2'])
    if r['ham'] and t in ('path', 'cycle') and leaving_orders(lines) is None:
        return gen_run(rng, big)
    return r


def check(c):
    app = os.path.join(REPO, 'apps/ddpaths')
    b = c.cxx([(os.path.join(app, 'ddpaths.cpp'), [])], 'ddpaths', ['-O1', '-fopenmp', '-std=c++11'])
    wd = os.path.join(c.work, 'in')
    os.makedirs(wd)
    for rnd in range(8 if c.thorough else 1):
        rng = random.Random(c.seed * 1000 + rnd)
        runs = [gen_run(rng) for _ in range(5000 if c.thorough else 2500)]
        runs += [gen_run(rng, True) for _ in range(150 if c.thorough else 50)]
        with cf.ThreadPoolExecutor(8) as ex:
            evs = list(ex.map(lambda k: run(c, b, wd, k, runs[k]), range(len(runs))))
        for k, e in enumerate(evs):
            if 'crash' in e[1]:
                again = run(c, b, wd, k, runs[k])
                if 'crash' in again[1]:
                    from vlib import Violation
                    rp = os.path.join(c.replay_dir(), 'run.json')
                    json.dump(dict(runs[k], status=e[1]['crash']), open(rp, 'w'))
                    raise Violation('ddpaths %s ends abnormally (%s)' % (' '.join(runs[k]['opts']), e[1]['crash']), rp)
                evs[k] = again
        c.log('ran the command %d times (%d refused)' % (len(runs), sum(e[1]['err'] for e in evs)))
        tp = os.path.join(c.work, 'cli%d.ndjson' % rnd)
        with open(tp, 'w') as f:
            for k, e in enumerate(evs):
                f.write(json.dumps({'id': 'cli%d' % k, 'A': 2, 'opts': ' '.join(runs[k]['opts']), 'ev': e}) + '\n')

        def rerun(rec, tp):
            k = int(rec['id'][3:])
            rec['ev'] = run(c, b, wd, k, runs[k])
            rec['files'] = [runs[k]['text'], runs[k]['gtext']]
            with open(tp, 'w') as f:
                f.write(json.dumps(rec) + '\n')
            return tp
        c.validate(tp, module='Graphs', name='cli%d' % rnd, rerun=rerun, heap='12g', timeout=850)
    c.notes['bounds'] = 'random graphs of up to 11 edges, every option; counts on grids of up to 4x4 and 3x5 vertices'
    c.assumptions.append('Hamiltonian runs tolerate exactly the extra members of the known finding hamilton-window (property C17)')
