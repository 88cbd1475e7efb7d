"""C16: what a graph reports about itself, along any history of edits, colours and files."""
import graphs
from gcase import GGen, harness


def text_edges(rng, es, bad=None):
    """edge list file; bad = line number to corrupt"""
    out = []
    for k, (a, b) in enumerate(es):
        if rng.random() < .5:
            a, b = b, a
        sp = rng.choice(['_', '_', '~', '__'])
        ln = '%s%d%s%d%s' % (rng.choice(['', '', '_']), a, sp, b, rng.choice(['', '', '_']))
        if bad == k:
            ln = rng.choice(['%d' % a, ln.rstrip('_') + '_7', '%d_' % a])
        out.append(ln)
        if rng.random() < .1:
            out.append('')
    return '|'.join(out) + rng.choice(['|', '|', '', '||'])


def text_adj(rng, nv, p):
    lines = []
    used = set()
    for v in range(1, nv + 1):
        nb = [w for w in range(1, nv + 2) if w != v and rng.random() < p]
        rng.shuffle(nb)
        used.update(nb)
        lines.append(rng.choice(['_', '_', '__']).join(map(str, nb)) + rng.choice(['', '', '_']))
    return '|'.join(lines) + rng.choice(['|', '', '||'])


def text_groups(rng, vs):
    vs = list(vs)
    rng.shuffle(vs)
    lines = []
    while vs and rng.random() < .8:
        k = rng.choice([1, 2, 2, 2, 3])
        lines.append('_'.join(map(str, vs[:k])))
        vs = vs[k:]
        if rng.random() < .1:
            lines.append('')
    return '|'.join(lines) + rng.choice(['|', '', '_|'])


def stdin(rng):
    return ' in' if rng.random() < .3 else ''


def history(g):
    rng = g.rng
    L, es, colored = [], [], set()
    dirty = True
    named = rng.random() < .25           # vertices called other than 1, 2, ...
    if named:
        L.append('prefix ' + rng.choice(['v', 'v', 'node-', '0', '#', 'A.b:', ',']))
    for step in range(rng.choice([1, 2, 3, 5])):
        new = g.some(1, 10, 8)
        x = rng.random()
        if step and x < .35:
            pass
        elif x < .75:
            L += graphs.edge_lines(rng, new, .25)
            es += new
            dirty = True
        elif x < .9:
            if rng.random() < .12:
                L.append('file edges ' + text_edges(rng, new, rng.randrange(len(new))))
                return L                       # refused: nothing is promised afterwards
            L.append('file edges ' + text_edges(rng, new) + stdin(rng))
            es += new
            bad = colored - set(graphs.verts(es))
            dirty = bool(bad)
        elif named:
            pass
        else:
            nv = rng.randint(1, 6)
            t = text_adj(rng, nv, .4)
            L.append('file adj ' + (t or '_') + stdin(rng))
            es = [(k + 1, int(w)) for k, ln in enumerate(t.split('|')) for w in ln.replace('_', ' ').split()]
            colored = set()
            dirty = False
        vs = graphs.verts(es)
        for _ in range(rng.choice([0, 1, 2, 3, 4])):
            if not vs:
                break
            v = rng.choice(vs) if rng.random() < .97 else 991
            L.append('%s %d %d' % (rng.choice(['color', 'colorn']), v, rng.randint(0, 2) if rng.random() < .8 else rng.randint(0, 4000)))
            colored.add(v)
            dirty = True
        y = rng.random()
        if y < .15 and vs and not named:
            L.append('file groups ' + (text_groups(rng, vs) or '_') + stdin(rng))
            colored = set(int(w) for w in L[-1].split(' ')[2].replace('|', ' ').replace('_', ' ').split())
            dirty = False
        elif y < .25:
            L.append('clear')
            colored, dirty = set(), False
        elif y < .35 and not dirty and vs and not named:
            L.append('defpath')
            colored = {1, len(vs)}
            dirty = not colored <= set(vs)
            if dirty:
                continue
        else:
            L.append('update')
            dirty = not colored <= set(vs)
        if dirty:
            if rng.random() < .5:
                L.append('clear')
                colored, dirty = set(), False
            else:
                continue
        L.append('info')
    return L


def check(c):
    b = harness(c, [])
    for rnd in range(6 if c.thorough else 1):
        g = GGen(c.seed * 1000 + rnd, 'g%d_' % rnd)
        for _ in range(9000 if c.thorough else 3500):
            g.case(history(g))
        g.case(['update', 'info'])
        g.case(['file edges |', 'info'])
        for n in (65534, 65535, 65536, 66000) + ((32767, 32768, 40000, 70000, 131073) if c.thorough else (32768, 70000)):
            for k in ('star', 'path'):
                g.case((['prefix w'] if n % 3 == 0 else []) + ['huge %s %d' % (k, n)])
        # one large graph: every derived number of a 9 x 11 grid with 20 colour pairs
        es = graphs.grid(9, 11)
        vs = g.rng.sample(graphs.verts(es), 40)
        g.case(graphs.edge_lines(g.rng, es, 0) + ['color %d %d' % (v, k // 2) for k, v in enumerate(vs)] + ['update', 'info', 'clear', 'info', 'defpath', 'info'])
        t = c.record(b, g.cases, 'graphs%d' % rnd)
        c.validate(t, module='Graphs', binary=b, cases=g.cases, name='graphs%d' % rnd, heap='12g', timeout=850)
    c.notes['bounds'] = 'histories of up to 5 rounds of edits over graphs of up to 50 edges, plus a 9x11 grid'
