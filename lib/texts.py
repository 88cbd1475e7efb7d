"""Purely syntactic reading of the text formats; the specification judges the result."""
import json, re

NODE = re.compile(r'^  "(\d+):(\d+)" \[label="(.*)"\];$')
BARE = re.compile(r'^  "(\d+):(\d+)";$')
EDGE = re.compile(r'^  "([^"]+)" -> "([^"]+)" \[style=([^\]]*)\];$')
LEVEL = re.compile(r'^  (\d+) \[shape=none(?:,label="(.*)")?\];$')
RANK = re.compile(r'^  \{rank=same; (\d+)((?:; "\d+:\d+")*)\}$')
TERM = re.compile(r'^  "([^"]+)" \[shape=square.*label="(T|⊤)"\];$')


def key(s):
    a, b = s.split(':')
    return int(a), int(b)


def label_id(s):
    """the state of a harness specification as printed"""
    m = re.match(r'^(-?\d+)$', s)
    if m:
        return int(m.group(1))
    m = re.match(r'^\[(\d+):([\d,]*)\]$', s)
    if m:
        return int(m.group(1)) | int(m.group(2).split(',')[-1]) << 3
    return -1


def dot(text, A, title, table=False):
    """-> dict(ok, root, nodes, labels, levels)"""
    bad = {'ok': False, 'root': 0, 'nodes': [], 'labels': [], 'levels': [], 'tops': 0}
    lines = text.split('\n')
    if lines[0] != 'digraph "%s" {' % title or lines[-2] != '}' or lines[-1] != '':
        return bad
    labels, ranks, edges, levels, ones, rootarrow, shown = {}, {}, {}, [], set(), None, False
    names = set()
    for ln in lines[1:-2]:
        m = NODE.match(ln)
        if m and not ln.startswith('  "0:'):
            k = (int(m.group(1)), int(m.group(2)))
            if k in names:
                return bad
            names.add(k)
            labels[k] = label_id(m.group(3))
            continue
        m = BARE.match(ln)
        if m:
            k = (int(m.group(1)), int(m.group(2)))
            if k in names:
                return bad
            names.add(k)
            labels[k] = -1
            continue
        m = LEVEL.match(ln)
        if m:
            levels.append([int(m.group(1)), m.group(2) if m.group(2) is not None else m.group(1)])
            continue
        m = RANK.match(ln)
        if m:
            for q in re.findall(r'"(\d+:\d+)"', m.group(2)):
                if key(q) in ranks:
                    return bad
                ranks[key(q)] = int(m.group(1))
            continue
        m = TERM.match(ln)
        if m:
            ones.add(m.group(1))
            continue
        m = EDGE.match(ln)
        if m:
            f, g, st = m.groups()
            if f == '^':
                if rootarrow is not None:
                    return bad
                rootarrow = g
                continue
            st = st.replace(',arrowtail=dot', '')
            b = {'dashed': 0, 'solid': 1, 'solid,color=blue': 1, 'solid,color=red': 2, 'solid,color=green': 3}.get(st)
            if b is None or (st == 'solid') != (A == 2 and b == 1) or b >= A or (key(f), b) in edges:
                return bad
            edges[key(f), b] = g
            continue
        if 'label="%s"' % title in ln or ln.strip() == 'labelloc="t";' or 'style=invis' in ln:
            shown = shown or 'label="%s"' % title in ln
            continue
        return bad
    if title and not shown:
        return bad
    if any(ranks.get(k) != k[0] for k in names) or len(ranks) != len(names):
        return bad
    order = sorted(names)
    ids = {k: i + 2 for i, k in enumerate(order)}

    def ref(g):
        if g is None:
            return 0
        if g in ones:
            return 1
        if g == '$' or key(g)[0] == 0:
            return 0                  # an invisible (pruned) terminal
        return ids.get(key(g), -1)
    nodes = [[k[0]] + [ref(edges.get((k, b))) for b in range(A)] for k in order]
    if any((k not in ids) for k, b in edges):
        return bad
    return {'ok': True, 'root': ref(rootarrow), 'nodes': nodes, 'labels': [labels[k] for k in order], 'levels': levels,
            'tops': len(ones)}


def sap(text):
    bad = {'ok': False, 'root': 0, 'nodes': [], 'n': 0, 'count': 0}
    ls = text.split('\n')
    try:
        if ls[-1] != '' or ls[0][:3] != '_i ' or ls[1] != '_o 1' or ls[2][:3] != '_n ':
            return bad
        ids, nodes = {}, []

        def ref(x):
            return 0 if x == 'F' else 1 if x == 'T' else ids[x]
        for ln in ls[3:-2]:
            k, i, c0, c1 = ln.split(' ')
            if k in ids:
                return bad
            nodes.append([int(i), ref(c0), ref(c1)])
            ids[k] = len(nodes) + 1
        return {'ok': True, 'root': ref(ls[-2]), 'nodes': nodes, 'n': int(ls[0][3:]), 'count': int(ls[2][3:])}
    except (ValueError, KeyError, IndexError):
        return bad


def retag(path):
    """replaces the text of dot/sap events by the parsed graph"""
    out = []
    for line in open(path):
        r = json.loads(line)
        for e in r['ev']:
            if 'text' not in e:
                continue
            if e['op'] in ('dot', 'dott', 'mdot'):
                e['g'] = dot(e.pop('text'), r['A'], e['title'])
            elif e['op'] == 'sap':
                e['g'] = sap(e.pop('text'))
        out.append(json.dumps(r, ensure_ascii=False))
    with open(path, 'w') as f:
        f.write('\n'.join(out) + '\n')


def empty_gz(events):
    """TRUE if every diagram read from a Graphillion dump is the empty family"""
    d = [e['d'] for e in events if e.get('op') == 'gz']
    return bool(d) and all(x['root'] == 0 for x in d)
