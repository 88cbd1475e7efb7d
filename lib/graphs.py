"""Random graphs."""
import os
import random


def rand_graph(rng, nv, ne, connected=None):
    """list of distinct undirected edges over 1..nv in a random order"""
    allp = [(i, j) for i in range(1, nv + 1) for j in range(i + 1, nv + 1)]
    rng.shuffle(allp)
    es = allp[:ne]
    if connected:
        perm = list(range(1, nv + 1))
        rng.shuffle(perm)
        tree = [tuple(sorted((perm[k], rng.choice(perm[:k])))) for k in range(1, nv)]
        es = tree + [e for e in es if e not in tree]
        es = es[:max(ne, nv - 1)]
        if rng.random() < .8:
            rng.shuffle(es)
    return es


def grid(h, w):
    es = []
    for i in range(h):
        for j in range(w):
            v = i * w + j + 1
            if j + 1 < w:
                es.append((v, v + 1))
            if i + 1 < h:
                es.append((v, v + w))
    return es


def verts(es):
    return sorted({v for e in es for v in e})


def relabel(rng, es):
    vs = verts(es)
    new = rng.sample(range(1, 90), len(vs))
    m = dict(zip(vs, new))
    return [(m[a], m[b]) for a, b in es]


def edge_lines(rng, es, dup=.1):
    out = []
    for a, b in es:
        if rng.random() < .5:
            a, b = b, a
        out.append('edge %d %d' % (a, b))
        if rng.random() < dup:
            a, b = rng.choice(es)
            if any(('edge %d %d' % p) in out for p in ((a, b), (b, a))):
                if rng.random() < .5:
                    a, b = b, a
                out.append('edge %d %d' % (a, b))
    return out


def spoil(bad, opts, files, wd):
    """the arguments of a graph command; bad: what is wrong with them"""
    opts, files = list(opts), list(files)
    gone = os.path.join(wd, 'no-such-file')
    if bad == 'option':
        opts.insert(0, '-nosuch')
    elif bad == 'type':
        opts = ['-t', 'tree'] + opts
    elif bad == 'dash':
        opts.insert(0, '-')
    elif bad == 'files':
        files = (files + [files[0] if files else gone] * 3)[:3]
    elif bad == 'nofile':
        files = []
    elif bad == 'missing':
        files = [gone] + files[1:]
    elif bad == 'missing2':
        files = (files[:1] or [gone]) + [gone]
    elif bad == 'value':                 # an option without its value
        files.append(([x for x in ('-uec', '-lb', '-ub') if x not in opts] + ['-nosuch'])[0])
    return opts + files
