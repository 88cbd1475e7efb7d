"""C11: diagrams are values (copies are independent, nothing leaks)."""
import gen
from ses import Gen


def script(g, ops):
    """history of Handles.tla -> session: after every call every live handle is looked at"""
    rng = g.rng
    L = []
    live = {'a', 'b'}
    for k, t in enumerate('tu'):
        root, rows = gen.rand_table(rng, 2, 5, 4, nmin=1)
        L.append(gen.tab_line(t, root, rows))
    L += ['buildA a t i0 %d' % rng.randint(0, 1), 'buildA b u i0 %d' % rng.randint(0, 1)]
    for op in ops:
        w = op.split()
        if w[0] == 'build':
            L.append('buildA %s %s i0 %d' % (w[1], w[2], rng.randint(0, 1)))
            live.add(w[1])
        else:
            L.append(op)
            if w[0] == 'copy':
                live.add(w[1])
            elif w[0] == 'drop':
                live.discard(w[1])
        L += ['dump ' + x for x in sorted(live)]
    x = rng.choice(sorted(live))
    if rng.random() < .3:
        L += ['mp %s %d' % (x, rng.randint(0, 1)), 'sub s %s %d %d' % (x, rng.randint(0, 1), rng.randint(0, 1)), 'red s z', 'dump ' + x]
        live.add('s')
    if rng.random() < .3:
        L += ['card ' + x, 'eq %s %s' % (x, rng.choice(sorted(live))), 'dump ' + x]
    L += ['drop ' + x for x in sorted(live)] + ['leak']
    return L


def check(c):
    c.model('Handles', 'HandlesDeep')
    b = c.core('core', [2], {2: [1, 4]}, extra=('memtag.cpp',))
    g = Gen(c.seed, 'h')
    hs = c.histories('Handles', 'Handles')
    if not c.thorough:
        hs = [h for k, h in enumerate(hs) if (k + c.seed) % 3 == 0]
    for h in hs:
        g.case(2, script(g, h))
    n = 4000 if c.thorough else 400
    sim = c.histories('Handles', 'HandlesSim', extra=['-simulate', 'num=%d' % n, '-seed', str(c.seed), '-depth', '20'])
    g.rng.shuffle(sim)               # the last step prints every alternative: keep a sample
    for h in sim[:3 * n]:
        g.case(2, script(g, h))
    t = c.record(b, g.cases, 'hist')
    c.validate(t, binary=b, cases=g.cases, name='handles', heap='14g')
    c.notes['bounds'] = ('every call history of length 3 over 3 handles (quick: every third), random histories of length 14; '
                         'design model exhaustive to length 5')
