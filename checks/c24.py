"""C24: the number-link solver."""
import concurrent.futures as cf
import json, os, random, re, shutil
import graphs
from vlib import REPO, Violation

CONN = {'──': 3, '─┘': 5, ' └': 6, '─┴': 7, '─┐': 9, ' ┌': 10, '─┬': 11, ' │': 12, '─┤': 13, ' ├': 14, '─┼': 15}


def drawing(lines):
    """lines of a drawn board (with its frame) -> matrix of numbers and -connectors, [] if it is none"""
    w = (len(lines[0]) - 3) // 2
    if lines[0] != '┏' + '━' * (2 * w + 1) + '┓' or lines[-1] != '┗' + '━' * (2 * w + 1) + '┛':
        return []
    res = []
    for ln in lines[1:-1]:
        if len(ln) != 2 * w + 3 or ln[0] != '┃' or ln[-2:] != ' ┃':
            return []
        row = []
        for j in range(w):
            x = ln[1 + 2 * j:3 + 2 * j]
            if x in CONN:
                row.append(-CONN[x])
            elif x.strip() == '':
                row.append(0)
            elif re.match(r'^ ?\d+$', x):
                row.append(int(x))
            else:
                return []
        res.append(row)
    return res


def boards(text):
    """all framed boards in a text, in order"""
    res, cur = [], None
    for ln in text.split('\n'):
        ln = ln.strip() if ln.strip()[:1] in ('┏', '┗') or cur is not None else ln
        if ln.startswith('┏'):
            cur = [ln]
        elif cur is not None:
            cur.append(ln)
            if ln.startswith('┗'):
                res.append(drawing(cur))
                cur = None
    return res


def retag(path):
    out = []
    for line in open(path):
        r = json.loads(line)
        for e in r['ev']:
            if e['op'] == 'print' and 'text' in e:
                t = e.pop('text').split('\n')
                e['board'] = drawing(t[:-1]) if t[-1] == '' else []
            elif e['op'] == 'write' and 'text' in e:
                try:
                    e['text'] = [[int(x) for x in ln.split(' ')] for ln in e['text'].split('\n')[:-1]]
                except ValueError:
                    e['text'] = []
        out.append(json.dumps(r))
    with open(path, 'w') as f:
        f.write('\n'.join(out) + '\n')


def quiz(rng, m, n, solvable):
    """numbers of a random puzzle; solvable ones come from drawn paths"""
    num = [[0] * n for _ in range(m)]
    if not solvable:
        cells = [(i, j) for i in range(m) for j in range(n)]
        rng.shuffle(cells)
        for k in range(rng.randint(0, max(1, m * n // 4))):
            for _ in range(rng.choice([2, 2, 2, 2, 1, 3, 4]) if rng.random() < .1 else 2):
                if cells:
                    i, j = cells.pop()
                    num[i][j] = k + 1
        return num
    free = {(i, j) for i in range(m) for j in range(n)}
    k = 0
    for _ in range(rng.randint(1, m + n)):
        if not free:
            break
        p = [rng.choice(sorted(free))]
        free.discard(p[0])
        want = rng.randint(2, m * n)
        while len(p) < want:
            i, j = p[-1]
            nb = [x for x in ((i + 1, j), (i - 1, j), (i, j + 1), (i, j - 1)) if x in free]
            if not nb:
                break
            x = rng.choice(nb)
            free.discard(x)
            p.append(x)
        if len(p) < 2:
            continue
        k += 1
        for i, j in (p[0], p[-1]):
            num[i][j] = k
    if rng.random() < .3:
        names = rng.sample(range(1, 99), k)
        num = [[names[x - 1] if x else 0 for x in r] for r in num]
    return num


def text_of(rng, num):
    """(text, lines) of a board file; lines[i] are the cells of line i, -1 a blank sign"""
    m, n = len(num), len(num[0])
    lines = []
    for i in range(m):
        row = [x or (-1 if rng.random() < .9 else 0) for x in num[i]]
        if rng.random() < .05:
            while row and row[-1] <= 0:
                row.pop()
        if rng.random() < .04:
            row += [rng.choice([-1, 7, 12]) for _ in range(rng.randint(n - len(row), n - len(row) + 3))]
        lines.append(row)
    if rng.random() < .05:
        while lines and all(x <= 0 for x in lines[-1]):
            lines.pop()
    elif rng.random() < .05:
        lines.append([rng.choice([-1, 5]) for _ in range(n)])
    t = ''
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        t += rng.choice(['# comment 12\n', 'x\n', '\n', '  \n', '-- 3\n'])
    t += rng.choice(['%d %d' % (n, m), '%d  %d' % (n, m), ' %d %d' % (n, m), '%d,%d' % (m, n), '%d , %d' % (m, n), '%d\t%d ' % (n, m), '%d %d # size' % (n, m)]) + '\n'
    for row in lines:
        s = ''
        for k, x in enumerate(row):
            tok = str(x) if x >= 0 else rng.choice('-.x_' if rng.random() < .2 else '-')
            if k and (x < 0 or row[k - 1] < 0) and rng.random() < .15:
                s += tok
            else:
                s += (rng.choice([' ', ' ', ' ', '  ', '\t']) if k else '') + tok
        t += rng.choice(['', '', '', ' ']) + s + rng.choice(['', '', ' ', '']) + '\n'
    if rng.random() < .1 and t.endswith('\n'):
        t = t[:-1]
    return t, lines


def run(c, binary, wd, k, r):
    e = dict(op='cli', rows=r['m'], cols=r['n'], lines=r['lines'], all=r['all'], k=r['k'], m=r['max'], err=False, badcli=bool(r.get('bad')), quiz=[], c=-1, boards=[], more=0)
    f = os.path.join(wd, '%d.dat' % k)
    with open(f, 'w') as g:
        g.write(r['text'])
    rc, so, se = c.run_bin([binary] + graphs.spoil(r.get('bad'), r['opts'], ['-'] if r['stdin'] else [f], wd), 60, env={'OMP_NUM_THREADS': '2'}, stdin=r['text'].encode() if r['stdin'] else None, cli=True)
    os.remove(f)
    so, se = so.decode('utf8', 'replace'), se.decode('utf8', 'replace')
    if rc != 0:
        e['err'] = True
        e['status'] = str(rc)
        return e
    q = boards(se)
    e['quiz'] = q[0] if q else []
    x = re.search(r'#solution = (\d+)', se)
    e['c'] = int(x.group(1)) if x else -2
    e['boards'] = boards(so)
    x = re.search(r'^(\S+) more solutions?$', so, re.M)
    e['more'] = int(x.group(1)) if x and re.match(r'^\d+$', x.group(1)) else -2 if x else 0
    return e


def das(rng):
    """a board in the format of the DA Symposium, as records and as text"""
    src, text = [], ''
    n, m = rng.randint(1, 7), rng.randint(1, 7)

    def sp():
        return rng.choice(['', '', '', ' ', '\t', '  '])
    for _ in range(rng.choice([1, 1, 1, 2, 0])):
        w = rng.random()
        if w < .5:
            src.append(['size', n, m])
            text += sp() + rng.choice(['SIZE', 'size', 'Size']) + sp() + str(n) + sp() + rng.choice('Xx') + sp() + str(m) + sp() + '\n'
            for _ in range(rng.choice([0, 1, 2, 5, 11])):
                p = [rng.randrange(n), rng.randrange(m), rng.randrange(n), rng.randrange(m)]
                if p[:2] == p[2:]:
                    continue
                src.append(['line'] + p)
                text += rng.choice(['LINE', 'Line']) + sp() + '#' + str(rng.randint(1, 12)) + sp() + '(%d,%s%d)%s-%s(%d,%d)' % (p[0], sp(), p[1], sp(), sp(), p[2], p[3]) + sp() + '\n'
        else:
            for _ in range(m):
                q = [rng.choice([0, 0, rng.randint(1, 12), rng.randint(1, 99)]) for _ in range(rng.choice([n, n, n, rng.randint(1, n)]))]
                src.append(['row'] + q)
                text += sp() + sp().join('%02d' % x for x in q) + sp() + '\n'
        if rng.random() < .2:
            src.append(['other'])
            text += rng.choice(['\n', 'comment\n', '012\n', '-- 01\n'])
    return src, text


def rundas(c, r):
    src, text = r
    e = dict(op='das', src=src, err=False, out=[])
    rc, so, se = c.run_bin(['perl', os.path.join(REPO, 'apps/numberlink/readdas.pl')], 30, stdin=text.encode(), cli=True)
    if rc != 0:
        e['err'] = True
        return e
    e['out'] = [[0 if x == '-' else int(x) if x.isdigit() else -1 for x in l.split()] for l in so.decode('utf8', 'replace').split('\n') if l.strip()]
    return e


def check(c):
    inc = ['-I' + os.path.join(REPO, 'apps')]
    app = os.path.join(REPO, 'apps/numberlink')
    lib = [(os.path.join(app, x + '.cpp'), []) for x in ('Board', 'ConstraintZdd', 'DegreeZdd', 'NumlinZdd')]
    b = c.cxx([('numlin.cpp', [])] + lib, 'numlin', ['-O1', '-fopenmp', '-std=c++14', '-D_GLIBCXX_ASSERTIONS'] + inc)
    q = c.cxx([(os.path.join(app, 'ddnumlin.cpp'), [])] + lib, 'ddnumlin', ['-O1', '-fopenmp', '-std=c++11', '-D_GLIBCXX_ASSERTIONS'] + inc)
    wd = os.path.join(c.work, 'in')
    os.makedirs(wd)
    sizes = [(1, 2), (2, 1), (1, 4), (5, 1), (2, 2), (2, 3), (3, 2), (3, 3), (3, 3), (2, 5), (5, 2), (4, 3), (3, 4), (4, 4), (4, 4), (5, 3), (3, 5), (6, 3), (5, 4), (4, 5)]
    for rnd in range(8 if c.thorough else 1):
        rng = random.Random(c.seed * 1000 + rnd)
        # the command
        runs = []
        for _ in range(1500 if c.thorough else 500):
            m, n = rng.choice(sizes)
            if rng.random() < (.06 if c.thorough else .03):
                m, n = rng.choice([(5, 5), (6, 4), (6, 5)] if c.thorough else [(5, 5), (6, 4)])
            num = quiz(rng, m, n, rng.random() < .85)
            t, lines = text_of(rng, num)
            r = dict(m=m, n=n, text=t, lines=lines, all=rng.random() < .5, k=-1, max=10, stdin=rng.random() < .1)
            o = [['-a']] if r['all'] else []
            if rng.random() < .4:
                r['k'] = rng.choice([0, 0, 1, 2, 3, 5])
                o.append(['-k', str(r['k'])])
            if rng.random() < .5:
                r['max'] = rng.choice([0, 1, 2, 1000, 1000])
                o.append(['-m', str(r['max'])])
            if rng.random() < .3:
                o.append(['-p'])
            rng.shuffle(o)
            r['opts'] = [x for y in o for x in y]
            if rng.random() < .03:       # a command line that cannot be understood
                r['bad'] = rng.choice(['option', 'files', 'nofile', 'missing'])
            runs.append(r)
        with cf.ThreadPoolExecutor(8) as ex:
            evs = list(ex.map(lambda k: run(c, q, wd, k, runs[k]), range(len(runs))))
        c.log('ran the command %d times, %d boards drawn' % (len(runs), sum(len(e['boards']) for e in evs)))
        # boards with very many solutions are slow to enumerate: keep a few
        many = [k for k, e in enumerate(evs) if e['c'] > 150]
        drop = set(sorted(many, key=lambda k: evs[k]['c'])[20 if c.thorough else 6:])
        c.notes['runs_not_judged'] = c.notes.get('runs_not_judged', 0) + len(drop)
        tp = os.path.join(c.work, 'cli%d.ndjson' % rnd)
        with open(tp, 'w') as f:
            for k, e in enumerate(evs):
                if k in drop:
                    continue
                f.write(json.dumps({'id': 'cli%d' % k, 'A': 2, 'opts': ' '.join(runs[k]['opts']), 'ev': [e]}) + '\n')

        def rerun(rec, tp):
            k = int(rec['id'][3:])
            rec['ev'] = [run(c, q, wd, k, runs[k])]
            rec['file'] = runs[k]['text']
            with open(tp, 'w') as f:
                f.write(json.dumps(rec) + '\n')
            return tp
        c.validate(tp, module='Numlin', name='cli%d' % rnd, rerun=rerun, heap='12g', timeout=850)
        # the converter
        if shutil.which('perl') and os.path.exists(os.path.join(REPO, 'apps/numberlink/readdas.pl')):
            ds = [das(rng) for _ in range(400)]
            with cf.ThreadPoolExecutor(8) as ex:
                evs = list(ex.map(lambda r: rundas(c, r), ds))
            tp = os.path.join(c.work, 'das%d.ndjson' % rnd)
            with open(tp, 'w') as f:
                for k, e in enumerate(evs):
                    f.write(json.dumps({'id': 'das%d' % k, 'A': 2, 'file': ds[k][1], 'ev': [e]}) + '\n')

            def redas(rec, tp):
                rec['ev'] = [rundas(c, ds[int(rec['id'][3:])])]
                with open(tp, 'w') as f:
                    f.write(json.dumps(rec) + '\n')
                return tp
            c.validate(tp, module='Numlin', name='das%d' % rnd, rerun=redas, heap='4g', timeout=300)
        # boards and specifications
        cases = []
        for k in range(2500 if c.thorough else 900):
            cid = 'n%d_%d' % (rnd, k)
            L = ['case ' + cid]
            x = rng.random()
            if x < .05:
                t = rng.choice(['', '\n', 'x\n', '5', '5 \n', '5 x\n- -\n', '0 3\n', '3 0\n', '3,\n', '3,x\n', '0,2\n', '- -\n# 5 5\n'])
                L.append('read 0 0 1 [] x' + t.encode().hex())
            m, n = rng.choice(sizes)
            num = quiz(rng, m, n, rng.random() < .7)
            t, lines = text_of(rng, num)
            L.append('read %d %d 0 %s x%s' % (m, n, json.dumps(lines, separators=(',', ':')), t.encode().hex()))
            for _ in range(rng.randint(2, 6)):
                o = rng.choice(['transpose', 'links', 'vertical', 'links+vertical', 'fill', 'write', 'print', 'print', 'fam', 'fam'])
                if o == 'transpose':
                    m, n = n, m
                    L.append(o)
                elif o.startswith('links'):
                    p = rng.choice([.1, .3, .5])
                    S = [[i + 1, j + 1] for i in range(m) for j in range(n - 1) if rng.random() < p]
                    L.append('links %s %s' % (json.dumps(S, separators=(',', ':')), ' '.join('%d %d' % tuple(x) for x in S)))
                    if o != 'links':
                        L.append('vertical')
                elif o == 'fam':
                    if n > 1 and m * (n - 1) <= 16:
                        L.append('fam %s %d %s' % (rng.choice(['degree', 'numlin', 'numlin', 'best', 'best']), rng.choice([-1, -1, 0, 1, 2, 4]), rng.choice(['b', 'br', 'p', 'pr', 's', 'sr', 'bl', 'prl', 'srl'])))
                else:
                    L.append(o)
            cases.append((cid, L))
        t = c.record(b, cases, 'brd%d' % rnd)
        retag(t)
        c.validate(t, module='Numlin', binary=b, cases=cases, name='brd%d' % rnd, heap='12g', timeout=850, retag=retag)
    c.notes['bounds'] = 'boards of up to 6x5 cells, every option of the command; 400 boards per round in the format of the DA Symposium'
