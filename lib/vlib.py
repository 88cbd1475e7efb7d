"""Shared driver: build harnesses from /repo, record traces, validate with TLC."""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 8


class CheckError(Exception):
    """The machinery itself failed: neither pass nor violation."""


class Violation(Exception):
    def __init__(self, what, replay=None):
        Exception.__init__(self, what)
        self.what, self.replay = what, replay


class Check:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.hung = []
        self.work = os.path.join(VERIF, 'work', '%s-%d' % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.models = []          # model-checking runs (name, states)
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.level = 'model_checking'
        self.timing = []
        self.runenv = {}
        self.gone = set()         # known findings that did not show up any more

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- building -------------------------------------------------------
    def cxx(self, jobs, out, flags=(), libs=(), objs_extra=(), cxx='g++', ldflags=None):
        """jobs: list of (source, [defines]) compiled in parallel, then linked."""
        t = time.time()
        bdir = os.path.join(self.work, 'obj-' + os.path.basename(out))
        os.makedirs(bdir, exist_ok=True)
        base = [cxx] + list(flags) + ['-w', '-I' + os.path.join(REPO, 'include'),
                                      '-I' + os.path.join(VERIF, 'harness')]

        def one(k):
            src, defs = jobs[k]
            if not os.path.isabs(src):
                src = os.path.join(VERIF, 'harness', src)
            o = os.path.join(bdir, '%d.o' % k)
            cmd = ([cxx, '-O1', '-w'] if '-DVP_PLAIN' in defs else base) + list(defs)
            r = subprocess.run(cmd + ['-c', src, '-o', o],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return o, r
        objs = []
        with cf.ThreadPoolExecutor(NCPU) as ex:
            for o, r in ex.map(one, range(len(jobs))):
                if r.returncode != 0:
                    raise CheckError('compilation failed:\n' + r.stdout[-4000:])
                objs.append(o)
        binary = os.path.join(self.work, out)
        r = subprocess.run([cxx] + list(flags if ldflags is None else ldflags) + objs + list(objs_extra) + ['-o', binary] + list(libs),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError('link failed:\n' + r.stdout[-4000:])
        self.log('built %s in %.1fs' % (out, time.time() - t))
        return binary

    def core(self, out, arities, feats, flags=('-O1', '-fopenmp'), extra=(), ldflags=None, libs=()):
        """feats: {arity: [feature numbers]}"""
        jobs = [('core_main.cpp', [])] + [x if isinstance(x, tuple) else (x, []) for x in extra]
        for A in arities:
            jobs.append(('core_a.cpp', ['-DCORE_A=%d' % A]))
            for f in feats.get(A, []):
                jobs.append(('core_f.cpp', ['-DCORE_A=%d' % A, '-DCORE_F=%d' % f]))
        return self.cxx(jobs, out, flags, ldflags=ldflags, libs=libs)

    def serial(self, arities, feats, cases, name, every=4, mode='small', heap='12g', defs=()):
        """the same sessions on a release build without OpenMP"""
        if not hasattr(self, '_serial'):
            self._serial = self.core('serial', arities, feats, flags=('-O2', '-DNDEBUG') + tuple(defs))
        cs = cases[self.seed % every::every]
        t = self.record(self._serial, cs, name)
        self.validate(t, binary=self._serial, cases=cs, name=name, env={'MODE': mode}, heap=heap)
        self.notes['builds'] = 'OpenMP -O1 with assertions; every %dth session also without OpenMP, -O2 -DNDEBUG' % every

    # ---- running the implementation -------------------------------------
    def run_bin(self, cmd, timeout, env=None, cwd=None, mem_gb=8, stdin=None, cli=False):
        if cli and len(self.hung) > 8:
            raise self.hung[8]
        e = dict(os.environ)
        e.update({'OMP_WAIT_POLICY': 'passive', 'GOMP_SPINCOUNT': '0', 'OMP_NUM_THREADS': '4', 'OMP_DYNAMIC': 'false'})
        e.update(env or {})

        def lim():
            os.setsid()
            if mem_gb:
                resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             env=e, cwd=cwd, preexec_fn=lim)
        try:
            so, se = p.communicate(stdin, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            so, se = p.communicate()
            rc = 'timeout'
            if cli:
                # many runs of a command that takes milliseconds hang: do not wait for all the others
                rp = os.path.join(self.replay_dir(), 'hang.txt')
                with open(rp, 'w') as f:
                    f.write(repr(cmd) + '\n' + repr(stdin) + '\n')
                    for a in cmd[1:]:
                        if os.path.isfile(a):
                            f.write('--- %s\n%s\n' % (a, open(a, errors='replace').read()))
                self.hung.append(Violation('the command does not end: %s' % ' '.join(cmd), rp))
                if len(self.hung) > 8:
                    raise self.hung[8]
        return rc, so, se

    def record(self, binary, cases, name, shards=NCPU, timeout=150, env=None, mem_gb=3, single_timeout=60):
        """cases: list of (id, [script lines]); runs them against the real code and
        returns the path of the recorded ndjson trace.  A crash, abort or hang of
        the implementation that repeats on the single case is a violation."""
        t = time.time()
        self.runenv[binary] = {'env': env, 'mem_gb': mem_gb}
        shards = max(1, min(shards, len(cases)))
        groups = [cases[k::shards] for k in range(shards)]

        def one(k):
            base = os.path.join(self.work, '%s-%d' % (name, k))
            with open(base + '.script', 'w') as f:
                for cid, lines in groups[k]:
                    f.write('\n'.join(lines) + '\n')
            rc, so, se = self.run_bin([binary, base + '.script', base + '.ndjson', base + '.prog'],
                                      timeout, env, mem_gb=mem_gb)
            return base, rc, se
        traces = []
        with cf.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        for k, (base, rc, se) in enumerate(res):
            if rc != 0:
                cid = ''
                try:
                    cid = open(base + '.prog').read().split('\n')[0].strip()
                except OSError:
                    pass
                if rc == 3 or not cid or cid == 'DONE' and rc != 0 and not self._san(se):
                    raise CheckError('harness failed rc=%s case=%s: %s' % (rc, cid, se[-2000:].decode('utf8', 'replace')))
                self._confirm_crash(binary, groups[k], cid, base, rc, se, env, mem_gb, single_timeout)
            traces.append(base + '.ndjson')
        out = os.path.join(self.work, name + '.ndjson')
        with open(out, 'wb') as f:
            for tr in traces:
                with open(tr, 'rb') as g:
                    shutil.copyfileobj(g, f)
                os.remove(tr)
        self.log('recorded %d sessions (%s) in %.1fs' % (len(cases), name, time.time() - t))
        return out

    @staticmethod
    def _san(se):
        return b'Sanitizer' in se or b'runtime error' in se

    def _confirm_crash(self, binary, group, cid, base, rc, se, env, mem_gb, single_timeout):
        lines = dict(group).get(cid)
        if lines is None:
            lines = [x for c, ls in group for x in ls]
        rp = os.path.join(self.replay_dir(), 'case-%s.script' % re.sub(r'\W', '_', cid))
        with open(rp, 'w') as f:
            f.write('\n'.join(lines) + '\n')
        for attempt in range(3):
            rc2, so2, se2 = self.run_bin([binary, rp, base + '.re', base + '.reprog'], single_timeout, env, mem_gb=mem_gb)
            if rc2 != 0:
                break
        if rc2 == 0:
            # memory corruption may need the preceding cases: replay the whole shard
            allp = os.path.join(self.replay_dir(), 'shard.script')
            shutil.copy(base + '.script', allp)
            rc2, so2, se2 = self.run_bin([binary, allp, base + '.re', base + '.reprog'], 300, env, mem_gb=mem_gb)
            rp = allp
            for attempt in range(4):
                if rc2 != 0 or time.time() - self.t0 > 400:
                    break
                rc2, so2, se2 = self.run_bin([binary, allp, base + '.re', base + '.reprog'], 300, env, mem_gb=mem_gb)
            if rc2 == 0 and isinstance(rc, int) and rc in (-4, -6, -7, -8, -11) and not re.search(
                    rb'bad_alloc|Resource temporarily|Cannot allocate|Thread creation', se):
                # a race: the crash was seen, only its schedule did not come again
                rc2, se2 = rc, se + b' (did not come again in 8 more runs)'
            if rc2 == 0:
                raise CheckError('crash of case %s (rc=%s) did not repeat: %s' % (cid, rc, se[-1500:].decode('utf8', 'replace')))
        with open(rp + '.stderr', 'wb') as f:
            f.write(se2[-20000:])
        raise Violation('the implementation %s on session %s: %s' % (
            'hangs' if rc2 == 'timeout' else 'aborts (rc=%s)' % rc2, cid,
            se2[-600:].decode('utf8', 'replace').replace('\n', ' | ')), rp)

    # ---- TLC ------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=NCPU, timeout=700, heap='6g', extra=(), deque=False, name=None):
        t = time.time()
        name = name or module
        meta = os.path.join(self.work, 'tlc-%s-%d' % (name, int(t * 1000) % 1000000))
        os.makedirs(meta)
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=%d' % min(4, workers),
               '-cp', CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
               '-config', os.path.join(VERIF, 'spec', (cfg or module) + '.cfg')] + list(extra) + \
              [os.path.join(VERIF, 'spec', module + '.tla')]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                               timeout=timeout, cwd=os.path.join(VERIF, 'spec'))
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on ' + name)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        res = {'rc': p.returncode, 'out': out, 'generated': gen, 'distinct': dist, 'wall': time.time() - t}
        ok = 'Model checking completed. No error has been found' in out or \
             (p.returncode == 0 and 'Finished in' in out and 'Error' not in out)
        inv = re.search(r'Error: Invariant (\w+) is violated', out) or re.search(r'Error: (?:Action|Temporal) propert', out)
        res['ok'] = ok and not inv
        res['violated'] = bool(inv)
        if not res['ok'] and not res['violated']:
            raise CheckError('TLC failed on %s (rc %s):\n%s' % (name, p.returncode, out[-5000:]))
        self.log('TLC %s: %s, %d states, %.1fs' % (name, 'ok' if res['ok'] else 'REJECTED', dist, res['wall']))
        return res

    @staticmethod
    def last_state(out):
        """variables of the last state of a TLC error trace, as text"""
        blocks = re.split(r'\nState \d+:', out)
        st = {}
        if blocks:
            for m in re.finditer(r'/\\ (\w+) = (.*?)(?=\n/\\ |\n\n|\Z)', blocks[-1], re.S):
                st[m.group(1)] = m.group(2).strip()
        return st

    def validate(self, trace, module='Session', env=None, binary=None, cases=None, name=None, rerun=None,
                 heap='8g', timeout=700, cfg=None, retag=None):
        """Validates a recorded trace; on rejection re-records and re-validates the
        single case, and raises Violation only if it is rejected again."""
        n = 0
        with open(trace) as f:
            ids = []
            for line in f:
                n += 1
                ids.append(line)
        if n == 0:
            raise CheckError('empty trace ' + trace)
        ev = {'TRACE': trace, 'MODE': 'small'}
        ev.update(env or {})
        r = self.tlc(module, cfg=cfg, env=ev, heap=heap, timeout=timeout, name=(name or module))
        self.states += r['distinct']
        self.transitions += max(0, r['generated'] - n)
        if r['ok']:
            self.traces += n
            if len(self.samples) < 4:
                s = ids[min(self.seed % n, n - 1)].strip()
                self.samples.append({'trace': name or module, 'case': s[:1500]})
            return r
        st = self.last_state(r['out'])
        k = int(st.get('cs', '1'))
        line = ids[k - 1]
        rec = json.loads(line)
        what = 'case %s event %s verdict %s' % (rec.get('id'), st.get('l'), st.get('bad'))
        rd = self.replay_dir()
        tag = re.sub(r'\W', '_', str(rec.get('id')))
        tp = os.path.join(rd, 'trace-%s.ndjson' % tag)
        with open(tp, 'w') as f:
            f.write(line)
        with open(os.path.join(rd, 'trace-%s.verdict' % tag), 'w') as f:
            f.write(what + '\n' + json.dumps({a: b[:2000] for a, b in st.items()}, indent=1))
        # confirm: same case again through the real code, alone
        t2 = tp
        if rerun is not None:
            t2 = rerun(rec, tp)
        elif binary and cases:
            lines = dict(cases).get(rec['id'])
            sp = os.path.join(rd, 'case-%s.script' % tag)
            with open(sp, 'w') as f:
                f.write('\n'.join(lines) + '\n')
            t2 = None
            for attempt in range(5 if retag else 1):
                rc, so, se = self.run_bin([binary, sp, sp + '.ndjson', sp + '.prog'], 120, **self.runenv.get(binary, {}))
                if rc != 0:
                    raise Violation(what + '; alone, the implementation fails rc=%s' % rc, sp)
                if retag:
                    retag(sp + '.ndjson')
                ev2 = dict(ev, TRACE=sp + '.ndjson')
                r2 = self.tlc(module, cfg=cfg, env=ev2, heap=heap, timeout=timeout, name=(name or module) + '-confirm')
                if r2['violated']:
                    raise Violation(what, sp + '.ndjson')
        ev2 = dict(ev, TRACE=t2 or tp)
        r2 = self.tlc(module, cfg=cfg, env=ev2, heap=heap, timeout=timeout, name=(name or module) + '-confirm')
        if not r2['violated']:
            raise CheckError('rejection did not repeat: ' + what)
        raise Violation(what, t2 or tp)

    def model(self, module, cfg, env=None, timeout=700, heap='8g', workers=NCPU, extra=()):
        """Exhaustive model check of a design-level module; a violation there is an
        error of the specification (the code is not involved)."""
        r = self.tlc(module, cfg=cfg, env=env, timeout=timeout, heap=heap, workers=workers, extra=extra, name=cfg)
        if not r['ok']:
            raise CheckError('model %s/%s violates its own invariant:\n%s' % (module, cfg, r['out'][-4000:]))
        self.states += r['distinct']
        self.transitions += r['generated']
        self.models.append({'model': cfg, 'states': r['distinct'], 'generated': r['generated']})
        return r

    def histories(self, module, cfg, extra=(), timeout=300, count=None, name=None):
        """behaviours of a generator module, one 'HIST op;op;...' line each"""
        r = self.tlc(module, cfg=cfg, workers=1 if '-simulate' in extra else NCPU, extra=extra, timeout=timeout, name=name or cfg)
        if not r['ok']:
            raise CheckError('generator %s/%s violates its own invariant:\n%s' % (module, cfg, r['out'][-4000:]))
        self.states += r['distinct']
        self.models.append({'model': cfg, 'states': r['distinct'], 'generated': r['generated']})
        h = re.findall(r'"?HIST ([^"\n]*)"?', r['out'])
        if not h:
            raise CheckError('generator %s/%s produced nothing:\n%s' % (module, cfg, r['out'][-3000:]))
        return [x.split(';') for x in h]

    def replay_dir(self):
        d = os.path.join(VERIF, 'replay', self.prop)
        os.makedirs(d, exist_ok=True)
        return d

    # ---- ending ---------------------------------------------------------
    def evidence(self, violations=0):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces,
               'samples': self.samples or [{'none': True}]}
        if self.models:
            cov['design_models'] = self.models
        cov.update(self.notes)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': violations}
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)

    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)


def known_findings(prop):
    p = os.path.join(VERIF, 'known-findings.jsonl')
    res = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                r = json.loads(line)
                if r.get('property') == prop and r.get('status') == 'open':
                    res.append(r)
    return res


def main(prop, body):
    c = Check(prop)
    rc = 2
    try:
        body(c)
        for k in known_findings(prop):
            if k.get('id') in c.gone:
                continue
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        c.evidence(0)
        print('OK property=%s tier=%s seed=%d states=%d traces=%d wall=%.1fs' % (
            prop, c.tier, c.seed, c.states, c.traces, time.time() - c.t0))
        rc = 0
    except Violation as v:
        c.evidence(1)
        rp = v.replay
        if not rp:
            rp = os.path.join(c.replay_dir(), 'violation.txt')
            with open(rp, 'w') as f:
                f.write(v.what + '\n')
        print(v.what)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        rc = 1
    except CheckError as e:
        print('CHECK-ERROR property=%s %s' % (prop, e))
        rc = 2
    finally:
        if not os.environ.get('VERIF_KEEP'):
            c.finish()
    sys.exit(rc)
