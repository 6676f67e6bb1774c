"""Shared machinery of the checks: compile the Java operators, run TLC, run the drivers,
read verdicts, write evidence."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('NBC_REPO', '/repo')
PY = '/opt/venv/bin/python'
JAR = '/opt/veriftools/tla/tla2tools.jar'
COMM = '/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
CPUS = max(1, min(8, os.cpu_count() or 1))


class Machinery(Exception):
    pass


def java_classes():
    """Compile spec/java when missing or out of date; returns the class directory."""
    src = os.path.join(SPEC, 'java')
    files = sorted(f for f in os.listdir(src) if f.endswith('.java'))
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode()); h.update(open(os.path.join(src, f), 'rb').read())
    out = os.path.join(BUILD, 'classes-' + h.hexdigest()[:16])
    if os.path.exists(os.path.join(out, '.done')):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=BUILD)
    r = subprocess.run(['javac', '-nowarn', '-cp', JAR + ':' + COMM, '-d', tmp] + [os.path.join(src, f) for f in files],
                       capture_output=True, text=True)
    if r.returncode:
        raise Machinery('javac failed:\n' + r.stdout + r.stderr)
    open(os.path.join(tmp, '.done'), 'w').close()
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def faultfs():
    """Compile harness/c/faultfs.c when missing or out of date; returns the library."""
    src = os.path.join(VERIF, 'harness', 'c', 'faultfs.c')
    out = os.path.join(BUILD, 'faultfs-%s.so' % hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16])
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        fd, tmp = tempfile.mkstemp(dir=BUILD)
        os.close(fd)
        r = subprocess.run(['gcc', '-w', '-shared', '-fPIC', '-O1', '-D_LARGEFILE64_SOURCE', '-o', tmp, src, '-ldl'], capture_output=True, text=True)
        if r.returncode:
            raise Machinery('gcc failed:\n' + r.stdout + r.stderr)
        os.rename(tmp, out)
    return out


class TlcResult(object):
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        self.ok = 'Model checking completed. No error has been found.' in out
        self.violated = re.findall(r'(?:Invariant|Action property|property) (\S+) (?:is|was) violated', out)
        self.verdicts = []
        # TLC breaks long values over several lines
        for m in re.finditer(r'^<<\s*"FAIL",\s*(\d+),(.*?)>>\s*$', out, re.M | re.S):
            self.verdicts.append((int(m.group(1)), re.findall(r'"([^"]*)"', m.group(2))))


def run_tlc(module, cfg, env=None, workers=None, timeout=600, simulate=None, depth=None, seed=1,
            heap='6g', extra=(), expect_ok=True, fpmem=None):
    """Run TLC on spec/<module>.tla with the given configuration text."""
    cls = java_classes()
    work = tempfile.mkdtemp(prefix='tlc-')
    try:
        cfgp = os.path.join(work, module + '.cfg')
        open(cfgp, 'w').write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', ':'.join([cls, JAR, COMM]),
               '-DTLA-Library=' + SPEC, 'tlc2.TLC', '-metadir', os.path.join(work, 'meta'), '-noGenerateSpecTE',
               '-workers', str(workers or CPUS), '-seed', str(seed), '-config', cfgp]
        if simulate is not None:
            cmd += ['-simulate', 'num=%d' % simulate]
        if depth is not None:
            cmd += ['-depth', str(depth)]
        cmd += list(extra) + [os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, text=True, errors='replace')
        except subprocess.TimeoutExpired as x:
            raise Machinery('TLC timed out on %s' % module)
        r = TlcResult(p.stdout, p.returncode, time.time() - t)
        if expect_ok and not r.ok and simulate is None:
            raise Machinery('TLC failed on %s (rc %d):\n%s' % (module, p.returncode, p.stdout[-6000:] if 'Error:' not in p.stdout else p.stdout[p.stdout.index('Error:'):][:6000]))
        if simulate is not None and expect_ok and re.search(r'^Error:', p.stdout, re.M):
            raise Machinery('TLC failed on %s (rc %d):\n%s' % (module, p.returncode, p.stdout[-6000:] if 'Error:' not in p.stdout else p.stdout[p.stdout.index('Error:'):][:6000]))
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_driver(script, args, out, timeout=600, env=None):
    """Run harness/<script> on the code under test.  It appends one JSON line per event to `out`,
    the last of which is {"op": "end"}.  Returns (events, problem or None)."""
    e = dict(os.environ)
    e.update({'PYTHONPATH': ':'.join([REPO, os.path.join(VERIF, 'harness')]), 'PYTHONDONTWRITEBYTECODE': '1',
              'PYTHONPYCACHEPREFIX': '/nonexistent-pycache', 'PYTHONHASHSEED': '0', 'PYTHONWARNINGS': 'ignore'})
    e.update(env or {})
    open(out, 'w').close()
    log = out + '.log'
    cwd = tempfile.mkdtemp(prefix='drv-')
    try:
        with open(log, 'w') as lf:
            try:
                p = subprocess.run([PY, os.path.join(VERIF, 'harness', script)] + [str(a) for a in args] + [out],
                                   stdout=lf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e,
                                   timeout=timeout, cwd=cwd)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
    finally:
        shutil.rmtree(cwd, ignore_errors=True)
    events = []
    for line in open(out, errors='replace'):
        try:
            events.append(json.loads(line))
        except ValueError:
            pass
    if events and events[-1].get('op') == 'end' and rc == 0:
        return events[:-1], None
    tail = open(log, errors='replace').read()[-3000:]
    return events, 'driver ended with %s\n%s' % (rc, tail)


def write_events(events, path):
    with open(path, 'w') as f:
        for e in events:
            f.write(json.dumps(e, separators=(',', ':')) + '\n')


class Check(object):
    """Collects what one check covered and what it found."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.events = 0
        self.kinds = {}
        self.samples = []
        self.models = []
        self.failures = []      # (clause, event, where)
        self.notes = {}
        self.assumptions = []
        self.tmp = tempfile.mkdtemp(prefix='chk-')

    # -- models ---------------------------------------------------------------------
    def model(self, module, cfg, name=None, **kw):
        r = run_tlc(module, cfg, expect_ok=False, **kw)
        sim = kw.get('simulate') is not None
        bad = (not r.ok and not sim) or r.violated or re.search(r'^Error:', r.out, re.M)
        if bad:
            raise Machinery('model %s does not satisfy its properties:\n%s' % (name or module, r.out[-5000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({'model': name or module, 'states': r.distinct, 'transitions': r.generated,
                            'wall_s': round(r.wall, 1)})
        return r

    # -- judging recorded events ------------------------------------------------------
    def judge(self, module, events, clauses=None, name='t', chains=64, timeout=800, traces=None, keep=None,
              extra_cfg='', env=None):
        """Every event is judged by TLC with spec/<module>.tla, an extension of Judge.tla."""
        if not events:
            raise Machinery('no events to judge')
        path = os.path.join(self.tmp, name + '.ndjson')
        write_events(events, path)
        n = len(events)
        chains = min(chains, n)
        cfg = 'SPECIFICATION JSpec\nINVARIANT JInv\nCONSTANT JChains = %d\nCHECK_DEADLOCK FALSE\n%s' % (chains, extra_cfg)
        e = {'TRACE': path}
        e.update(env or {})
        r = run_tlc(module, cfg, env=e, timeout=timeout, heap='12g')
        if r.distinct != n + chains:
            raise Machinery('%s consumed %d of %d events\n%s' % (module, r.distinct - chains, n, r.out[-3000:]))
        self.states += n
        self.transitions += n
        self.traces += traces if traces is not None else n
        self.count(events)
        for (i, cl) in r.verdicts:
            for c in cl:
                if clauses is None or clauses(c):
                    self.failures.append((c, events[i - 1], name))
        return r

    def judge_runs(self, module, events, clauses=None, name='t', timeout=800, consts=''):
        """Whole runs ("new" ... "done") are checked as behaviours of spec/<module>.tla."""
        if not events:
            raise Machinery('no events to judge')
        path = os.path.join(self.tmp, name + '.ndjson')
        write_events(events, path)
        cfg = 'SPECIFICATION Spec\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n%s' % consts
        r = run_tlc(module, cfg, env={'TRACE': path}, timeout=timeout, heap='12g')
        # a run stops at the first event the specification does not allow
        runs = [i for (i, e) in enumerate(events) if e['op'] == 'new']
        stop = dict()
        for (i, cl) in r.verdicts:
            stop[max(x for x in runs if x <= i - 1)] = i
        want = 0
        for (k, a) in enumerate(runs):
            b = runs[k + 1] if k + 1 < len(runs) else len(events)
            want += stop[a] - a if a in stop else len([e for e in events[a:b] if e['op'] != 'done'])
        if r.distinct != want:
            raise Machinery('%s consumed %d of %d events\n%s' % (module, r.distinct, want, r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.traces += len(runs)
        self.count(events)
        # runs that left the specification for the sake of another property decide nothing about this one
        foreign = []
        for (i, cl) in r.verdicts:
            own = [c for c in cl if clauses is None or clauses(c)]
            for c in own:
                self.failures.append((c, events[i - 1], name))
            if not own:
                foreign.append((i, cl))
        self.notes['runs_left_undecided'] = self.notes.get('runs_left_undecided', 0) + len(foreign)
        if 2 * len(foreign) > len(runs):
            (i, cl) = foreign[0]
            self.failures.append(('%s.undecided' % self.prop, events[i - 1], '%s: %d of %d runs left the specification (%s)' % (name, len(foreign), len(runs), ' '.join(cl))))
        return r

    def count(self, events):
        self.events += len(events)
        for ev in events:
            k = ev.get('op', '?')
            self.kinds[k] = self.kinds.get(k, 0) + 1
        if len(self.samples) < 6:
            for ev in events[:1] + events[-1:]:
                self.samples.append(json.dumps(ev)[:600])

    def fail(self, clause, event, where=''):
        self.failures.append((clause, event, where))

    # -- result ---------------------------------------------------------------------
    def finish(self):
        known = load_known()
        viol, kf = [], []
        for (c, ev, w) in self.failures:
            k = known_match(known, self.prop, c, ev)
            (kf if k else viol).append((c, ev, w, k))
        for k in sorted(set(x[3]['id'] for x in kf)):
            e = [x for x in kf if x[3]['id'] == k][0]
            print('KNOWN-FINDING: property=%s %s' % (self.prop, e[3]['what']))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': {'states': self.states, 'transitions': self.transitions,
                           'traces_validated_against_impl': self.traces, 'samples': self.samples[:8],
                           'events': self.events, 'event_kinds': self.kinds, 'models': self.models},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(viol)}
        ev['coverage'].update(self.notes)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.prop + '.json')
        json.dump(ev, open(p + '.tmp', 'w'), indent=1)
        os.rename(p + '.tmp', p)
        shutil.rmtree(self.tmp, ignore_errors=True)
        if viol:
            d = os.path.join(VERIF, 'replay')
            os.makedirs(d, exist_ok=True)
            rp = os.path.join(d, '%s.json' % self.prop)
            json.dump([{'clause': c, 'where': w, 'event': e} for (c, e, w, k) in viol[:50]], open(rp, 'w'), indent=1)
            for (c, e, w, k) in viol[:5]:
                print('  clause %s: %s' % (c, json.dumps(e)[:400]))
            print('  %d failing clauses in all' % len(viol))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('%s holds: %d events, %d states, %.1f s' % (self.prop, self.events, self.states, time.time() - self.t0))
        return 0


def load_known():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                out.append(json.loads(line))
    return out


def known_match(known, prop, clause, event):
    for k in known:
        if k.get('status') == 'known' and k['property'] == prop and k['clause'] == clause:
            if all(event.get(f) == v for f, v in k['match'].items()):
                return k
    return None
