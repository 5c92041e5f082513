"""Shared machinery: build the harness from /repo's working tree, run TLC, write evidence."""
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
WORK = os.path.join(VERIF, 'work')
SRC = os.path.join(REPO, 'eskf_vio_backend', 'src')
INC = os.path.join(REPO, 'eskf_vio_backend', 'include')
JAVA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = max(2, min(8, os.cpu_count() or 2))
CXXFLAGS = ['-std=c++17', '-O1', '-fno-access-control', '-w', '-D_GLIBCXX_ASSERTIONS', '-pthread']


class CheckError(Exception):
    """The machinery itself failed: no verdict (exit 2)."""


def log(*a):
    print(*a, flush=True)


def incdirs():
    out = ['-I/usr/include/eigen3', '-I' + HARN]
    for d, _, _ in os.walk(INC):
        out.append('-I' + d)
    return out


def all_sources():
    out = []
    for d, _, fs in os.walk(SRC):
        out += [os.path.join(d, f) for f in fs if f.endswith(('.cpp', '.cc', '.cxx'))]
    return sorted(out)


def _hash_files(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def _headers():
    out = []
    for d, _, fs in os.walk(INC):
        out += [os.path.join(d, f) for f in fs]
    out += glob.glob(os.path.join(HARN, '*.hpp')) + glob.glob(os.path.join(HARN, '*.inc'))
    return out


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(harness, needed):
    """Compile harness/<harness>.cpp with /repo's sources. `needed` lists the source base names the
    harness links against; if that does not link (code was moved), all sources are used."""
    os.makedirs(BUILD, exist_ok=True)
    hdr = _hash_files(_headers(), ' '.join(CXXFLAGS))
    incs = incdirs()

    def obj(src):
        key = _hash_files([src], hdr)
        o = os.path.join(BUILD, os.path.basename(src) + '.' + key + '.o')
        if not os.path.exists(o):
            tmp = o + '.%d.tmp' % os.getpid()
            r = _run(['g++'] + CXXFLAGS + incs + ['-c', src, '-o', tmp])
            if r.returncode:
                raise CheckError('compiling %s failed:\n%s' % (src, r.stdout[-4000:]))
            os.replace(tmp, o)
        return o

    every = all_sources()
    subset = [s for s in every if os.path.basename(s) in needed]
    hsrc = os.path.join(HARN, harness + '.cpp')
    last = ''
    for srcs in ([subset, every] if len(subset) < len(every) else [every]):
        with ThreadPoolExecutor(NCPU) as ex:
            objs = list(ex.map(obj, [hsrc] + srcs))
        key = hashlib.sha256(' '.join(objs).encode()).hexdigest()[:24]
        exe = os.path.join(BUILD, harness + '.' + key)
        if os.path.exists(exe):
            return exe
        tmp = exe + '.%d.tmp' % os.getpid()
        r = _run(['g++', '-pthread', '-o', tmp] + objs)
        if r.returncode == 0:
            os.replace(tmp, exe)
            return exe
        last = r.stdout
    raise CheckError('linking %s failed:\n%s' % (harness, last[-4000:]))


# ------------------------------------------------------------------ scenarios
def scenario_text(scen):
    """scen: list of (id, ops); op: [name, int...]"""
    out = []
    for sid, ops in scen:
        out.append('S %s %d' % (sid, len(ops)))
        for op in ops:
            out.append(' '.join(str(x) for x in op))
    return '\n'.join(out) + '\n'


def run_driver(exe, scen, work, timeout=600, env=None):
    """Runs every scenario against the real code (each in a forked child of the driver).
    Returns the list of parsed trace objects, in order."""
    n = max(1, min(NCPU, (len(scen) + 3) // 4))
    chunks = [scen[i::n] for i in range(n)]
    e = dict(os.environ)
    if env:
        e.update(env)

    def one(i):
        inp = os.path.join(work, 'scen%d.txt' % i)
        outp = os.path.join(work, 'trace%d.ndjson' % i)
        with open(inp, 'w') as f:
            f.write(scenario_text(chunks[i]))
        r = subprocess.run([exe, inp, outp], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True,
                           timeout=timeout, env=e, cwd=work)
        if r.returncode:
            raise CheckError('driver %s failed (%d): %s' % (exe, r.returncode, r.stderr[-2000:]))
        with open(outp) as f:
            lines = [l for l in f.read().split('\n') if l]
        if len(lines) != len(chunks[i]):
            raise CheckError('driver wrote %d traces for %d scenarios' % (len(lines), len(chunks[i])))
        return [json.loads(l) for l in lines]

    with ThreadPoolExecutor(n) as ex:
        parts = list(ex.map(one, range(n)))
    out = [None] * len(scen)
    for i in range(n):
        for j, t in enumerate(parts[i]):
            out[i + j * n] = t
    return out


# ------------------------------------------------------------------ TLC
class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out.replace(',', '').replace(
            'generated ', 'generated, ') if False else out)
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        m = re.search(r'Invariant (\S+) is violated', out)
        self.violated = m.group(1) if m else None
        if self.violated is None and 'is violated' in out:
            m = re.search(r'(?:Action property|Temporal properties|property) ?(\S*) (?:is|were) violated', out)
            self.violated = m.group(1) if m else 'property'
        self.ok = rc == 0 and 'Model checking completed. No error has been found' in out


def tlc(module, cfg, work, env=None, workers=None, args=(), timeout=800, heap='6g', simulate=False):
    """Run TLC on spec/<module>.tla with the given cfg text in its own directory."""
    d = os.path.join(work, 'tlc_%s_%d' % (module, int(time.time() * 1e6) % 10**9))
    os.makedirs(d)
    for f in glob.glob(os.path.join(SPEC, '*.tla')):
        os.symlink(f, os.path.join(d, os.path.basename(f)))
    with open(os.path.join(d, 'run.cfg'), 'w') as f:
        f.write(cfg)
    e = dict(os.environ)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', JAVA_CP, 'tlc2.TLC', '-deadlock', '-noGenerateSpecTE',
           '-workers', str(workers or NCPU), '-metadir', os.path.join(d, 'meta'), '-config', 'run.cfg'] + list(args) + [module + '.tla']
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=d, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC on %s ran out of time' % module)
    res = TlcResult(r.returncode, r.stdout)
    shutil.rmtree(d, ignore_errors=True)
    return res


def model_check(module, work, invariants, constants=None, properties=(), constraint=None, view=None, timeout=600):
    """Exhaustively check the specification itself. A violation here is a fault of the specification."""
    cfg = 'SPECIFICATION Spec\n'
    for k, v in (constants or {}).items():
        cfg += 'CONSTANT %s = %s\n' % (k, v)
    for i in invariants:
        cfg += 'INVARIANT %s\n' % i
    for i in properties:
        cfg += 'PROPERTY %s\n' % i
    if constraint:
        cfg += 'CONSTRAINT %s\n' % constraint
    if view:
        cfg += 'VIEW %s\n' % view
    r = tlc(module, cfg, work, timeout=timeout)
    if not r.ok:
        raise CheckError('the specification %s does not satisfy its own properties:\n%s' % (module, r.out[-3000:]))
    return r


def tlc_generate(module, work, constants=None, simulate=None, depth=None, seed=1, timeout=300, constraint=None):
    """Let TLC enumerate (or, with simulate=N, randomly walk) behaviours of a generator module, which prints
    each finished behaviour's action list as '@@' followed by JSON. Returns (list of op lists, result)."""
    cfg = 'SPECIFICATION Spec\n'
    for k, v in (constants or {}).items():
        cfg += 'CONSTANT %s = %s\n' % (k, v)
    cfg += 'INVARIANT Emit\n'
    if constraint:
        cfg += 'CONSTRAINT %s\n' % constraint
    args = []
    if simulate:
        args = ['-simulate', 'num=%d' % simulate, '-depth', str(depth), '-seed', str(seed)]
    r = tlc(module, cfg, work, args=args, workers=1 if simulate else NCPU, timeout=timeout)
    if r.rc not in (0,):
        raise CheckError('generator %s failed:\n%s' % (module, r.out[-3000:]))
    seen, out = set(), []
    for line in r.out.split('\n'):
        k = line.find('@@')
        if k < 0:
            continue
        t = line[k + 2:].rstrip()
        if t.endswith('"'):
            t = t[:-1]
        t = t.replace('\\"', '"')
        if t in seen:
            continue
        seen.add(t)
        out.append(json.loads(t))
    if not out:
        raise CheckError('generator %s produced nothing:\n%s' % (module, r.out[-2000:]))
    if simulate:
        # TLC prints every candidate for the last step of a walk: keep one behaviour per walk
        pre = {}
        for x in out:
            pre.setdefault(json.dumps(x[:-1]), x)
        out = list(pre.values())
    else:
        out.sort(key=lambda x: json.dumps(x))   # independent of the order in which TLC's workers print
    m = re.search(r'The number of states generated: ([\d,]+)', r.out)
    r.states = r.distinct or (int(m.group(1).replace(',', '')) if m else 0)
    return out, r


def validate(module, traces, work, invs, constants=None, timeout=700, batch=None):
    """Check recorded traces against the trace specification `module` (TLC decides).
    Returns (violation or None, states, transitions)."""
    tot_s = tot_t = 0
    f = os.path.join(work, 'all.ndjson')
    with open(f, 'w') as fh:
        for t in traces:
            fh.write(json.dumps(t) + '\n')
    cfg = 'SPECIFICATION Spec\n'
    for k, v in (constants or {}).items():
        cfg += 'CONSTANT %s = %s\n' % (k, v)
    for i in invs:
        cfg += 'INVARIANT %s\n' % i
    r = tlc(module, cfg, work, env={'TRACE_FILE': f}, timeout=timeout)
    if r.violated:
        m = re.findall(r'/\\ tr = (\d+)', r.out)
        k = re.findall(r'/\\ l = (\d+)', r.out)
        b = re.findall(r'/\\ bad = (.*?)(?=\n/\\ |\n\n|\Z)', r.out, re.S)
        return dict(inv=r.violated, tr=int(m[-1]) - 1, l=int(k[-1]), bad=b[-1][:2000] if b else ''), r.distinct, r.generated
    if not r.ok and 'The behavior up to this point is' in r.out and 'OutOfMemory' not in r.out:
        # the recorded observation is outside of what the specification can evaluate at all
        m = re.findall(r'/\\ tr = (\d+)', r.out)
        k = re.findall(r'/\\ l = (\d+)', r.out)
        if m and k and int(k[-1]) < len(traces[int(m[-1]) - 1]['ev']):
            return dict(inv='DomainOf' + module, tr=int(m[-1]) - 1, l=int(k[-1]) + 1, bad=r.out[r.out.find('Error:'):][:600]), r.distinct, r.generated
    if not r.ok:
        raise CheckError('TLC failed on %s:\n%s' % (module, r.out[r.out.find('Error:'):][:2500]))
    expect = sum(len(t['ev']) + 1 for t in traces)
    if r.distinct != expect:
        raise CheckError('trace validation with %s visited %d states, expected %d (a trace got stuck)' % (module, r.distinct, expect))
    return None, r.distinct, r.generated


# ------------------------------------------------------------------ evidence and verdict
class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(WORK, '%s-%s-%d' % (prop, tier, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.rng = random.Random('%s/%s/%d' % (prop, tier, seed))
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.notes, self.assumptions = [], {}, []
        self.violations = []
        self.thorough = tier == 'thorough'

    def bg(self, fn):
        """Run fn (usually the build) while the specification is being checked; conform waits for it."""
        ex = ThreadPoolExecutor(1)
        f = ex.submit(fn)
        ex.shutdown(wait=False)
        return f

    def add(self, r):
        self.states += r.distinct or getattr(r, 'states', 0)
        self.transitions += r.generated

    def note(self, **kw):
        self.notes.update(kw)

    def violation(self, what, replay):
        d = os.path.join(WORK, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%d.json' % (self.prop, self.tier, len(self.violations) + 1))
        with open(path, 'w') as f:
            json.dump(dict(property=self.prop, seed=self.seed, what=what, **replay), f, indent=1)
        self.violations.append(path)
        log('%s: %s' % (self.prop, what))
        log('VIOLATION property=%s replay=%s' % (self.prop, path))

    def conform(self, module, exe, scen, inv=None, constants=None, env=None, driver_timeout=600, timeout=700, confirm=True):
        """Replay scenarios into the real code, let TLC judge the recorded traces."""
        inv = inv or ['Conf_' + self.prop]
        if hasattr(exe, 'result'):
            exe = exe.result()
        traces = run_driver(exe, scen, self.work, env=env, timeout=driver_timeout)
        v, s, t = validate(module, traces, self.work, inv, constants, timeout=timeout)
        self.states += s
        self.transitions += t
        self.traces += len(traces)
        self.events += sum(len(x['ev']) for x in traces)
        if len(self.samples) < 3 and scen:
            sid, ops = scen[len(scen) // 2]
            self.samples.append(dict(scenario=sid, ops=ops[:40], last_event=str(traces[len(scen) // 2]['ev'][-1])[:600] if traces[len(scen) // 2]['ev'] else ''))
        if v:
            sid, ops = scen[v['tr']]
            ev = traces[v['tr']]['ev']
            l = v['l']
            if confirm and any(x['op'] == 'crash' and x['o'].get('hang') for x in ev):   # a hang must not be the machine's load
                again = run_driver(exe, [scen[v['tr']]], self.work, env=env)
                v2, _, _ = validate(module, again, self.work, inv, constants)
                if not v2:
                    raise CheckError('hang in scenario %s was not reproducible' % sid)
            self.violation('%s at event %d of scenario %s: %s' % (v['inv'], l, sid, v['bad']),
                           dict(module=module, scenario=sid, ops=ops, event_index=l, event=ev[l - 1] if 0 < l <= len(ev) else None, detail=v['bad']))
        return v is None, traces

    def finish(self, level='model_checking'):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   events_validated=self.events, samples=self.samples)
        cov.update(self.notes)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        if not os.environ.get('VERIF_NOEVIDENCE'):
          with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
              json.dump(ev, f, indent=1)
        os.environ.get('VERIF_KEEP') or shutil.rmtree(self.work, ignore_errors=True)
        log('%s %s: %d model states, %d traces (%d events) validated, %.1f s' % (
            self.prop, 'VIOLATED' if self.violations else 'ok', self.states, self.traces, self.events, time.time() - self.t0))
        return 1 if self.violations else 0
