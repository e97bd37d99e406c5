#!/usr/bin/env python3
"""Run the checks of one property:  check.py <PROPERTY> quick|thorough

Every check builds its harness from /repo's current tree, records executions
of the real code (or runs programs generated from the specification on it) and
lets TLC decide with the TLA+ modules in spec/.  See DESIGN.md.
Exit status: 0 held, 1 VIOLATION printed, 2 the check itself failed.
"""
import json, os, re, shutil, signal, subprocess, sys, time, tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
TLA = '/opt/veriftools/tla'
sys.path.insert(0, VERIF)

class CheckError(Exception):
    pass

class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=prop + '-', dir=os.path.join(VERIF, 'build'))
        self.bins = {}
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.known = [], [], []
        self.cov = {}
        self.assumptions = []
        self._classes = None
    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n
    # ------------------------------------------------------------- building
    def classes(self):
        if self._classes is None:
            d = os.path.join(self.work, 'classes'); os.makedirs(d)
            src = [os.path.join(VERIF, 'java', f) for f in sorted(os.listdir(os.path.join(VERIF, 'java'))) if f.endswith('.java')]
            run(['javac', '-nowarn', '-cp', TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar', '-d', d] + src, 120)
            self._classes = d
        return self._classes
    def build(self, src, defs=(), libs=(), opt='-O0', cxx='g++', parts=None):
        """Compile harness/<src>.cpp against the current tree; returns the binary.
        A harness uses only the public interface: if the library can be
        included but the harness does not compile, an operation the property
        is about cannot be called any more, which is a violation."""
        key = (src, tuple(defs), opt)
        if key in self.bins:
            return self.bins[key]
        out = os.path.join(self.work, src + '-' + str(len(self.bins)))
        base = [cxx, '-std=gnu++11', '-w', opt, '-I', REPO, '-I', '/usr/include/eigen3', '-I', os.path.join(VERIF, 'harness')]
        procs, objs = [], []
        for p in (parts or [None]):
            o = out + ('-%s.o' % p if p else '.o')
            cmd = base + list(defs) + (['-DPART=%s' % p] if p else []) + ['-c', os.path.join(VERIF, 'harness', src + '.cpp'), '-o', o]
            procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
            objs.append(o)
        for cmd, pr in procs:
            msg, _ = pr.communicate(timeout=600)
            if pr.returncode:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)  # once more
                if r.returncode == 0:
                    continue
                errs = [l for l in r.stdout.splitlines() if 'error' in l]
                if pr.returncode < 0 or r.returncode < 0 or not errs or any('internal compiler' in l or 'Killed' in l for l in r.stdout.splitlines()):
                    raise CheckError('compiler failed on harness %s:\n%s' % (src, r.stdout[-2000:]))
                self.violation('harness %s does not compile against the tree: %s' % (src, errs[0]), {'compile_errors': errs[:20], 'cmd': cmd})
                return None
        r = subprocess.run([cxx, '-o', out] + [x for x in defs if x.startswith('-fsan')] + objs + list(libs) + ['-pthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            self.violation('harness %s does not link: %s' % (src, r.stdout[-500:]), {'link': r.stdout[-3000:]})
            return None
        self.bins[key] = out
        return out
    def compile_start(self, src, defs):
        o = os.path.join(self.work, '%s-%d.o' % (src, len(os.listdir(self.work))))
        while os.path.exists(o): o += '.o'
        open(o, 'w').close()
        cmd = ['g++', '-std=gnu++11', '-w', '-I', REPO, '-I', '/usr/include/eigen3', '-I', os.path.join(VERIF, 'harness')] + list(defs) \
              + ['-c', os.path.join(VERIF, 'harness', src + '.cpp'), '-o', o]
        return o, src, cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    def compile_end(self, job):
        o, src, cmd, pr = job
        pr.communicate(timeout=600)
        if pr.returncode:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)  # once more
            if r.returncode:
                errs = [l for l in r.stdout.splitlines() if 'error' in l]
                if r.returncode < 0 or not errs or any('internal compiler' in l or 'Killed' in l for l in r.stdout.splitlines()):
                    raise CheckError('compiler failed on harness %s:\n%s' % (src, r.stdout[-2000:]))
                self.violation('unit %s does not compile against the tree: %s' % (src, errs[0]), {'compile_errors': errs[:20], 'cmd': cmd})
        return o
    def link(self, objs):
        out = os.path.join(self.work, 'prog-%d' % len(os.listdir(self.work)))
        r = subprocess.run(['g++', '-o', out] + objs + ['-pthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            self.violation('the units do not link: %s' % r.stdout[-500:], {'link': r.stdout[-3000:]})
            return None
        return out
    def runs(self, binary, args, what):
        for _ in range(2):
            try:
                r = subprocess.run([binary] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
            except subprocess.TimeoutExpired:
                r = None
            if r and r.returncode == 0:
                return True
        self.violation('%s: %s' % (what, 'does not end' if r is None else 'dies before main, status %d: %s' % (r.returncode, r.stdout[-300:])), {'args': args})
        return False
    def build_if_possible(self, *a, **k):
        """for builds that need more than the public interface (a replaced
        std::atomic, a sanitizer): a failure says nothing about the property"""
        n = len(self.violations)
        try:
            b = self.build(*a, **k)
        except CheckError:
            b = None
        del self.violations[n:]
        return b
    def race_detector_works(self, binary):
        r = subprocess.run([binary, '1', '1', 'ids', os.path.join(self.work, 'probe'), '1'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return 'FATAL: ThreadSanitizer' not in r.stdout and 'unexpected memory mapping' not in r.stdout
    # ------------------------------------------------------------------ TLC
    def tlc(self, mod, cfg, env=None, timeout=800, heap='6g', args=()):
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.work)
        cfgp = os.path.join(d, mod + '.cfg')
        with open(cfgp, 'w') as f:
            f.write(cfg)
        cp = self.classes() + ':' + TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar'
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + d,
               '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:RatOverrides',
               '-cp', cp, 'tlc2.TLC', '-noGenerateSpecTE', '-workers', '8', '-metadir', os.path.join(d, 'md'), '-config', cfgp] \
              + list(args) + [os.path.join(VERIF, 'spec', mod + '.tla')]
        e = dict(os.environ); e.update(env or {})
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout, cwd=d)
        except subprocess.TimeoutExpired:
            raise CheckError('TLC timed out on ' + mod)
        out = r.stdout
        shutil.rmtree(d, ignore_errors=True)
        m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        res = {'out': out, 'generated': int(m.group(1)) if m else 0, 'distinct': int(m.group(2)) if m else 0,
               'ok': 'Model checking completed. No error has been found.' in out,
               'violated': re.search(r'Invariant (\w+) is violated|(Action property|Temporal properties) ', out) is not None,
               'cmd': cmd}
        if not res['ok'] and not res['violated']:
            open(os.path.join(VERIF, 'build', 'last-tlc-error.txt'), 'w').write(out)
            raise CheckError('TLC error on %s:\n%s' % (mod, '\n'.join(l for l in out.splitlines() if not l.startswith(('Linting', 'Parsing', 'Semantic')))[-3000:]))
        return res
    # ------------------------------------------------------------ reporting
    def violation(self, what, data):
        d = os.path.join(VERIF, 'replay', self.prop); os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d-%d.json' % (self.tier, self.seed, len(self.violations)))
        with open(p, 'w') as f:
            json.dump({'property': self.prop, 'what': what, 'seed': self.seed, 'data': data}, f, indent=1, default=str)
        self.violations.append((what, p))
    def finish(self):
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': dict(self.cov, states=self.states, transitions=self.transitions,
                               traces_validated_against_impl=self.traces, samples=self.samples[:6]),
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)

def run(cmd, timeout, env=None, cwd=None):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=env, cwd=cwd)
    except subprocess.TimeoutExpired:
        raise CheckError('timeout: ' + ' '.join(map(str, cmd)))
    if r.returncode:
        raise CheckError('%s\nexit %d\n%s\n%s' % (' '.join(map(str, cmd)), r.returncode, r.stdout[-2000:], r.stderr[-2000:]))
    return r.stdout

def tlc_value(out, name):
    """text of a variable in the last printed state"""
    states = re.split(r'\nState \d+: .*\n', out)
    if len(states) < 2:
        return None
    m = re.search(r'(?:^|\n)/\\ %s = (.*?)(?=\n/\\ |\n\n|\Z)' % re.escape(name), states[-1], re.S)
    return ' '.join(m.group(1).split()) if m else None

def tla_set(props):
    return '{' + ', '.join('"%s"' % p for p in props) + '}'

# ---------------------------------------------------------------- trace jobs
def trace_job(c, binary, mod, args, label, consts=None, extra_cfg='', once_is_enough=False, props=None):
    """record histories with the harness, validate them with TLC"""
    if binary is None:
        return
    props = props or [c.prop]
    cfg = 'INIT Init\nNEXT Next\nINVARIANT Conforms\nALIAS Brief\nCHECK_DEADLOCK FALSE\nCONSTANT Props = %s\n' % tla_set(props)
    for k, v in (consts or {}).items():
        cfg += 'CONSTANT %s = %s\n' % (k, v)
    cfg += extra_cfg
    def once(tag):
        path = os.path.join(c.work, 'trace-%s-%s.ndjson' % (label, tag))
        out = run([binary] + [str(a) if a != '@OUT' else path for a in args], 600)
        lines = [l for l in open(path) if l.strip()]
        if not lines:
            raise CheckError('harness recorded nothing: ' + label)
        res = c.tlc(mod, cfg, {'TRACE': path})
        return path, out, lines, res
    path, hout, lines, res = once('a')
    events = 0
    for l in lines:
        events += len(json.loads(l)['ev'])
    if res['ok']:
        if res['distinct'] != events + len(lines):
            raise CheckError('%s: %d states for %d events in %d histories: histories not consumed' % (label, res['distinct'], events, len(lines)))
        c.states += res['distinct']; c.transitions += events; c.traces += len(lines)
        for l in hout.splitlines():
            m = re.match(r'op (\S+) (\d+)', l)
            if m:
                c.add('events_' + m.group(1), int(m.group(2)))
        if len(c.samples) < 4:
            d = json.loads(lines[len(c.samples) % len(lines)])
            d['ev'] = d['ev'][:4]
            while len(d['ev']) > 1 and len(json.dumps(d)) > 4000:
                d['ev'].pop()
            if len(json.dumps(d)) > 4000:
                d = json.dumps(d)[:4000]
            c.samples.append({'job': label, 'history': d})
        os.unlink(path)
        return
    # a rejection: report it only if a second recording repeats it, unless
    # the history depends on the schedule of threads
    if once_is_enough:
        res2 = res
    else:
        path2, _, _, res2 = once('b')
    if res2['ok']:
        raise CheckError('%s: rejection not repeated by a second run' % label)
    h, pos, bad = tlc_value(res['out'], 'history'), tlc_value(res['out'], 'pos'), tlc_value(res['out'], 'bad')
    d = json.loads(lines[int(h) - 1]) if h else {}
    if d:
        d['ev'] = d['ev'][:int(pos)]
    c.states += res['distinct']; c.transitions += res['generated']; c.traces += len(lines)
    c.violation('%s: history %s, event %s: %s' % (label, h, pos, bad),
                {'harness_args': args, 'module': mod, 'history': h, 'position': pos, 'disagreement': bad, 'events': d,
                 'how_to_replay': 'build harness with check.py, run it with harness_args, check the trace with spec/%s.tla' % mod})

def model_job(c, mod, cfg, label, expect_violation=False, timeout=600, env=None):
    """exhaustive check of a design model; with expect_violation, of a
    deliberately wrong variant that TLC must reject (non-vacuity)"""
    res = c.tlc(mod, cfg, env, timeout=timeout)
    if expect_violation:
        if not res['violated']:
            raise CheckError('%s: TLC accepted a wrong design: the model is vacuous' % label)
        c.add('rejected_wrong_designs', 1)
    else:
        if not res['ok']:
            raise CheckError('%s: the design model violates its own invariants:\n%s' % (label, res['out'][-3000:]))
        c.states += res['distinct']; c.transitions += res['generated']
        c.add('model_states_' + mod, res['distinct'])
    return res

def main():
    if len(sys.argv) != 3 or sys.argv[2] not in ('quick', 'thorough'):
        print(__doc__); return 2
    prop, tier = sys.argv[1:]
    import checks
    if prop not in checks.CHECKS:
        print('no check for', prop); return 2
    c = Ctx(prop, tier)
    def cleanup(*_):
        shutil.rmtree(c.work, ignore_errors=True)
    signal.signal(signal.SIGTERM, lambda *_: (cleanup(), os._exit(2)))
    try:
        checks.run(c)
        c.finish()
        for k in c.known:
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
        for what, path in c.violations:
            print('found:', what[:600])
            print('VIOLATION property=%s replay=%s' % (prop, path))
        if not c.violations:
            print('property %s: held; states %d, transitions %d, traces %d, %.1f s' % (prop, c.states, c.transitions, c.traces, time.time() - c.t0))
        return 1 if c.violations else 0
    except CheckError as e:
        print('check error:', e)
        if c.violations:    # already established by another job
            c.finish()
            for what, path in c.violations:
                print('found:', what[:600])
                print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        return 2
    finally:
        cleanup()

if __name__ == '__main__':
    sys.exit(main())
