"""What each property's check runs.  See DESIGN.md."""
import random
import itertools, os, re, time
from check import trace_job, model_job, run as sh, CheckError, VERIF, REPO, tla_set

THOROUGH_S = float(os.environ.get('VERIF_THOROUGH_S', '600'))

def rounds(c):
    """quick: one round with the given seed; thorough: rounds until the budget"""
    r = 0
    while True:
        yield c.seed * 1000 + r, r
        r += 1
        if c.tier == 'quick' or c.violations or time.time() - c.t0 > THOROUGH_S:
            return

def first(profiles):
    """histories of UReal against spec/FirstTrace.tla"""
    def f(c):
        b = c.build('h1')
        for seed, r in rounds(c):
            for prof, n in profiles:
                if c.violations: return
                n = n if c.tier == 'quick' else 4 * n
                trace_job(c, b, 'FirstTrace', ['trace', seed, n, prof, '@OUT'], '%s-%d' % (prof, seed))
    return f

INPLACE = {'iadd', 'isub', 'imul', 'bas'}
NARGS = {'new': 3, 'const': 2, 'copy': 2, 'neg': 2, 'un': 3, 'add': 3, 'sub': 3, 'mul': 3, 'iadd': 2, 'isub': 2, 'imul': 2, 'bas': 4, 'chnom': 3, 'rs': 1, 'rv': 1}
def split_ops(prog):
    w = prog.split('|')[0].split(); ops = []
    while w:
        k = 1 + NARGS[w[0]]; ops.append(w[:k]); w = w[k:]
    return ops
def blame(op, codes):
    """properties contradicted by the observations after the last operation"""
    t, name, out = op[1], op[0], set()
    base = [x for x in codes if x[0] in 'nC']
    for x in (base or codes):
        own = x[1:] == t
        if x[0] in 'nC':
            if not own: out |= {'C04'} | ({'C02'} if name in INPLACE else {'C03'} if name in ('rs', 'rv') else set())
            else: out |= {'C02'} if name in INPLACE else {'C04'} if name in ('copy', 'chnom') else {'C03', 'C04'} if name in ('rs', 'rv') else {'C01'}
        elif x[0] == 'S': out |= {'C03'} | ({'C02'} if own and name in INPLACE else {'C04'} if name in ('copy', 'chnom') else {'C01'} if own and name not in ('rs', 'rv') else set())
        elif x[0] == 'I': out |= {'C05'} | ({'C04'} if name in ('copy', 'chnom') else set())
        elif x[0] == 'G': out.add('C07')
        elif x[0] == 'X': out |= {'C03', 'C01'}
        elif x[0] == 'K': out |= {'C01', 'C02', 'C03', 'C04', 'C05', 'C07'}
    return out

def ureal_model(quick, thorough, bugs=()):
    """spec/UReal.tla exhaustively; every transition is run on the real class"""
    inv = 'INIT Init\nNEXT Next\nVIEW view\nINVARIANT Refines Spread Covs Identity ClassInv\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\n'
    def cfg(k, emit, bug=''):
        return inv + 'CONSTANTS NR = %d NB = %d PRE = %d DEPTH = %d MAXC = 4 MAXN = 6 EMIT = %s BUG = "%s"\n' % (tuple(k) + ('TRUE' if emit else 'FALSE', bug))
    def f(c):
        b = c.build('h1')
        if not b: return
        for k in (quick if c.tier == 'quick' else thorough):
            res = model_job(c, 'UReal', cfg(k, True), 'UReal%s' % (k,), timeout=1500)
            path = os.path.join(c.work, 'programs.txt'); bad = path + '.bad'
            n = 0
            with open(path, 'w') as o:
                for l in res['out'].splitlines():
                    if l.startswith('"P '):
                        o.write(l[3:-1] + '\n'); n += 1
            if n != res['generated'] - 1:
                raise CheckError('UReal: %d programs for %d transitions' % (n, res['generated'] - 1))
            sh([b, 'script', path, bad], 900)
            fails = [l.rstrip('\n').split('\t') for l in open(bad)]
            failing = {' '.join(p.split('|')[0].split()) for _, _, p in fails}
            for codes, err, prog in fails:
                ops = split_ops(prog)
                if ' '.join(sum(ops[:-1], [])) in failing: continue   # already wrong before the last operation
                if c.prop in blame(ops[-1], codes.split(',')):
                    c.violation('program of the model: %s: %s' % (prog.split('|')[0], err), {'program': prog, 'error': err, 'how_to_replay': 'h1 script <file with this program> <out>'})
                    return
            c.traces += n
            c.add('model_programs_run_on_implementation', n)
            c.samples.append({'job': 'UReal', 'program': open(path).readlines()[n // 2].strip()})
        for bug in bugs:
            model_job(c, 'UReal', cfg((2, 2, 2, 3), False, bug), 'UReal/' + bug, expect_violation=True)
    return f

NARGS2 = {'new': 9, 'const': 2, 'copy': 2, 'read': 1, 'neg': 2, 'un': 5, 'add': 3, 'sub': 3, 'mul': 3, 'bi': 9, 'bas': 8}
def split_ops2(prog):
    w = prog.split('|')[0].split()[3:]; ops = []
    while w:
        k = 1 + NARGS2[w[0]]; ops.append(w[:k]); w = w[k:]
    return ops
def blame2(op, codes):
    """properties contradicted by the observations after the last operation"""
    t, name, out = op[1], op[0], set()
    coef = [x for x in codes if x[0] in 'nGH']
    for x in (coef or codes):
        own = x[1:] == t
        if x[0] in 'nGH': out |= {'C08'} if own and name not in ('copy', 'read') else {'C04'}
        elif x[0] == 'I': out |= {'C05'} | ({'C04'} if name in ('copy', 'read') or not own else set())
        elif x[0] == 'M': out |= {'C09'} | ({'C04'} if name in ('copy', 'read') or not own else set())
        elif x[0] == 'X': out.add('C10')
        else: out |= {'C04', 'C05', 'C08', 'C09', 'C10'}
    return out

def ureal2_model(quick, thorough, bugs=()):
    """spec/UReal2.tla exhaustively; every transition is run on the real class"""
    cfg = 'INIT Init\nNEXT Next\nVIEW view\nINVARIANT Refines Form Moms\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS NR = %d NB = %d PRE = %d DEPTH = %d MAXN = 12 MAXC = 12 EMIT = %s BUG = "%s"\n'
    def f(c):
        b = c.build('h2s')
        if not b: return
        for k in (quick if c.tier == 'quick' else thorough):
            res = model_job(c, 'UReal2', cfg % (tuple(k) + ('TRUE', '')), 'UReal2', timeout=3000)
            progs = [l[3:-1] for l in res['out'].splitlines() if l.startswith('"P ')]
            if len(progs) != res['generated'] - 1:
                raise CheckError('UReal2: %d programs for %d transitions' % (len(progs), res['generated'] - 1))
            path = os.path.join(c.work, 'programs2.txt')
            with open(path, 'w') as o:
                o.write('\n'.join(progs) + '\n')
            sh([b, path, path + '.bad'], 900)
            fails = [l.rstrip('\n').split('\t') for l in open(path + '.bad')]
            failing = {' '.join(p.split('|')[0].split()) for _, _, p in fails}
            for codes, err, prog in fails:
                ops = split_ops2(prog)
                if ' '.join(prog.split()[:3] + sum(ops[:-1], [])) in failing: continue   # already wrong before the last operation
                if c.prop in blame2(ops[-1], codes.split(',')):
                    c.violation('program of the model: %s: %s' % (prog.split('|')[0], err), {'program': prog, 'error': err, 'how_to_replay': 'h2s <file with this program> <out>'})
                    return
            c.traces += len(progs)
            c.add('model_programs_run_on_implementation', len(progs))
            c.samples.append({'job': 'UReal2', 'program': progs[len(progs) // 2]})
        for bug in bugs:
            model_job(c, 'UReal2', cfg % (2, 2, 2, 3, 'FALSE', bug), 'UReal2/' + bug, expect_violation=True)
    return f

def user_type(profiles):
    """the same histories with a numeric type defined by the user (harness/quad.hpp)"""
    FIRST = ['C01', 'C02', 'C03', 'C04', 'C05', 'C07', 'C11', 'C13']
    SECOND = ['C04', 'C05', 'C08', 'C09', 'C10', 'C12', 'C13', 'C20']
    OTHER = {'ctor': ['C18', 'C05'], 'distr': ['C19'], 'ureals': ['C16', 'C05'], 'stat': ['C17'], 'short': ['C14'], 'mid': ['C14'], 'wide': ['C14'], 'special': ['C15', 'C14']}
    def f(c):
        for seed, r in rounds(c):
            for harness, mod, prof, n in profiles:
                if c.violations: return
                props = FIRST if harness == 'h1' else SECOND if harness == 'h2' else OTHER[prof]
                b = c.build(harness, defs=['-DUSERTYPE'], libs=['-lquadmath'], parts=[1, 7] if harness == 'h2' else None)
                n = n if c.tier == 'quick' else 3 * n
                args = ['trace'] if harness in ('h1', 'h2') else []
                trace_job(c, b, mod, args + [seed, n, prof, '@OUT'], 'q-%s-%d' % (prof, seed), props=props)
    return f

def second(profiles):
    """histories of UReal2 against spec/SecondTrace.tla"""
    def f(c):
        b = c.build('h2', parts=[1, 2, 3, 4, 5, 6])
        for seed, r in rounds(c):
            for prof, n in profiles:
                if c.violations: return
                n = n if c.tier == 'quick' else 3 * n
                trace_job(c, b, 'SecondTrace', ['trace', seed, n, prof, '@OUT'], '%s-%d' % (prof, seed))
    return f

def second_mc(c):
    """the operators of spec/Second.tla against their definitions"""
    model_job(c, 'SecondMC', 'INIT Init\nNEXT Next\nINVARIANT MomentsOK CovOK ArithOK BiOK ScalesOK\nCHECK_DEADLOCK FALSE\nCONSTANTS WIDE = %s\n'
              % ('FALSE' if c.tier == 'quick' else 'TRUE'), 'SecondMC', timeout=1500)

def sparse_hess(c):
    """spec/SparseHess.tla exhaustively; every terminal state is run on UReal2"""
    inv = 'INIT Init\nNEXT Next\nINVARIANT Refines\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS N=%d FULL=%s EMIT=%s BUG="%s"\n'
    b = c.build('h2s')
    if not b: return
    for n, full in [(3, 'FALSE'), (2, 'TRUE')] + ([(3, 'TRUE')] if c.tier == 'thorough' else []):
        res = model_job(c, 'SparseHess', inv % (n, full, 'TRUE', ''), 'SparseHess', timeout=1500)
        path = os.path.join(c.work, 'hess.txt')
        progs = [l[3:-1] for l in res['out'].splitlines() if l.startswith('"P ')]
        init = int(re.search(r'initial states: (\d+)', res['out']).group(1))
        if len(progs) != init:
            raise CheckError('SparseHess: %d programs for %d initial states' % (len(progs), init))
        with open(path, 'w') as o:
            o.write('\n'.join(progs) + '\n')
        sh([b, path, path + '.bad'], 900)
        for l in open(path + '.bad'):
            err, prog = l.rstrip('\n').split('\t')
            c.violation('program of the sparse Hessian model: %s' % err, {'program': prog, 'error': err, 'how_to_replay': 'h2s <file with this program> <out>'})
            return
        c.traces += len(progs)
        c.add('model_programs_run_on_implementation', len(progs))
        c.samples.append({'job': 'SparseHess', 'program': progs[len(progs) // 2]})
    for bug in ['skipalways', 'nocross', 'diagtwice']:
        model_job(c, 'SparseHess', inv % (2, 'TRUE', 'FALSE', bug), 'SparseHess/' + bug, expect_violation=True)

MOTIFS = {   # N, WHAT, START, TERMS, MAXT, scale of patterns
    'mom': ([(3, 'none', 'all', 9), (4, 'blocks', 'cross', 6)], [(4, 'none', 'all', 14), (5, 'blocks', 'cross', 10)]),
    'cov': ([(2, 'none', 'all', 5), (3, 'none', 'all', 2), (4, 'none', 'cross', 6)], [(2, 'none', 'all', 5), (4, 'none', 'all', 2), (3, 'none', 'all', 9)]),
}
def motifs(what):
    """spec/Motifs.tla: every pattern of terms, each run on UReal2"""
    cfg = 'INIT Init\nNEXT Next\nINVARIANT %s\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS N=%d WHAT="%s" START="%s" TERMS="%s" MAXT=%d EMIT=%s BUG="%s"\n'
    def f(c):
        b = c.build('h2s')
        if not b: return
        for n, start, terms, maxt in MOTIFS[what][c.tier == 'thorough']:
            res = model_job(c, 'Motifs', cfg % ('MomOK CovOK Needed', n, what, start, terms, maxt, 'TRUE', ''), 'Motifs', timeout=3000)
            progs = [l[3:-1] for l in res['out'].splitlines() if l.startswith('"P ')]
            init = (1 if start == 'none' else 4) ** (2 if what == 'cov' else 1)
            if len(progs) != res['generated'] - init:
                raise CheckError('Motifs: %d programs for %d states' % (len(progs), res['generated']))
            path = os.path.join(c.work, 'motifs.txt')
            with open(path, 'w') as o:
                o.write('\n'.join(progs) + '\n')
            sh([b, path, path + '.bad'], 900)
            for l in open(path + '.bad'):
                err, prog = l.rstrip('\n').split('\t')
                c.violation('program of the model Motifs: %s' % err, {'program': prog, 'error': err, 'how_to_replay': 'h2s <file with this program> <out>'})
                return
            c.traces += len(progs)
            c.add('model_programs_run_on_implementation', len(progs))
            c.samples.append({'job': 'Motifs', 'program': progs[len(progs) // 2]})
        for bug in ['drop', 'ordered', 'gauss']:
            model_job(c, 'Motifs', cfg % ('MomOK CovOK', 4 if what == 'mom' else 2, what, 'blocks' if what == 'mom' else 'none', 'cross' if what == 'mom' else 'all', 6, 'FALSE', bug),
                      'Motifs/' + bug, expect_violation=True)
    return f

def math_table(c):
    """MathFn's own conditions on a table made with the C library (no code of
    the repository involved): a failure is an error of the check"""
    b = c.build('h1')
    if not b: return
    path = os.path.join(c.work, 'table.ndjson')
    sh([b, 'table', path], 120)
    res = c.tlc('MathTable', open(os.path.join(VERIF, 'spec', 'MathTable.cfg')).read(), {'TRACE': path})
    if not res['ok']:
        raise CheckError('MathTable: the conditions reject the C library values')
    c.states += res['distinct']; c.transitions += res['generated']

def calls(harness, mod, profiles, parts=None):
    """independent calls recorded by a harness against a trace module"""
    def f(c):
        b = c.build(harness, parts=parts)
        for seed, r in rounds(c):
            for prof, n in profiles:
                if c.violations: return
                n = n if c.tier == 'quick' else 4 * n
                trace_job(c, b, mod, [seed, n, prof, '@OUT'], '%s-%d' % (prof, seed))
    return f

PSD = 'INIT Init\nNEXT Next\nINVARIANT Agree\n%sCHECK_DEADLOCK FALSE\nCONSTANTS K = %d EMIT = %s\n'
def psd_mc(c):
    """the definiteness criterion of spec/Psd.tla"""
    model_job(c, 'PsdMC', PSD % ('', 2 if c.tier == 'quick' else 4, 'FALSE'), 'PsdMC', timeout=3000)

def psd_replay(c):
    """all small integer matrices are given to ureals"""
    b = c.build('stat')
    if not b: return
    res = model_job(c, 'PsdMC', PSD % ('ACTION_CONSTRAINT Emit\n', 2 if c.tier == 'quick' else 3, 'TRUE'), 'PsdMC', timeout=3000)
    progs = [l[3:-1] for l in res['out'].splitlines() if l.startswith('"P ')]
    if not progs: raise CheckError('PsdMC: no matrices')
    path = os.path.join(c.work, 'matrices.txt')
    with open(path, 'w') as o:
        o.write('\n'.join(progs) + '\n')
    trace_job(c, b, 'StatTrace', ['matrices', path, '@OUT'], 'matrices')
    c.add('model_programs_run_on_implementation', len(progs))

def fmt_mc(c):
    """the relation of spec/Fmt.tla against a reference formatter, and every
    case of it on the real code"""
    cfg = 'INIT Init\nNEXT Next\nINVARIANT %s\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS A = %d B = %d EMIT = %s\n'
    if c.tier == 'thorough':
        model_job(c, 'FmtMC', cfg % ('Allowed Rejected', 110, 1050, 'FALSE'), 'FmtMC', timeout=3000)
    res = model_job(c, 'FmtMC', cfg % (('Allowed Rejected', 12, 120, 'TRUE') if c.tier == 'quick' else ('Allowed', 40, 320, 'TRUE')), 'FmtMC', timeout=3000)
    progs = [l[3:-1] for l in res['out'].splitlines() if l.startswith('"P ')]
    if not progs: raise CheckError('FmtMC: no cases')
    b = c.build('fmt')
    if not b: return
    path = os.path.join(c.work, 'cases.txt')
    with open(path, 'w') as o:
        o.write('\n'.join(progs) + '\n')
    trace_job(c, b, 'FmtTrace', ['cases', path, '@OUT'], 'cases')
    c.add('model_programs_run_on_implementation', len(progs))

def threads_mc(c):
    """spec/Threads.tla: every interleaving of the counter and of const
    reads; the wrong designs must be rejected"""
    cfg = 'INIT Init\nNEXT Next\nVIEW view\nINVARIANT Distinct ReadsOK NoRace\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS T = %d K = %d DESIGN = "%s" READS = "%s" EMIT = %s\n'
    for t, k in [(3, 3)] if c.tier == 'quick' else [(3, 3), (4, 2), (4, 3)]:
        for design in 'fetch', 'cas':
            model_job(c, 'Threads', cfg % (t, k, design, 'pure', 'FALSE'), 'Threads', timeout=1500)
    for design, reads in [('split', 'none'), ('local', 'none'), ('fetch', 'lazy'), ('fetch', 'flag')]:
        model_job(c, 'Threads', cfg % (2, 2, design, reads, 'FALSE'), 'Threads/%s/%s' % (design, reads), expect_violation=True)
    # every interleaving of constructions with two accesses each, on the real constructors
    b = c.build_if_possible('sched')
    if not b:
        c.add('interleavings_not_replayed', 1)
        return
    inv = cfg.replace('INVARIANT Distinct ReadsOK NoRace\n', '')
    for t, k in [(2, 2), (2, 3), (3, 1)] + ([(3, 2)] if c.tier == 'thorough' else []):
        res = c.tlc('Threads', inv % (t, k, 'split', 'none', 'TRUE'), timeout=1500)
        progs = [l[3:-1] for l in res['out'].splitlines() if l.startswith('"P ')]
        if not progs:
            raise CheckError('Threads: no interleavings')
        path = os.path.join(c.work, 'sched.txt')
        with open(path, 'w') as o:
            o.write('\n'.join(progs) + '\n')
        trace_job(c, b, 'ThreadsTrace', [t, k, path, '@OUT'], 'sched-%d-%d' % (t, k))
        c.add('interleavings_replayed_on_implementation', len(progs))
        if c.violations: return

def threads_run(c):
    b = c.build('threads')
    for seed, r in rounds(c):
        for prof, n, size in [('ids', 60, 400), ('shared', 60, 300)]:
            if c.violations: return
            trace_job(c, b, 'ThreadsTrace', [seed, n, prof, '@OUT', size], '%s-%d' % (prof, seed), once_is_enough=True)
        t = c.build_if_possible('threads', opt='-O1', defs=['-g1', '-fsanitize=thread'])
        if not t or not c.race_detector_works(t):
            c.add('race_detector_unavailable', 1)
            continue
        for prof, n, size in [('ids', 20, 100), ('shared', 40, 150)]:
            if c.violations: return
            trace_job(c, t, 'ThreadsTrace', [seed, n, prof, '@OUT', size], 'race-%s-%d' % (prof, seed), once_is_enough=True)

def units(c):
    """spec/Units.tla: programs of several translation units, linked in
    every order; every program of main run on the executables"""
    cfg = 'INIT Init\nNEXT Next\nACTION_CONSTRAINT Emit\nCHECK_DEADLOCK FALSE\nCONSTANTS U = %d T = %d K = %d DESIGN = "%s" EMIT = %s\n'
    inv = 'INVARIANT Fresh SameEverywhere\n'
    k = 3 if c.tier == 'quick' else 4
    model_job(c, 'Units', inv + cfg % (2, 2, k, 'one', 'FALSE'), 'Units')
    if c.tier == 'thorough':
        model_job(c, 'Units', inv + cfg % (3, 2, 3, 'one', 'FALSE'), 'Units')
    for d in ('late', 'unit', 'type', 'table'):
        model_job(c, 'Units', inv + cfg % (2, 2, 2, d, 'FALSE'), 'Units/' + d, expect_violation=True)
    res = c.tlc('Units', cfg % (2, 5, 2 if c.tier == 'quick' else 3, 'one', 'TRUE'))
    progs = sorted(set(re.sub('[^0-9 ]', ' ', l[3:-1]) for l in res['out'].splitlines() if l.startswith('"P ')))
    if not progs:
        raise CheckError('Units: no programs')
    path = os.path.join(c.work, 'units.txt')
    with open(path, 'w') as o:
        o.write('\n'.join(progs) + '\n')
    ext = ['-DUNCERTAINTIES_EXTERN_UDOUBLE', '-DUNCERTAINTIES_EXTERN_UDOUBLE2']
    variants = [('extern', ext), ('plain', ['-O2'])]
    if c.tier == 'thorough':
        variants += [('extern-opt', ext + ['-O2']), ('extern1', ext[:1]), ('extern2', ext[1:] + ['-O1']), ('pic', ['-fPIC', '-O1'])]
    for label, defs in variants:
        objs = {}
        for name, src, more in [('1', 'unit', ['-DUNIT=1']), ('2', 'unit', ['-DUNIT=2']), ('0', 'units_impl', []), ('m', 'units_main', [])]:
            objs[name] = c.compile_start(src, list(defs) + more)
        objs = {n: c.compile_end(o) for n, o in objs.items()}
        if c.violations: return
        for i, order in enumerate(itertools.permutations('012')):
            b = c.link([objs[n] for n in order] + [objs['m']])
            if c.violations: return
            if not c.runs(b, [path, os.path.join(c.work, 'probe'), '1'], 'program of several units, linked in the order ' + ''.join(order)):
                return
            trace_job(c, b, 'UnitsTrace', [path, '@OUT'], 'units-%s-%s' % (label, ''.join(order)))
            c.add('executables_linked', 1)
            if c.violations: return
    c.add('model_programs_run_on_implementation', len(progs))

def many(c):
    """spec/Ids.tla: counters of finite width; the real one driven past 32 bits"""
    cfg = 'INIT Init\nNEXT Next\nINVARIANT Fresh\nCHECK_DEADLOCK FALSE\nCONSTANTS W = %d B = %d DESIGN = "%s"\n'
    for w, b, d, bad in [(4, 5, 'count', False), (3, 5, 'count', True), (4, 5, 'reuse', True)]:
        model_job(c, 'Ids', cfg % (w, b, d), 'Ids/%s-%d' % (d, w), expect_violation=bad)
    b = c.build('many', opt='-O2')
    n = 2 ** 31 + 2
    trace_job(c, b, 'IdsTrace', [n, '@OUT'], 'many', once_is_enough=True)
    c.add('variables_constructed', n)

def bulk(*profiles):
    """spec/Bulk.tla: expressions of tens or hundreds of variables"""
    return calls('bulk', 'BulkTrace', list(profiles))

def bulk_mc(c):
    """its operators against those of spec/Second.tla"""
    model_job(c, 'BulkMC', 'INIT Init\nNEXT Next\nINVARIANT MomentsOK CovOK ArithOK\nCHECK_DEADLOCK FALSE\nCONSTANTS WIDE = %s\n'
              % ('FALSE' if c.tier == 'quick' else 'TRUE'), 'BulkMC', timeout=3000)

def faults(c):
    """spec/Faults.tla: operations that fail at any step; every program of the
    model run on the real types, each operation failed at every fault point"""
    cfg = '%sCHECK_DEADLOCK FALSE\nCONSTANTS R = 2 N = %d K = %d DESIGN = "%s" EMIT = %s\n'
    inv = 'INIT Init\nNEXT Next\nINVARIANT NothingElse NoLeak Right\n'
    n = 2 if c.tier == 'quick' else 4
    for d in ('fresh', 'inplace'):
        model_job(c, 'Faults', cfg % (inv, n, 2, d, 'FALSE'), 'Faults/' + d, timeout=3000)
    for d in ('scratch', 'steal', 'leak', 'memo'):
        model_job(c, 'Faults', cfg % (inv, 2, 2, d, 'FALSE'), 'Faults/' + d, expect_violation=True)
    def programs(k):
        res = c.tlc('Faults', cfg % ('INIT GenInit\nNEXT GenNext\nACTION_CONSTRAINT Emit\n', 1, k, 'fresh', 'TRUE'), timeout=3000)
        p = sorted(set(re.sub('[^0-9 ]', ' ', l[3:-1]) for l in res['out'].splitlines() if l.startswith('"P ')))
        if not p: raise CheckError('Faults: no programs')
        return p
    b = c.build('faults')
    if not b: return
    def play(progs, variants, label):
        path = os.path.join(c.work, 'faults-%s.txt' % label)
        with open(path, 'w') as o:
            o.write('\n'.join(progs) + '\n')
        for v in variants:
            if c.violations: return
            trace_job(c, b, 'FaultsTrace', [path, v, '@OUT'], 'faults-%s-%d' % (label, v), once_is_enough=True)
            c.add('model_programs_run_on_implementation', len(progs))
    play(programs(2), (0, 1) if c.tier == 'quick' else (0, 1, 2, 3), 'all')
    if c.violations: return
    if c.tier == 'thorough':
        longer = programs(3)
        for seed, r in rounds(c):
            play(sorted(random.Random(seed).sample(longer, min(4000, len(longer)))), (0, 1, 2, 3), 'long%d' % seed)
            if c.violations: return

Q = [(2, 2, 2, 3)]
QB = [(2, 2, 0, 4)]
Q2 = [(2, 2, 2, 2), (2, 2, 0, 3)]
TH2 = [(2, 2, 2, 3), (3, 3, 3, 2)]
TH = [(2, 2, 0, 4), (2, 2, 2, 4), (3, 3, 3, 3)]

CHECKS = {
    'C01': [ureal_model(QB, TH), first([('core', 700), ('reads', 150), ('frame', 150)]), bulk(('bulk1', 120))],
    'C02': [ureal_model(Q, TH, ['selfcache', 'stalecache']), first([('inplace', 900), ('frame', 200)]), bulk(('bulk1', 200), ('bulk2', 60))],
    'C03': [ureal_model(Q, TH), first([('reads', 800), ('inplace', 300)]), bulk(('bulk1', 120))],
    'C04': [ureal_model(Q, TH), ureal2_model(Q2, TH2), first([('frame', 900), ('conv', 200), ('grad', 200)]), second([('frame2', 200)])],
    'C05': [many, ureal_model(Q, TH), ureal2_model(Q2, TH2), first([('ids', 700), ('frame', 200), ('core', 200)]), second([('ids2', 200), ('frame2', 100)]), calls('stat', 'StatTrace', [('ureals', 300)]), calls('ctor', 'CtorTrace', [('ctor', 300)])],
    'C06': [threads_mc, threads_run],
    'C07': [ureal_model(Q, TH), first([('grad', 900)]), bulk(('bulk1', 80))],
    'C08': [second_mc, ureal2_model(Q2, TH2, ['alias', 'stored', 'skip']), sparse_hess, second([('prop2', 240), ('graphp', 150), ('gh', 200), ('frame2', 80)]), bulk_mc, bulk(('bulk2', 120))],
    'C09': [second_mc, ureal2_model(Q2, TH2), motifs('mom'), second([('mom', 160), ('mom4', 120), ('graph', 150)]), bulk_mc, bulk(('bulk2', 160))],
    'C10': [second_mc, ureal2_model(Q2, TH2), motifs('cov'), second([('cov2', 240), ('graphc', 200), ('mom', 60)]), bulk_mc, bulk(('bulk2', 120))],
    'C11': [math_table, first([('math', 900)])],
    'C12': [math_table, second([('math2', 400)])],
    'C13': [first([('fac', 500)]), second([('fac2', 250)])],
    'C14': [fmt_mc, calls('fmt', 'FmtTrace', [('short', 2500), ('mid', 800), ('wide', 800)])],
    'C15': [calls('fmt', 'FmtTrace', [('special', 2500), ('short', 500)])],
    'C16': [psd_replay, calls('stat', 'StatTrace', [('ureals', 2000)])],
    'C17': [calls('stat', 'StatTrace', [('stat', 2500)])],
    'C18': [psd_mc, calls('ctor', 'CtorTrace', [('ctor', 2500)]), second([('mom', 40)])],
    'C19': [calls('ctor', 'CtorTrace', [('distr', 2500)])],
    'C20': [first([('conv', 500)]), second([('conv2', 250), ('graphv', 120)])],
    'C21': [units],
    'C23': [faults],
    'C22': [user_type([('h1', 'FirstTrace', p, n) for p, n in [('core', 150), ('inplace', 120), ('reads', 80), ('grad', 80), ('math', 200), ('fac', 100), ('frame', 60)]]
                      + [('h2', 'SecondTrace', p, n) for p, n in [('prop2', 60), ('gh', 50), ('mom', 40), ('cov2', 50), ('math2', 100), ('fac2', 60), ('conv2', 50)]]
                      + [('ctor', 'CtorTrace', 'ctor', 300), ('ctor', 'CtorTrace', 'distr', 300), ('stat', 'StatTrace', 'ureals', 200), ('stat', 'StatTrace', 'stat', 200),
                         ('fmt', 'FmtTrace', 'short', 300), ('fmt', 'FmtTrace', 'mid', 100), ('fmt', 'FmtTrace', 'wide', 60), ('fmt', 'FmtTrace', 'special', 200)])],
}

def run(c):
    for f in CHECKS[c.prop]:
        f(c)
        if c.violations:
            return

_TR = 'TLA+ trace validation (TLC): '
_ASM = ' Trusts TLC, the Java rational arithmetic (checked against its TLA+ definition), and the harness that records public observables; bounded to the recorded histories.'
NOTES = {
 'C01': (_TR + 'recorded UReal histories against First/FirstTrace', 'Every step of every recorded history is recomputed exactly (rational arithmetic) by the specification.' + _ASM),
 'C02': (_TR + 'in-place histories with cached reads against First/FirstTrace', 'Every in-place step is compared with the out-of-place meaning, exactly.' + _ASM),
 'C03': (_TR + 'interleaved reads and updates against First/FirstTrace', 'Every read is compared with the exact covariance form.' + _ASM),
 'C04': (_TR + 'full observable frame after each step', 'After each operation the complete observable state of all live variables is compared.' + _ASM),
 'C05': (_TR + 'identity bookkeeping in FirstTrace', 'Freshness and classification are decided for each recorded construction and result.' + _ASM),
 'C06': ('TLA+ model of all interleavings (Threads), replayed on the real constructors by a scheduler, and trace validation (ThreadsTrace) of multi-threaded histories and of a race detector', 'All interleavings of 2-3 threads with 1-3 constructions are replayed deterministically at the atomic accesses; const operations on shared variables are compared with the sequential execution and observed by a race detector.' + _ASM),
 'C07': (_TR + 'grad queries against First', 'Every grad query is compared with the exact derivative or the required exception.' + _ASM),
 'C08': (_TR + 'UReal2 histories against Second/SecondTrace; exhaustive models SparseHess (merge) and UReal2 (class as a machine) with every transition run on UReal2', 'Gradient and Hessian over all base variables are compared exactly after each step; the sparse merge is model checked over all sparsity patterns of up to 3 variables, the class over all short programs of two registers.' + _ASM),
 'C09': (_TR + 'moment queries of UReal2 against the expectation of the exact polynomial; exhaustive model Motifs of the moment formulas with every state run on UReal2', 'The moment formulas are model checked against the expectation for all patterns of terms of 3 and 4 variables, and the real code computes each of them. Moments of recorded histories are recomputed exactly from the observed coefficients; the expectation operators are model checked against enumeration of outcomes.' + _ASM),
 'C10': (_TR + 'covariance queries of UReal2 against the expectation of the exact polynomials; exhaustive model Motifs with every state run on UReal2', 'The covariance formula is model checked for pairs of patterns of terms, and the real code computes each of them. Covariances of recorded histories are recomputed exactly from the observed coefficients.' + _ASM),
 'C11': (_TR + 'math.hpp calls on UReal against MathFn', 'Derivatives are decided by exact identities between independently computed function values (C library in extended precision).' + _ASM + ' Trusts the C library functions.'),
 'C12': (_TR + 'math.hpp calls on UReal2 against MathFn', 'First and second derivatives are decided by exact identities between independently computed function values.' + _ASM + ' Trusts the C library functions.'),
 'C13': (_TR + 'factory calls with recorded callables', 'Values, derivatives or difference quotients are recomputed exactly from polynomial callables.' + _ASM),
 'C14': (_TR + 'texts parsed and judged by the relation of Fmt; every case of the formatter model FmtMC formatted by the real code', 'Each recorded text is parsed by the grammar in Fmt and compared exactly with mean, uncertainty and digits requested; the relation itself is model checked against a reference formatter and altered texts.' + _ASM),
 'C15': (_TR + 'texts parsed and judged by the relation of Fmt', 'Each recorded text is parsed by the grammar in Fmt and compared exactly.' + _ASM),
 'C16': (_TR + 'calls of ureals against Stat/Psd; every small integer matrix of PsdMC given to ureals', 'Definiteness is decided exactly; means, covariances and independence of every recorded result are compared.' + _ASM),
 'C17': (_TR + 'calls of stat.hpp against Stat', 'Every element of every recorded matrix is compared.' + _ASM),
 'C18': (_TR + 'constructions against Distr/Psd', 'The Hankel condition is decided exactly; stored moments up to the eighth are observed through a quadratic and compared with exact expectations.' + _ASM),
 'C19': (_TR + 'named distributions against exact moments from cumulants', 'Moments up to the eighth are observed through a quadratic and compared with exact expectations.' + _ASM),
 'C21': ('TLA+ model of a program of several translation units (Units: link orders, static initialisation, main), every program of main run on executables linked in every order and validated (UnitsTrace)', 'Every order of initialisation of three units and every short program of constructions and computations is executed with the real headers; ids, covariances and results are judged by the model.' + _ASM),
 'C22': (_TR + 'the histories of UReal, UReal2, distributions, matrices and texts with a numeric class defined by the user', 'Every step is recomputed exactly by the specification and compared at the 113 bits of the class.' + _ASM + ' Trusts libquadmath.'),
 'C23': ('TLA+ model of operations that fail at any step (Faults), every program run on the real types with a failure injected at every allocation and call of user code, validated by FaultsTrace', 'All failure points of all operations in all programs of two operations are executed; the state left behind, the repeated operation and the memory retained are judged by the model.' + _ASM),
 'C20': (_TR + 'conversions observed on both sides', 'Every coefficient of source and converted variable is compared.' + _ASM),
}
