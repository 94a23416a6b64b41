"""Runs cbmc queries over /repo's current sources, replays every counterexample
(and every reachability witness) natively against the same sources, writes
evidence and decides the exit status.  See DESIGN.md."""
import concurrent.futures as cf
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

DEFAULT_CHECKS = ['--no-standard-checks', '--unwinding-assertions', '--no-malloc-may-fail']
MEM_CHECKS = ['--no-standard-checks', '--unwinding-assertions', '--no-malloc-may-fail',
              '--pointer-check', '--bounds-check']
ARITH = ['--div-by-zero-check', '--undefined-shift-check', '--signed-overflow-check']


class Q:
    """One solver query family: one harness entry point under one set of bounds."""

    def __init__(self, name, src, entry, unwind, defs=(), mem=False, arith=False, tier='quick',
                 timeout=300, flags=(), funcs=(), bounds='', unwindset=(), maxunwind=None, mem_gb=6,
                 inc=(), weight=1, hang_is_violation=False, native_cflags=(), gens=(), preinc=()):
        self.name, self.src, self.entry, self.unwind = name, src, entry, unwind
        self.defs, self.mem, self.arith, self.tier = list(defs), mem, arith, tier
        self.timeout, self.flags, self.funcs, self.bounds = timeout, list(flags), list(funcs), bounds
        self.unwindset, self.maxunwind, self.mem_gb = list(unwindset), maxunwind or unwind * 4, mem_gb
        self.inc, self.weight = list(inc), weight
        self.hang_is_violation = hang_is_violation
        self.native_cflags = list(native_cflags)
        self.preinc = list(preinc)  # model directories searched before everything of /repo
        self.gens = list(gens)  # transforms of /repo sources, written to a scratch include directory


def incs(q):
    return ['-I' + q.gendir for _ in (1,) if q.gens] + ['-I' + os.path.join(VERIF, i) for i in q.preinc] + ['-I' + os.path.join(VERIF, 'models'), '-I' + os.path.join(VERIF, 'harness'),
            '-I' + REPO, '-I' + os.path.join(REPO, 'dnstable'), '-I' + os.path.join(REPO, 'libmy')] + \
        ['-I' + i for i in q.inc]


_procs = set()
_plock = threading.Lock()


def run(cmd, timeout, mem_gb=None, cwd=None, env=None):
    def pre():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, cwd=cwd, env=env)
    with _plock:
        _procs.add(p)
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = 'timeout'
    finally:
        with _plock:
            _procs.discard(p)
    return rc, out, err, time.time() - t0


def kill_all():
    with _plock:
        for p in list(_procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except Exception:
                pass


def cbmc_once(q, unwind, timeout, work):
    cmd = ['cbmc', os.path.join(VERIF, 'harness', q.src), '--function', q.entry] + incs(q)
    cmd += ['-D' + d for d in q.defs]
    cmd += MEM_CHECKS if q.mem else DEFAULT_CHECKS
    if q.arith:
        cmd += ARITH
    if q.mem:
        # pointer-relation checks (forming or comparing an out-of-bounds pointer without using it) have no
        # observable effect; keep every other property
        rc, out, err, w0 = run(cmd + ['--drop-unused-functions', '--show-properties', '--json-ui'], min(timeout, 120), q.mem_gb, cwd=work)
        try:
            props = next(x['properties'] for x in json.loads(out.decode('utf-8', 'replace')) if 'properties' in x)
        except Exception:
            return cmd, rc, out, err, w0
        for x in props:
            if not x.get('description', '').startswith(('pointer relation', 'pointer arithmetic', 'same object violation')):
                cmd += ['--property', x['name']]
    cmd += ['--unwind', str(unwind)]
    for u in q.unwindset:
        cmd += ['--unwindset', u]
    cmd += ['--drop-unused-functions', '--slice-formula', '--object-bits', '10', '--json-ui', '--trace', '--verbosity', '8']
    if not any(f.startswith('--sat-solver') or f in ('--z3', '--cvc5', '--smt2') for f in q.flags):
        cmd += ['--sat-solver', 'cadical']
    cmd += q.flags
    rc, out, err, wall = run(cmd, timeout, q.mem_gb, cwd=work)
    return cmd, rc, out, err, wall


def val_of(v):
    if 'binary' in v and re.fullmatch('[01]+', v['binary']):
        return int(v['binary'], 2)
    d = v.get('data', '0')
    m = re.match(r'-?\d+', d)
    n = int(m.group(0)) if m else 0
    return n & ((1 << 64) - 1)


def parse(out):
    res = {'props': [], 'steps': 0, 'vccs': 0, 'vccs_left': 0, 'vars': 0, 'clauses': 0, 'solver_s': 0.0, 'error': None,
           'sliced': 0, 'queries': 0}
    try:
        data = json.loads(out.decode('utf-8', 'replace'))
    except Exception:
        res['error'] = 'unparsable cbmc output'
        return res
    for it in data:
        if not isinstance(it, dict):
            continue
        t = it.get('messageText', '')
        if it.get('messageType') == 'ERROR':
            res['error'] = (res['error'] or '') + t + '\n'
        m = re.search(r'size of program expression: (\d+) steps', t)
        if m:
            res['steps'] += int(m.group(1))
        m = re.search(r'Generated (\d+) VCC\(s\), (\d+) remaining', t)
        if m:
            res['vccs'] += int(m.group(1)); res['vccs_left'] += int(m.group(2))
        m = re.search(r'slicing removed (\d+) assignments', t)
        if m:
            res['sliced'] += int(m.group(1))
        m = re.search(r'(\d+) variables, (\d+) clauses', t)
        if m:
            res['vars'] = max(res['vars'], int(m.group(1))); res['clauses'] = max(res['clauses'], int(m.group(2)))
        if t.startswith('Running '):
            res['queries'] += 1
        m = re.search(r'Runtime Solver: ([\d.e+-]+)s', t)
        if m:
            res['solver_s'] += float(m.group(1))
        if 'result' in it:
            res['props'] = it['result']
        if 'cProverStatus' in it:
            res['status'] = it['cProverStatus']
    if not res['props'] and not res['error']:
        res['error'] = 'no result'
    return res


def trace_values(prop):
    vals = []
    for s in prop.get('trace', []):
        if s.get('stepType') == 'input' and s.get('inputID') == 'nd':
            vals.append(val_of(s['values'][0]))
    return vals


_bin_cache = {}
_bin_lock = threading.Lock()


def native(q, work):
    key = (q.src, q.entry, tuple(q.defs))
    with _bin_lock:
        lk = _bin_cache.setdefault(key, {'lock': threading.Lock(), 'bin': None, 'err': None})
    with lk['lock']:
        if lk['bin'] or lk['err']:
            return lk
        h = hashlib.sha1(repr(key).encode()).hexdigest()[:12]
        b = os.path.join(work, 'n_' + h)
        cmd = ['gcc', '-std=gnu11', '-g', '-O1', '-w', '-fsanitize=address,undefined', '-fno-sanitize=alignment,shift-base,nonnull-attribute',
               '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-D_GNU_SOURCE', '-DREPLAY',
               '-DVH_ENTRY=' + q.entry] + ['-D' + d for d in q.defs] + incs(q) + q.native_cflags + \
              [os.path.join(VERIF, 'harness', q.src), os.path.join(VERIF, 'models', 'vh_replay.c'), '-o', b, '-lm', '-lpthread']
        rc, out, err, _ = run(cmd, 120)
        if rc != 0:
            lk['err'] = err.decode('utf-8', 'replace')[-2000:]
        else:
            lk['bin'] = b
        return lk


def replay_vals(q, vals, work, tag):
    """-> (verdict, detail): fail | hang | ok | assume | error"""
    nb = native(q, work)
    if nb['err']:
        return 'error', 'native build failed: ' + nb['err'], ''
    f = os.path.join(work, 'vals_%s_%s' % (re.sub(r'\W', '_', q.name), tag))
    with open(f, 'w') as fp:
        fp.write('\n'.join(map(str, vals)) + '\n')
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=65:allocator_may_return_null=0:hard_rss_limit_mb=3000',
               UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=0:exitcode=65')
    rc, out, err, _ = run([nb['bin'], f], 10, env=env)
    o = out.decode('utf-8', 'replace')
    e = err.decode('utf-8', 'replace')
    if rc == 'timeout':
        return 'hang', 'did not terminate within 10 s', o
    if rc == 0:
        return 'ok', '', o
    if rc == 77:
        return 'assume', o.strip(), o
    m = re.search(r'REPLAY-FAIL (.*)', o)
    if m:
        return 'fail', m.group(1), o
    m = re.search(r'(ERROR: AddressSanitizer[^\n]*|runtime error[^\n]*|Assertion[^\n]*|hard rss limit[^\n]*|soft rss[^\n]*)', e)
    det = m.group(1) if m else 'exit status %s: %s' % (rc, (e or o)[-300:])
    det = re.sub(r'0x[0-9a-f]+', '0x..', det)
    m2 = re.findall(r'#\d+ 0x[0-9a-f]+ in (\w+) [^\n]*?(?:/repo|' + re.escape(REPO) + r')/([\w/.-]+)', e)
    if m2:
        det += ' in %s (%s)' % m2[0]
    return 'fail', det, o


def known_list(prop):
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            ln = ln.strip()
            m = re.match(r'known: property=(\S+) query=(\S+) match=/(.*?)/ :: (.*)', ln)
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def run_query(q, deadline, work):
    """Solve, widening the unwinding until no unwinding assertion fails."""
    r = {'name': q.name, 'entry': q.entry, 'file': q.src, 'bounds': q.bounds, 'funcs': q.funcs, 'status': 'inconclusive',
         'violations': [], 'witness': 0, 'witness_total': 0, 'notes': [], 'unwind': q.unwind, 'wall_s': 0.0,
         'steps': 0, 'vccs': 0, 'vccs_left': 0, 'vars': 0, 'clauses': 0, 'solver_s': 0.0, 'proved': 0, 'sliced': 0,
         'replays': 0, 'samples': [], 'queries': 0}
    unwind = q.unwind
    while True:
        left = deadline - time.time()
        if left < 5:
            r['notes'].append('time budget exhausted')
            return r
        cmd, rc, out, err, wall = cbmc_once(q, unwind, min(q.timeout, left), work)
        r['wall_s'] += wall
        r['unwind'] = unwind
        r['cmd'] = ' '.join(cmd)
        if rc == 'timeout':
            r['notes'].append('solver timeout after %.0f s' % wall)
            return r
        p = parse(out)
        for k in ('steps', 'vccs', 'vccs_left', 'vars', 'clauses', 'solver_s', 'sliced', 'queries'):
            r[k] += p[k]
        if p['error'] or not p['props']:
            r['status'] = 'error'
            r['notes'].append('cbmc: rc=%s %s %s' % (rc, p['error'], err.decode('utf-8', 'replace')[-800:]))
            return r
        fails, unw, reach_ok, reach_all, proved = [], [], [], 0, 0
        for pr in p['props']:
            d = pr.get('description', '')
            isu = 'unwinding assertion' in d or 'recursion unwinding' in d
            if d.startswith('REACH '):
                reach_all += 1
                if pr['status'] == 'FAILURE':
                    reach_ok.append(pr)
                continue
            if d.startswith(('pointer relation', 'pointer arithmetic', 'same object violation')):
                continue  # forming/comparing an out-of-bounds pointer: no observable effect, outside the claim
            if pr['status'] == 'FAILURE':
                (unw if isu else fails).append(pr)
            elif pr['status'] == 'SUCCESS' and not isu:
                proved += 1
            elif pr['status'] not in ('SUCCESS', 'FAILURE'):
                r['undecided'] = r.get('undecided', 0) + 1
        # counterexamples: replay
        conf = False
        for i, pr in enumerate(fails):
            vals = trace_values(pr)
            verdict, det, o = replay_vals(q, vals, work, 'cex%d_%d' % (i, unwind))
            r['replays'] += 1
            loc = pr.get('sourceLocation', {})
            where = '%s:%s' % (os.path.relpath(loc.get('file', '?'), REPO) if loc.get('file', '').startswith(REPO) else os.path.basename(loc.get('file', '?')), loc.get('function', '?'))
            if verdict in ('fail', 'hang'):
                conf = True
                r['violations'].append({'assertion': pr['description'], 'where': where, 'line': loc.get('line'),
                                        'replay': verdict, 'detail': det, 'values': vals})
            else:
                r['notes'].append('counterexample of "%s" at %s not confirmed natively (%s %s); not reported' %
                                  (pr['description'], where, verdict, det))
                r.setdefault('unconfirmed', 0)
                r['unconfirmed'] += 1
        if conf:
            r['status'] = 'violated'
            return r
        if unw:
            # either the bound is too small or the code does not terminate
            for i, pr in enumerate(unw[:3]):
                vals = trace_values(pr)
                verdict, det, o = replay_vals(q, vals, work, 'unw%d_%d' % (i, unwind))
                r['replays'] += 1
                if verdict in ('hang', 'fail'):
                    loc = pr.get('sourceLocation', {})
                    r['violations'].append({'assertion': pr['description'] + ' (termination)', 'where': str(loc.get('function')),
                                            'line': loc.get('line'), 'replay': verdict, 'detail': det, 'values': vals})
            if r['violations']:
                r['status'] = 'violated'
                return r
            nxt = unwind * 2
            if nxt > q.maxunwind:
                r['notes'].append('unwinding %d insufficient: %s' % (unwind, '; '.join(
                    sorted(set('%s line %s' % (x.get('sourceLocation', {}).get('function'), x.get('sourceLocation', {}).get('line')) for x in unw)))[:300]))
                r['witness'], r['witness_total'], r['proved'] = len(reach_ok), reach_all, proved
                return r
            unwind = nxt
            continue
        r['witness'], r['witness_total'], r['proved'] = len(reach_ok), reach_all, proved
        if reach_all == 0 or len(reach_ok) < reach_all:
            missing = [pr['description'] for pr in p['props'] if pr['description'].startswith('REACH ') and pr['status'] != 'FAILURE']
            r['notes'].append('vacuity: unreached ' + ', '.join(missing) if missing else 'vacuity: no witness in harness')
            r['missing_reach'] = missing
            if not reach_ok:
                return r
        # witnesses must run natively too: same path, no failed check
        for i, pr in enumerate(reach_ok):
            vals = trace_values(pr)
            verdict, det, o = replay_vals(q, vals, work, 'wit%d' % i)
            r['replays'] += 1
            if verdict in ('fail', 'hang'):
                r['violations'].append({'assertion': 'witness run of "%s"' % pr['description'], 'where': q.entry, 'line': '',
                                        'replay': verdict, 'detail': det, 'values': vals})
            elif verdict == 'ok' and pr['description'][6:] in o:
                r['wit_native'] = r.get('wit_native', 0) + 1
                if len(r['samples']) < 2:
                    r['samples'].append({'witness': pr['description'][6:], 'inputs': vals[:40]})
            else:
                r['notes'].append('witness %s diverged natively: %s %s' % (pr['description'], verdict, det))
        if r['violations']:
            r['status'] = 'violated'
            return r
        if r.get('unconfirmed'):
            return r
        r['status'] = 'held'
        return r


def setup_gens(qs, work):
    import transforms
    d = os.path.join(work, 'gen')
    os.makedirs(d, exist_ok=True)
    for q in qs:
        q.gendir = d
        for t, src in q.gens:
            out = os.path.join(d, t + '_' + os.path.basename(src))
            if not os.path.exists(out):
                with open(out, 'w') as fp:
                    fp.write(getattr(transforms, t)(open(os.path.join(REPO, src)).read(), src))


def run_property(pid, spec, tier):
    t0 = time.time()
    budget = 780 if tier == 'quick' else 6000
    deadline = t0 + budget
    qs = [q for q in spec['queries'] if tier == 'thorough' or q.tier == 'quick']
    work = tempfile.mkdtemp(prefix='vrf_%s_' % pid)
    results = []
    try:
        setup_gens(qs, work)
        # longest first
        order = sorted(qs, key=lambda q: -q.weight)
        with cf.ThreadPoolExecutor(max_workers=JOBS) as ex:
            futs = {ex.submit(run_query, q, deadline, work): q for q in order}
            for f in cf.as_completed(futs):
                q = futs[f]
                try:
                    r = f.result()
                except Exception as e:  # pragma: no cover
                    import traceback
                    r = {'name': q.name, 'status': 'error', 'notes': [traceback.format_exc()], 'violations': [], 'wall_s': 0,
                         'entry': q.entry, 'file': q.src, 'funcs': q.funcs, 'bounds': q.bounds}
                results.append(r)
                print('  [%s] %-34s %-12s %.1fs proved=%s reach=%s/%s %s' % (
                    pid, r['name'], r['status'], r.get('wall_s', 0), r.get('proved'), r.get('witness'), r.get('witness_total'),
                    ' | '.join(r['notes'])[:600]), flush=True)
        results.sort(key=lambda r: r['name'])
        known = known_list(pid)
        printed, nviol = set(), 0
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for r in results:
            for v in r['violations']:
                text = '%s @ %s: %s' % (v['assertion'], v['where'], v['detail'])
                k = next((k for k in known if re.fullmatch(k[0], r['name']) and k[1].search(text)), None)
                if k:
                    v['known'] = True
                    if k[2] not in printed:
                        printed.add(k[2])
                        print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
                    continue
                nviol += 1
                path = os.path.join(rdir, '%s_%s_%d.json' % (pid, re.sub(r'\W', '_', r['name']), nviol))
                q = next(q for q in qs if q.name == r['name'])
                json.dump({'property': pid, 'query': r['name'], 'harness': r['file'], 'entry': r['entry'], 'assertion': v['assertion'],
                           'where': v['where'], 'detail': v['detail'], 'replay': v['replay'], 'values': v['values'],
                           'rerun': 'python3 check.py --replay ' + os.path.relpath(path, VERIF)}, open(path, 'w'), indent=1)
                if nviol <= 5:
                    print('    %s: %s' % (r['name'], text))
                    print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(path, VERIF)), flush=True)
        held = [r for r in results if r['status'] == 'held']
        write_evidence(pid, spec, tier, qs, results, nviol, time.time() - t0)
        if nviol:
            return 1
        usable = [r for r in results if r['status'] in ('held', 'violated')]
        if not usable:
            print('ERROR: no query of %s gave an answer' % pid)
            return 2
        if len(usable) < len(results):
            print('NOTE: %d of %d queries inconclusive (listed in evidence)' % (len(results) - len(usable), len(results)))
        print('OK property=%s: %d/%d queries held in %.0f s' % (pid, len(held), len(results), time.time() - t0))
        return 0
    finally:
        kill_all()
        shutil.rmtree(work, ignore_errors=True)


def write_evidence(pid, spec, tier, qs, results, nviol, wall):
    g = lambda k: sum(r.get(k, 0) or 0 for r in results)
    samples = []
    for r in results:
        for s in r.get('samples', [])[:1]:
            samples.append(dict(query=r['name'], **s))
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': spec.get('level', 'model_checking'),
        'coverage': {
            'states': g('steps'),
            'transitions': g('steps') - g('sliced'),
            'traces_validated_against_impl': g('wit_native'),
            'samples': samples[:12],
            'explanation': 'Bounded symbolic model checking with cbmc: states = symbolic-execution (SSA) steps of the encodings, '
                           'transitions = steps left in the formulas after slicing; each stands for all values of the symbolic inputs within the bounds. '
                           'traces_validated_against_impl = solver traces (reachability witnesses) re-executed on the natively compiled real code '
                           'with the same values, reaching the same point with every check passing.',
            'queries_held': sum(r['status'] == 'held' for r in results),
            'queries_total': len(results),
            'queries_inconclusive': [r['name'] + ': ' + '; '.join(r['notes'])[:300] for r in results if r['status'] in ('inconclusive', 'error')],
            'assertions_proved_within_bounds': g('proved'),
            'verification_conditions': g('vccs'),
            'verification_conditions_sent_to_solver': g('vccs_left'),
            'solver_calls': g('queries'),
            'max_formula': {'variables': max([r.get('vars', 0) for r in results] or [0]), 'clauses': max([r.get('clauses', 0) for r in results] or [0])},
            'solver_time_s': round(g('solver_s'), 2),
            'cbmc_time_s': round(g('wall_s'), 2),
            'native_replays': g('replays'),
            'functions_encoded': sorted(set(f for q in qs for f in q.funcs)),
            'bounds': {q.name: (q.bounds + '; ' if q.bounds else '') + 'unwind %s' % next((r.get('unwind') for r in results if r['name'] == q.name), q.unwind) for q in qs},
            'outside_claim': spec.get('outside', ''),
            'per_query': [{k: r.get(k) for k in ('name', 'status', 'proved', 'witness', 'witness_total', 'wall_s', 'solver_s', 'steps', 'clauses', 'notes')} for r in results],
        },
        'assumptions': spec.get('assumptions', []) + ['malloc/calloc/realloc never return NULL', 'cbmc 6.11.0 and its SAT back end are trusted'],
        'wall_s': round(wall, 2), 'violations': nviol,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', pid + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(VERIF, 'evidence', pid + '.json'))
