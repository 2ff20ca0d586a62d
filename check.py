#!/usr/bin/env python3
"""check.py ID [quick|thorough]      decide one property on /repo's current tree
check.py --replay FILE            run a reported counterexample against the real code
check.py --setup                  build everything the checks need"""
import concurrent.futures, glob, json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V + '/pipeline', V + '/checks']
import build as B
from table import P
KNOWN = V + '/known-findings.txt'
HANG_S = 20


def known(prop):
    """known: property=<id> entry=<entry>:<harness> input=<hex> msg=<text> :: <what fails>"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) entry=(\S+):(\d+) msg=(.*?) :: (.*)$', l.strip())
            if m and m.group(1) == prop:
                out.append(dict(entry=m.group(2), h=int(m.group(3)), msg=m.group(4), what=m.group(5)))
    return out


def empty():
    """the working directory of native replays: empty, as in the engine"""
    d = os.path.join(B.BUILD, 'cwd')
    os.makedirs(d, exist_ok=True)
    return d


def replay(binary, entry, h, params, inputs, guard=False, timeout=HANG_S):
    """-> [(kind, obs, msg)] from the natively compiled harness"""
    e = dict(os.environ)
    if guard:
        e['SYM_GUARD'] = '1'
    try:
        r = subprocess.run([binary, entry, str(h), params or '-'], input=('\n'.join(inputs) + '\n').encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=timeout, cwd=empty())
    except subprocess.TimeoutExpired:
        return [('hang', '', 'no answer in %d s' % timeout)]
    out = [tuple((l[1:].split('\t') + ['', ''])[:3]) for l in r.stdout.decode(errors='replace').split('\n') if l.startswith('\x01')]
    if r.returncode != 0 and len(out) < len(inputs):
        err = r.stderr.decode(errors='replace')
        m = re.search(r'AddressSanitizer: [^\n]*', err)
        out.append(('crash', '', m.group(0) if m else 'process ended with %d' % r.returncode + (': ' + err.strip()[-200:] if err.strip() else '')))
    return out


def natives(group, cache={}):
    if group not in cache:
        cache[group] = B.native(group)
    return cache[group]


def confirm(job, params, f):
    """does the counterexample show on the natively compiled code? -> (bool, observed)"""
    b = natives(job['group'])
    seen = []
    if f['kind'] == 'memory':
        r = replay(b, job['entry'], job['h'], params, [f['input']], guard=True)
        if r and r[0][0] in ('crash', 'panic', 'fail', 'hang'):
            return True, r[0]
        seen += r
        a = B.native(job['group'], asan=True)
        r = replay(a, job['entry'], job['h'], params, [f['input']], timeout=60)
        if r and r[0][0] in ('crash', 'panic', 'fail', 'hang'):
            return True, r[0]
        seen += r
    else:
        # natively the order of hash maps differs from run to run
        for _ in range(12):
            r = replay(b, job['entry'], job['h'], params, [f['input']])
            if r and r[0][0] in ('crash', 'panic', 'fail', 'hang'):
                return True, r[0]
            seen += r
    return False, seen[0] if seen else ('none', '', '')


def run_job(job, params, secs, ll, n, tier, threads):
    out = os.path.join(B.WORK, job['entry'], 'out.%s.%d.json' % (job['prop'], n))
    if os.path.exists(out):
        os.remove(out)
    r = subprocess.run([B.SYMX, '--ll', ll, '--entry', job['entry'], '--threads', str(threads), '--samples', '12', '--job', '%s,%d,%d,%s,%s%s' % (job['entry'], job['h'], secs, params, out, ',%d' % job['steps'] if job['steps'] else '')], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if not os.path.exists(out):
        return None, r.stderr.decode(errors='replace')[-1500:]
    return json.load(open(out)), ''


def check(prop, tier):
    t0 = time.time()
    jobs = []
    for j in P[prop]:
        params, secs = j[tier]
        jobs.append(dict(j, prop=prop, params=params, secs=secs))
    limit = 640 if tier == 'quick' else 6 * 3600
    try:
        B.build_engine()
        lls = {}
        times = {}
        for j in jobs:
            k = (j['group'], j['entry'])
            if k not in lls:
                lg = times.setdefault(j['entry'], {})
                lls[k] = B.ir(j['group'], j['entry'], lg)
        for g in {j['group'] for j in jobs}:
            natives(g)
    except B.BuildError as e:
        print('ERROR: build: %s' % e)
        return 2
    tbuild = time.time() - t0
    results = [None] * len(jobs)

    def go(i):
        j = jobs[i]
        left = limit - (time.time() - t0)
        secs = max(5, min(j['secs'], int(left)))
        results[i] = run_job(j, j['params'], secs, lls[(j['group'], j['entry'])], i, tier, 6)

    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        list(ex.map(go, range(len(jobs))))
    kn = known(prop)
    violations, knownhits, errors, notes = [], [], [], []

    def violation(j, name, f, seen):
        d = os.path.join(B.BUILD, 'replay', prop)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s_%d_%d.json' % (j['entry'], j['h'], len(violations)))
        json.dump(dict(property=prop, group=j['group'], entry=j['entry'], harness=j['h'], params=j['params'], input=f['input'], kind=f['kind'], engine=f['msg'], stack=f['stack'], native=seen, what=j['what']), open(path, 'w'), indent=1)
        violations.append((path, seen, name))

    validated, samples = 0, []
    for j, (r, err) in zip(jobs, results):
        name = '%s:%d' % (j['entry'], j['h'])
        if r is None:
            errors.append('%s: engine failed: %s' % (name, err))
            continue
        for f in r['found']:
            ok, seen = confirm(j, j['params'], f)
            msg = '%s %s' % (f['kind'], f['msg'])
            if not ok:
                if f['kind'] == 'hang':
                    notes.append('%s: a path exceeded the step bound, but ends natively' % name)
                    r['complete'] = False
                else:
                    errors.append('%s: counterexample %s (%s) does not show natively: %s' % (name, f['input'], msg, seen))
                continue
            k = next((k for k in kn if k['entry'] == j['entry'] and k['h'] == j['h'] and k['msg'] in seen[2]), None)
            if k:
                knownhits.append(k)
                continue
            violation(j, name, f, seen)
        ss = [s for s in r['samples'] if s['kind'] == 'done']
        if ss:
            nr = replay(natives(j['group']), j['entry'], j['h'], j['params'], [s['input'] for s in ss], timeout=120)
            for s, x in zip(ss, nr):
                if x[0] == 'done' and x[1] == s['obs']:
                    validated += 1
                elif x[0] in ('fail', 'panic', 'crash'):
                    # the real code breaks the property where the engine's did not: it depends on what the engine fixes (the order of hash maps)
                    violation(j, name, dict(input=s['input'], kind=x[0], msg='only natively', stack=[]), x)
                elif s['obs'] is not None or x[0] != 'done':
                    errors.append('%s: path %s: engine done/%s, native %s' % (name, s['input'], s['obs'], x))
            samples += [dict(harness=name, params=j['params'], input=s['input'], observation=s['obs']) for s in ss[:2]]
        missing = [l for l in j['reach'] if not r['reached'].get(l)]
        if missing and not r['found']:
            if r['complete']:
                errors.append('%s: never reached: %s' % (name, ', '.join(missing)))
            else:
                notes.append('%s: not reached in the time: %s' % (name, ', '.join(missing)))
        if not r['complete']:
            notes.append('%s: exploration incomplete (%s)' % (name, ', '.join((['time'] if r['timeup'] else []) + ['%s x%d' % kv for kv in list(r['unsup'].items()) + list(r['limit'].items())]) or 'step bound'))
    rs = [r for r, _ in results if r]
    tot = lambda k: sum(r[k] for r in rs)
    if rs and tot('done') == 0 and not violations and not errors:
        errors.append('nothing was explored')
    funcs = sorted({f for r in rs for f in r['functions'] if 'hemtt' in f})
    cov = dict(
        states=tot('paths'), transitions=tot('branches'), traces_validated_against_impl=validated, samples=samples or ['none'],
        explanation='states: execution paths of the compiled code explored symbolically, each standing for all inputs that satisfy its path condition; transitions: symbolic branch decisions; traces: path inputs run through the natively compiled code with equal observations',
        exhaustive_within_bounds=bool(rs) and len(rs) == len(jobs) and all(r['complete'] for r in rs),
        bounds=[dict(harness='%s:%d' % (j['entry'], j['h']), params=j['params'], decides=j['what'], complete=bool(r and r['complete']), paths=r['paths'] if r else 0, assumed_out=r['assumed'] if r else 0, max_symbolic_bytes=r['max_sym'] if r else 0, wall_s=r['wall'] if r else 0, reached=r['reached'] if r else {}) for j, (r, _) in zip(jobs, results)],
        queries=dict(branches=tot('branches'), by_byte_domains=tot('dom_dec'), by_model_reuse=tot('trial_dec'), by_query_cache=tot('cache_dec'), z3=tot('z3q'), z3_sat=tot('z3sat'), z3_unsat=tot('z3unsat'), z3_unknown=tot('z3unk'), cross_checked_with_z3=tot('xchecked'), models_confirmed_by_z3=tot('confirms')),
        solver_s=round(tot('z3ms') / 1000, 2), instructions=tot('steps'), functions_encoded=len({f for r in rs for f in r['functions']}), repository_functions=funcs, build_s=round(tbuild, 1), notes=notes)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking', coverage=cov, wall_s=round(time.time() - t0, 1), violations=len(violations), assumptions=[
        'rustc and LLVM lower the sources to the analysed IR faithfully; the engine executes that IR (validated by the replayed traces)',
        'alphabets, lengths and shapes are bounded as listed; hash maps iterate in one order (native replays in another); allocation never fails'])
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open(V + '/evidence/%s.json' % prop, 'w'), indent=1)
    for k in {k['what']: k for k in knownhits}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for n in notes:
        print('NOTE: ' + n)
    print('%s %s: %d paths, %d branch decisions, %d z3 queries, %d traces replayed, %.0f s (build %.0f s)%s' % (prop, tier, cov['states'], cov['transitions'], tot('z3q'), validated, time.time() - t0, tbuild, '' if cov['exhaustive_within_bounds'] else ', incomplete'))
    if violations:
        for p, seen, name in violations:
            print('%s: %s %s' % (name, seen[0], seen[2]))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if errors:
        for e in errors[:10]:
            print('ERROR: ' + e)
        return 2
    return 0


def setup():
    B.build_engine()
    seen = set()
    for p in sorted(P):
        for j in P[p]:
            k = (j['group'], j['entry'])
            if k not in seen:
                seen.add(k)
                lg = {}
                B.ir(k[0], k[1], lg)
                print(k, lg, flush=True)
    for g in sorted({k[0] for k in seen}):
        B.native(g)
    # the sanitizer build is only needed to confirm memory errors
    return 0


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[:1] == ['--setup']:
        sys.exit(setup())
    if a[:1] == ['--replay']:
        d = json.load(open(a[1]))
        j = dict(group=d['group'], entry=d['entry'], h=d['harness'])
        ok, seen = confirm(j, d['params'], d)
        print('%s %s' % (seen[0], seen[2]))
        sys.exit(1 if ok else 0)
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    sys.exit(check(a[0], tier if tier in ('quick', 'thorough') else 'quick'))
