#!/usr/bin/env python3
"""Decide one property:  python3 check.py C05 [--tier quick|thorough] [--only entry] [--keep]

Builds the symbolic executor, compiles the harness crate against /repo's working tree to LLVM IR,
executes every harness symbolically, replays whatever the solver reports natively, writes evidence.
Exit 0: held; 1: VIOLATION line printed; 2: no answer."""
import sys, os, json, subprocess, time, re, concurrent.futures as cf, argparse, shutil
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import jobs as J
TOOLCHAIN = '1.96-x86_64-unknown-linux-gnu'
B = os.environ.get('VERIF_BUILD', os.path.join(V, '.build'))
REPO = os.environ.get('VERIF_REPO', '/repo')   # only ever set by hand, to try a check on a scratch copy
ap = argparse.ArgumentParser(); ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--only'); ap.add_argument('-j', type=int, default=os.cpu_count() or 8); ap.add_argument('--verbose', action='store_true')
A = ap.parse_args()
TIER = 'thorough' if A.tier == 'thorough' else 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
P = J.PROPS[A.prop]

def env(**kw):
    e = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN=TOOLCHAIN)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_BUILD_TARGET', 'CARGO_INCREMENTAL'): e.pop(k, None)
    e.update(kw); return e
def die(msg, code=2):
    print('ERROR:', msg); sys.exit(code)
def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode: die('%s failed:\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout

def build():
    os.makedirs(B, exist_ok=True)
    eng = os.path.join(B, 'engine')
    def e(): run(['cargo', 'build', '--release', '--offline'], cwd=V + '/engine', env=env(CARGO_TARGET_DIR=eng))
    rt = os.path.join(B, 'rt.o'); ht = os.path.join(B, 'harness')
    hs = os.path.join(B, 'hsrc')
    def h():
        run(['gcc', '-O1', '-c', V + '/harness/rt.c', '-o', rt])
        # the harness crate is copied so that a lock file refresh or the like never touches /verif or /repo
        shutil.rmtree(hs, ignore_errors=True); shutil.copytree(V + '/harness', hs, ignore=shutil.ignore_patterns('target'))
        if REPO != '/repo':
            for root, _, fs in os.walk(hs):
                for f in fs:
                    if f.endswith(('.toml', '.rs')):
                        f = os.path.join(root, f); t = open(f).read()
                        if '/repo' in t: open(f, 'w').write(t.replace('/repo', REPO))
        d = os.path.join(ht, 'release', 'deps')
        if os.path.isdir(d):
            for f in os.listdir(d):
                if f.startswith(P['bin'] + '-'): os.unlink(os.path.join(d, f))
        run(['cargo', 'rustc', '--release', '--offline', '--bin', P['bin'], '--', '--emit=llvm-ir,link', '-C', 'link-arg=' + rt, '-C', 'no-vectorize-loops', '-C', 'no-vectorize-slp'],
            cwd=hs, env=env(CARGO_TARGET_DIR=ht, RUSTFLAGS='--cap-lints allow --cfg rekordcrate_verif --check-cfg cfg(rekordcrate_verif)'))
    with cf.ThreadPoolExecutor(2) as ex:
        for f in [ex.submit(e), ex.submit(h)]: f.result()
    d = os.path.join(ht, 'release', 'deps')
    ll = [f for f in os.listdir(d) if f.startswith(P['bin'] + '-') and f.endswith('.ll')]
    if len(ll) != 1: die('IR not found: %s' % ll)
    return os.path.join(eng, 'release', 'symex'), os.path.join(d, ll[0]), os.path.join(ht, 'release', P['bin'])

def joblist():
    out = []
    for j in P['jobs']:
        tier = j.get('tier')
        if tier and tier != TIER: continue
        ps = j.get('params', [[]])
        if TIER == 'thorough' and 'thorough' in j: ps = j['thorough']
        for p in ps:
            p = list(p) if isinstance(p, (list, tuple)) else [p]
            if A.only and not re.search(A.only, '%s(%s)' % (j['entry'], ','.join(map(str, p)))): continue
            out.append(dict(entry=j['entry'], params=p, time=j.get('time', 400), steps=j.get('steps', 3_000_000), depth=j.get('depth', 400)))
    return out

VIOLATED = []   # violations seen so far: the rest of the jobs then get less time
def sx(job, i):
    out = os.path.join(B, 'out', '%s-%d.json' % (A.prop, i))
    if os.path.exists(out): os.unlink(out)
    limit = job['time'] * (8 if TIER == 'thorough' else 1)
    cmd = [SYMEX, '--ll', LL, '--entry', job['entry'], '--out', out, '--time', str(limit), '--steps', str(job['steps']), '--depth', str(job['depth']), '--samples', '6', '--param', ','.join(map(str, job['params']))]
    t = time.time()
    if TIER != 'thorough':
        left = (200 if VIOLATED else 800) - (t - T0)
        if left < 1: return dict(job=job, fail='not run: out of time')
        cmd[cmd.index('--time') + 1] = str(min(limit, left))
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=min(limit, left) + 60 if TIER != 'thorough' else limit + 120)
    except subprocess.TimeoutExpired: return dict(job=job, fail='symex did not stop')
    if r.returncode or not os.path.exists(out): return dict(job=job, fail='symex exit %s: %s' % (r.returncode, r.stdout[-600:]))
    d = json.load(open(out)); d['job'] = job; d['t'] = time.time() - t
    if d['violations'] and job['entry'] not in {k[0] for k in known()}: VIOLATED.append(1)
    return d

def native(job, inputs, tag):
    f = os.path.join(B, 'out', tag + '.values')
    with open(f, 'w') as o:
        for n, h in inputs: o.write('%s %s\n' % (n.replace(' ', '_'), h))
    cmd = [EXE, job['entry'], f] + [str(p) for p in job['params']]
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20, preexec_fn=limits)
    except subprocess.TimeoutExpired: return 'hang', '', '', f
    return r.returncode, r.stdout.decode('utf8', 'replace'), r.stderr.decode('utf8', 'replace'), f
def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, ((4 << 30) + (1 << 28), (4 << 30) + (1 << 28))); resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def confirm(job, v, tag):
    rc, out, err, f = native(job, v['inputs'], tag)
    ok = False
    if v['kind'] == 'assert': ok = ('ASSERT-FAIL ' + v['msg']) in out
    elif 'hang' in v['msg'] or 'step limit' in v['msg']: ok = rc == 'hang'
    else: ok = isinstance(rc, int) and rc < 0
    # a different failure of the same input is a failure all the same
    if not ok: ok = ('ASSERT-FAIL' in out) or (isinstance(rc, int) and rc < 0) or rc == 'hang'
    return ok, rc, out, err, f

def known():
    ks = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) entry=(\S+) match=(\S+) (.*)', l.strip())
            if m and m.group(1) == A.prop: ks.append(m.groups()[1:])
    return ks

if __name__ == '__main__':
    SYMEX, LL, EXE = build()
    tb = time.time() - T0
    shutil.rmtree(os.path.join(B, 'out'), ignore_errors=True); os.makedirs(os.path.join(B, 'out'))
    js = joblist()
    with cf.ThreadPoolExecutor(A.j) as ex: res = list(ex.map(lambda x: sx(x[1], x[0]), enumerate(js)))
    errors = []; confirmed = []; knownhit = {}; KN = known(); nval = 0; bad = 0
    for i, d in enumerate(res):
        name = '%s(%s)' % (d['job']['entry'], ','.join(map(str, d['job']['params'])))
        if 'fail' in d: errors.append('%s: %s' % (name, d['fail'])); continue
        if A.verbose: print('%-40s %6.1fs paths %d (panic %d) steps %d queries %d (%.1fs) %s' % (name, d['t'], d['paths'], d['paths_panic'], d['steps'], d['solver']['queries'], d['solver']['time_s'], d['violation_counts'] or ''))
        for e, n in d['errors'].items(): errors.append('%s: %s (x%d)' % (name, e, n))
        seen = set()
        for k, v in enumerate(d['violations']):
            key = v['kind'] + ': ' + v['msg']
            if key in seen: continue
            ok, rc, out, err, f = confirm(d['job'], v, 'v%d-%d' % (i, k))
            if not ok: errors.append('%s: counterexample for "%s" does not reproduce natively (exit %s)' % (name, key, rc)); bad += 1; continue
            seen.add(key)
            kf = [x for x in KN if x[0] == d['job']['entry'] and re.search(x[1], (key + ' ' + err).replace(' ', '_'))]
            if kf: knownhit[kf[0]] = name; continue
            rep = os.path.join(V, 'replays'); os.makedirs(rep, exist_ok=True)
            rf = os.path.join(rep, '%s-%d-%d.txt' % (A.prop, i, k))
            with open(rf, 'w') as o:
                o.write('# property %s\n# harness %s, params %s\n# violated: %s\n# native exit %s\n# %s\n' % (A.prop, d['job']['entry'], d['job']['params'], key, rc, ' | '.join(err.split('\n')[:6])))
                o.write('# call stack (innermost first): %s\n# rerun: python3 %s/replay.py %s\n' % (' < '.join(v['stack'][:8]), V, rf))
                o.write('bin %s\nentry %s\nparams %s\n' % (P['bin'], d['job']['entry'], ' '.join(map(str, d['job']['params']))))
                for n, h in v['inputs']: o.write('input %s %s\n' % (n.replace(' ', '_'), h))
            confirmed.append((name, key, rf, err.strip().split('\n')[:3]))
        for k, s in enumerate(d['samples']):
            rc, out, err, f = native(d['job'], s['inputs'], 's%d-%d' % (i, k))
            obs = [(int(x.split()[1]), (x.split() + [''])[2]) for x in out.split('\n') if x.startswith('OBS ')]
            exp = [(a, b) for a, b in s['observe']]
            if rc == 0 and 'DONE' in out and obs == exp: nval += 1
            elif any(v for v in d['violations']) : pass
            else: errors.append('%s: sampled path diverges natively: exit %s out %r expected %r inputs %r' % (name, rc, out[-300:], exp[:3], s['inputs'])); bad += 1
    good = [d for d in res if 'fail' not in d]
    # non-vacuity: every reach label and every check id in the harness source of the entries run must have been hit
    src = open(os.path.join(V, 'harness', 'src', 'bin', P['bin'] + '.rs')).read()
    vac = []
    ran = {d['job']['entry'] for d in good}; hit = set()
    for d in good: hit |= set(d['reached']) | set(d['assert_ids'])
    def skip(m): return m.group(0) if m.group(1) in ran else ''
    src = re.sub(r'fn (h_\w+)\(\) \{.*?\n    \}\n|fn (h_\w+)\(\) \{[^\n]*\}\n', lambda m: m.group(0) if (m.group(1) or m.group(2)) in ran else '', src, flags=re.S)
    src = re.sub(r'check\(false, "[^"]*"\)', '()', src)
    for lab in re.findall(r'reach\("([^"]*)"\)', src) + re.findall(r'check\((?:(?!check\()[^;{}])*?, "([^"]*)"\)', src):
        if lab not in hit and not lab.startswith('opt:'): vac.append('never reached: "%s"' % lab)
    if not confirmed and not A.only: errors += vac
    S = lambda k: sum(d['solver'][k] for d in good)
    fns = sorted({f for d in good for f in d['functions'] if 'rekordcrate' in f})
    allf = {f for d in good for f in d['functions']}
    cov = dict(
        states=sum(d['paths'] for d in good), transitions=sum(d['steps'] for d in good), traces_validated_against_impl=nval,
        samples=[dict(harness=d['job']['entry'], params=d['job']['params'], inputs=s['inputs'][:12]) for d in good for s in d['samples'][:1]][:6],
        rule='states = symbolic paths completed (each a set of inputs given by its path condition); transitions = LLVM IR instructions executed symbolically; traces = paths whose model was replayed in the native build with identical observed output',
        harnesses=[dict(entry=d['job']['entry'], params=d['job']['params'], paths=d['paths'], seconds=round(d['t'], 2), queries=d['solver']['queries'], assert_queries=d['assert_queries'], asserts=d['asserts']) for d in good],
        bounds=P['bounds'], outside=P.get('outside', ''),
        functions_encoded=fns[:400], functions_encoded_total=len(allf),
        assertions=sum(d['asserts'] for d in good), assertion_queries=sum(d['assert_queries'] for d in good),
        solver='z3 4.8.12 (libz3, QF_BV)', queries=S('queries'), sat=S('sat'), unsat=S('unsat'), unknown=S('unknown'),
        decided_by_byte_domain=S('domain_decided'), decided_by_interval=S('range_decided'), solver_time_s=round(S('time_s'), 2), slowest_query_s=max([d['solver']['max_s'] for d in good] or [0]),
        build_s=round(tb, 1), symbolic_input_bytes=max([d['vars'] for d in good] or [0]), inconclusive=errors[:20])
    ev = dict(property=A.prop, tier=TIER, seed=SEED, level='model_checking', coverage=cov, assumptions=P.get('assumptions', []) + J.COMMON_ASSUMPTIONS, wall_s=round(time.time() - T0, 1), violations=len(confirmed))
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', A.prop + '.json'), 'w'), indent=1)
    for k, n in knownhit.items(): print('KNOWN-FINDING: property=%s %s (%s)' % (A.prop, k[2], n))
    print('%s %s: %d jobs, %d paths, %d IR steps, %d assertions, %d queries (%.1fs solver), %d traces replayed, %.1fs (build %.1fs)' % (A.prop, TIER, len(js), cov['states'], cov['transitions'], cov['assertions'], cov['queries'], S('time_s'), nval, time.time() - T0, tb))
    if confirmed:
        for name, key, rf, err in confirmed[:20]:
            print('  %s: %s -- %s' % (name, key, ' / '.join(err)))
        for e in errors[:5]: print('  note:', e[:600])
        print('VIOLATION property=%s replay=%s' % (A.prop, confirmed[0][2]))
        sys.exit(1)
    if errors:
        for e in errors[:20]: print('  INCONCLUSIVE', e[:900])
        sys.exit(2)
    sys.exit(0)
