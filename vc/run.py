#!/opt/veriftools/pyvenv/bin/python3
"""Driver: decide one property from /repo's current source.
   run.py check <property>      run the proofs of a property (VERIF_TIER, VERIF_SEED)
   run.py proof <tu> <regex>    run single proofs, verbose"""
import sys, os, re, json, time, subprocess, tempfile, shutil, multiprocessing, resource, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('VC_REPO', '/repo')
CLANG = 'clang++-18'; OPT = 'opt-18'
CFLAGS = ['-std=c++11', '-D__ABC__LINUX=1', '-D__ABC__OPENSSL=1', '-I' + HERE + '/include', '-I' + REPO + '/src', '-I' + REPO, '-w']
PASSES = 'function(sroa,simplifycfg)'

def compile_tu(tu, work):
    src = os.path.join(VERIF, 'harness', tu); b = os.path.join(work, tu.replace('/', '_'))
    ll0 = b + '.0.ll'; ll = b + '.ll'
    p = subprocess.run([CLANG] + CFLAGS + ['-O0', '-gline-tables-only', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names',
                        '-S', '-emit-llvm', src, '-o', ll0], capture_output=True, text=True)
    if p.returncode: return None, p.stderr
    mp = re.search(r'^// vc-passes: (\S+)', open(src).read(), re.M)   # semantics-preserving LLVM passes that shape the text
    p = subprocess.run([OPT, '-S', '-passes=' + (mp.group(1) if mp else PASSES), ll0, '-o', ll], capture_output=True, text=True)
    if p.returncode: return None, p.stderr
    os.unlink(ll0)
    return ll, ''

def run_proof(arg):
    ll, tu, h, opts = arg
    t0 = time.time()
    res = dict(tu=tu, harness=h, only=opts.get('only'), ensures=0, obs=[], error=None, stats={}, loops=[], contracts={}, inlined=[], externs=[])
    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
        import ir, symex
        m = ir.load(ll)
        o = dict(opts); o.setdefault('deadline', time.time() + opts.get('limit', 600))
        E = symex.Engine(m, o)
        E.harness = h
        nm = h[len('vcproof__'):]
        for n, g in m.globals.items():
            if n.startswith('vcregex__'):
                E.contracts.append((re.compile(g.init[1].rstrip(b'\0').decode()), n[9:]))
                if nm.split('__')[0] == n[9:]: E.skip_contracts.add(n[9:])
            if n.startswith('vcmerge__'): E.merges.append((re.compile(g.init[1].rstrip(b'\0').decode()), int(n.split('__')[2])))
        for n in opts.get('skip', []): E.skip_contracts.add(n)
        try:
            E.run(h)
        except symex.Unsupported as e: res['error'] = 'unsupported: %s' % e
        except TimeoutError as e: res['error'] = 'time limit: %s' % e
        except MemoryError as e: res['error'] = 'memory limit'
        except StopIteration: pass
        res['obs'] = [dict(name=x.name, checks=x.checks, failed=x.failed, unknown=x.unknown, time=x.time,
                           cex=({k: (v.hex() if isinstance(v, bytes) else v) for k, v in x.cex.items()} if x.cex else None)) for x in E.obs.values()]
        res['ensures'] = sum(1 for x in E.obs if x.startswith('ensures'))
        res['stats'] = E.stats; res['loops'] = E.loopinfo; res['contracts'] = E.used_contracts
        dem = lambda n: (m.funcs[n].dem if n in m.funcs else n)
        res['inlined'] = sorted({dem(n) for n in E.inlined if '3abc' in n or n.startswith('_ZN3abc') or 'abc' in dem(n)})
        res['externs'] = sorted({dem(n) for n in E.externs})
    except Exception as e:
        res['error'] = 'engine: ' + traceback.format_exc()[-1500:]
    res['wall'] = time.time() - t0
    return res

def proofs_in(ll):
    return re.findall(r'^define .*@(vcproof__\w+)\(', open(ll).read(), re.M)

# ---------------------------------------------------------------- native replay
def native_build(tu, h, work, fuzz=True):
    src = os.path.join(VERIF, 'harness', tu); out = os.path.join(work, 'nat_' + h)
    if os.path.exists(out): return out, ''
    p = subprocess.run([CLANG] + CFLAGS + ['-DVC_NATIVE', '-DVC_HARNESS=' + h, '-g', '-O1', '-fsanitize=fuzzer,address,undefined',
                        '-fno-sanitize=vptr,alignment,function,null,nonnull-attribute', '-fno-sanitize-recover=undefined', src, '-o', out, '-lpthread'], capture_output=True, text=True)
    return (out, '') if p.returncode == 0 else (None, p.stderr[-2000:])
ENV = dict(os.environ, ASAN_OPTIONS='abort_on_error=0:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1', UBSAN_OPTIONS='print_stacktrace=0')
def native_run(exe, path, work):
    try: p = subprocess.run([exe, '-timeout=10', '-rss_limit_mb=4096', '-error_exitcode=77', path], capture_output=True, text=True, timeout=60, env=ENV, cwd=work, errors='replace')
    except subprocess.TimeoutExpired: return True, 'does not terminate (60 s)'
    bad = p.returncode != 0
    msg = '\n'.join([l for l in p.stderr.split('\n') if re.search(r'VC-FAILED|VC-INPUT|ERROR: |SUMMARY|runtime error|timeout', l)][:40])
    return bad, msg
def native_confirm(r, work, seconds, seed):
    """try the verifier's counterexamples, then a directed search, on the real code; (input bytes, message) or None"""
    exe, err = native_build(r['tu'], r['harness'], work)
    if not exe: return None, 'native build failed: ' + err[-600:]
    d = os.path.join(work, 'corp_' + r['harness']); os.makedirs(d, exist_ok=True)
    k = 0
    for o in r['obs']:
        if (o['failed'] or o['unknown']) and o['cex'] and o['cex'].get('bytes'):
            p = os.path.join(d, 'cex%d' % k); open(p, 'wb').write(b'\0' + bytes.fromhex(o['cex']['bytes'])); k += 1
            bad, msg = native_run(exe, p, work)
            if bad: return open(p, 'rb').read(), 'counterexample of the verifier replayed on the real code: ' + msg
    import random
    rnd = random.Random(seed or 1)
    for i in range(40):
        n = rnd.choice([4, 12, 40, 120, 400])
        open(os.path.join(d, 'seed%d' % i), 'wb').write(b'\1' + bytes(rnd.choice([0, 1, 2, 3, 5, 8, 16, 32, 48, 65, 97, 255, rnd.randrange(256)]) for _ in range(n)))
    art = os.path.join(work, 'art_' + r['harness']) + '/'; os.makedirs(art, exist_ok=True)
    try:
        p = subprocess.run([exe, d, '-max_total_time=%d' % seconds, '-timeout=8', '-rss_limit_mb=3000', '-artifact_prefix=' + art, '-seed=%d' % (seed or 1),
                        '-max_len=700', '-use_value_profile=1', '-len_control=20', '-verbosity=0'], capture_output=True, text=True, timeout=seconds + 60, env=ENV, cwd=work, errors='replace')
    except subprocess.TimeoutExpired: return None, 'search timed out'
    fs = [f for f in os.listdir(art) if f.startswith(('crash', 'timeout', 'oom'))]
    if fs:
        p = art + fs[0]
        bad, msg = native_run(exe, p, work)
        if bad: return open(p, 'rb').read(), 'failing input found by search on the real code: ' + msg
    return None, 'no failing input found in %d s of search' % seconds

def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known:'):
                m = re.match(r'known:\s*property=(\S+)\s+proof=(\S+)\s+obligation="([^"]*)"\s*(.*)', l)
                if m: out.append(m.groups())
    return out

def check(pid):
    import plan
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = plan.PLAN[pid]
    work = tempfile.mkdtemp(prefix='vc_%s_' % pid)
    try: return check2(pid, P, tier, seed, work, t0)
    finally: shutil.rmtree(work, ignore_errors=True)

def check2(pid, P, tier, seed, work, t0):
    tus = sorted({u[0] for u in P['units']})
    with multiprocessing.Pool(8) as pool: comp = pool.starmap(compile_tu, [(t, work) for t in tus])
    lls = {}
    for t, (ll, err) in zip(tus, comp):
        if ll is None:
            # the specification is written against the public interface and a few named helpers; if the current tree no longer has them, nothing is proved
            rd = os.path.join(VERIF, 'out', 'replays'); os.makedirs(rd, exist_ok=True); rp = os.path.join(rd, pid + '-contract-does-not-apply.json')
            json.dump(dict(property=pid, tu=t, input_hex=None, obligations=[dict(obligation='the contracts of %s apply to the current tree' % t, status='failed')], outcome=err[-6000:]), open(rp, 'w'), indent=1)
            json.dump(dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'proof'), wall_s=round(time.time() - t0, 2), violations=1,
                           coverage=dict(obligations=1, discharged=0, checker_cmd='python3-vt vc/run.py check ' + pid, trusted_base=['clang-18 front end']), assumptions=[]),
                      open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
            print('the contracts of %s do not apply to the current tree:\n%s' % (t, err[-3000:]))
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp)); return 1
        lls[t] = ll
    jobs = []
    for u in P['units']:
        tu, rx = u[0], re.compile('vcproof__(%s)$' % u[1]); opts = u[2] if len(u) > 2 else {}
        hs = [h for h in proofs_in(lls[tu]) if rx.match(h)]
        if not hs: print('ERROR: no proof matches %s in %s' % (u[1], tu)); return 2
        opts = dict(opts); opts.setdefault('limit', 600 if tier == 'quick' else 3000)
        if tier != 'quick': opts['timeout'] = 60000
        for h in hs: jobs.append((lls[tu], tu, h, opts))
    try: wt = json.load(open(os.path.join(HERE, 'weights.json')))      # longest first (scheduling only)
    except Exception: wt = {}
    jobs.sort(key=lambda j: -wt.get(j[1] + ':' + j[2][9:], 0))
    with multiprocessing.Pool(8, maxtasksperchild=1) as pool: results = pool.map(run_proof, jobs, chunksize=1)
    known = load_known()
    bad = []; knownhit = []; vac = []
    for r in results:
        r['obs'] = [o for o in r['obs'] if not r['only'] or re.search(r['only'], o['name'])]
        fails = [o for o in r['obs'] if o['failed'] or o['unknown']]
        rest = []
        for o in fails:
            k = [x for x in known if x[0] == pid and x[1] == r['harness'][9:] and x[2] == o['name']]
            if k: knownhit.append((r, o, k[0]))
            else: rest.append(o)
        if r['error'] or rest: bad.append((r, rest))
        elif r['stats'].get('ends', 0) == 0 or not r['ensures'] or not r['obs']: vac.append(r['harness'])
    nobs = sum(o['checks'] for r in results for o in r['obs'])
    discharged = sum(o['checks'] - o['failed'] - o['unknown'] for r in results for o in r['obs'])
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'proof'), wall_s=0, violations=0)
    contracts = {}
    for r in results:
        for c, n in r['contracts'].items(): contracts[c] = contracts.get(c, 0) + n
    ev['coverage'] = dict(
        obligations=nobs, discharged=discharged,
        named_obligations=sum(len(r['obs']) for r in results),
        checker_cmd='python3-vt vc/run.py check %s (VC generator vc/symex.py over clang-18 LLVM IR of /repo, decided by z3 %s)' % (pid, z3v()),
        trusted_base=['vc/ir.py + vc/symex.py (VC generator)', 'clang-18 front end and its sroa/simplifycfg passes', 'z3'] + sorted({e for r in results for e in r['externs']}),
        proofs=[dict(proof=r['harness'][9:], tu=r['tu'], obligations=sum(o['checks'] for o in r['obs']), failed=sum(o['failed'] + o['unknown'] for o in r['obs']),
                     wall_s=round(r['wall'], 2), solver_s=round(r['stats'].get('qtime', 0), 2), queries=r['stats'].get('queries', 0), paths=r['stats'].get('paths', 0),
                     loops=[dict(fn=l['fn'], line=l['line'], invariants=l['kept'], ranking=l['ranks']) for l in r['loops']][:40], error=r['error']) for r in results],
        contracts_applied_at_calls=contracts,
        functions_under_contract=sorted({f for r in results for f in r['inlined']}),
        solver_s=round(sum(r['stats'].get('qtime', 0) for r in results), 2),
        known_findings=[dict(proof=r['harness'][9:], obligation=o['name']) for r, o, _ in knownhit])
    ev['assumptions'] = P.get('assumptions', []) + ['IR semantics: default C++ object model, no aliasing between distinct allocations',
                         'external functions obey the contracts stated in vc/include (listed in trusted_base)']
    rc = 0
    for r, o, k in knownhit: print('KNOWN-FINDING: property=%s %s (%s)' % (pid, k[3] or o['name'], o['name']))
    if vac:
        print('ERROR: vacuous proofs: %s' % ', '.join(vac)); rc = 2
    if bad:
        rc = 1
        rd = os.path.join(VERIF, 'out', 'replays'); os.makedirs(rd, exist_ok=True)
        budget = min(150, max(30, 840 - (time.time() - t0))) if tier == 'quick' else 600
        bad.sort(key=lambda b: (0 if b[1] else 1, b[0]['wall']))
        per = max(20, int(budget) // ((len(bad) + 3) // 4))
        with multiprocessing.Pool(min(4, len(bad))) as pool:
            conf = pool.starmap(native_confirm, [(r, work, per, seed) for r, _ in bad]) if not P.get('no_native') else [(None, 'no native replay for this proof')] * len(bad)
        for (r, rest), (inp, msg) in zip(bad, conf):
            name = '%s-%s' % (pid, r['harness'][9:])
            rp = os.path.join(rd, name + '.json')
            obl = [dict(obligation=o['name'], status='unknown' if not o['failed'] else 'failed', counterexample=o['cex']) for o in rest]
            json.dump(dict(property=pid, proof=r['harness'][9:], tu=r['tu'], error=r['error'], obligations=obl, input_hex=inp.hex() if inp is not None else None,
                           outcome=msg, rerun='python3-vt vc/run.py replay %s' % rp), open(rp, 'w'), indent=1)
            for o in rest[:6]: print('  failed obligation: %s [%s] line %s' % (o['name'], r['harness'][9:], (o['cex'] or {}).get('line')))
            if r['error']: print('  proof %s incomplete: %s' % (r['harness'][9:], r['error'][-400:]))
            print('  ' + msg.replace('\n', '\n    '))
            print('VIOLATION property=%s replay=%s%s' % (pid, rp, '' if inp is not None else ' no-failing-input-found'))
        ev['violations'] = len(bad)
    ev['wall_s'] = round(time.time() - t0, 2)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d proofs, %d obligations, %d discharged, %.1f s' % (pid, len(results), nobs, discharged, time.time() - t0))
    return rc

def z3v():
    import z3
    return z3.get_version_string()

def replay(path):
    d = json.load(open(path)); work = tempfile.mkdtemp(prefix='vc_replay_')
    try:
        if d['input_hex'] is None: print('no failing input recorded; failed obligations:', json.dumps(d['obligations'], indent=1)[:3000]); return 1
        exe, err = native_build(d['tu'], 'vcproof__' + d['proof'], work)
        if not exe: print(err); return 2
        p = os.path.join(work, 'in'); open(p, 'wb').write(bytes.fromhex(d['input_hex']))
        bad, msg = native_run(exe, p, work); print(msg); return 1 if bad else 0
    finally: shutil.rmtree(work, ignore_errors=True)

def proof(tu, rx, verbose):
    work = tempfile.mkdtemp(prefix='vc_p_')
    try:
        ll, err = compile_tu(tu, work)
        if ll is None: print(err); return 2
        hs = [h for h in proofs_in(ll) if re.match('vcproof__(%s)$' % rx, h)]
        with multiprocessing.Pool(8, maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(run_proof, [(ll, tu, h, dict(verbose=verbose, limit=int(os.environ.get('VC_LIMIT', '900')), dump=os.environ.get('VC_DUMP'))) for h in hs]):
                n = sum(o['checks'] for o in r['obs']); f = [o for o in r['obs'] if o['failed'] or o['unknown']]
                print('%-40s %6.1fs ob=%d bad=%d ends=%s paths=%s q=%s qt=%.1f %s' % (r['harness'][9:], r['wall'], n, len(f), r['stats'].get('ends'), r['stats'].get('paths'), r['stats'].get('queries'), r['stats'].get('qtime', 0), ('ERROR ' + r['error']) if r['error'] else ''))
                for o in f:
                    c = dict(o['cex'] or {}); c.pop('bytes', 0); c.pop('trace', 0)
                    print('     FAILED' if o['failed'] else '     UNKNOWN', o['name'], c)
                if verbose and 'confirm' in sys.argv:
                    if f: print('   native:', native_confirm(r, work, 30, 1)[1])
                if 'loops' in sys.argv:
                    for l in r['loops']: print('    loop', l['fn'], l['line'], 'inv', l['kept'], 'ranks', l['ranks'], l['sample'][:60])
                sys.stdout.flush()
    finally: shutil.rmtree(work, ignore_errors=True)

def nat1(a):
    tu, h, work, secs = a
    return h, native_confirm(dict(tu=tu, harness=h, obs=[]), work, secs, 1)
def nat(tu, rx, secs):
    """run the specifications natively on the real code (sanity check of the specifications themselves)"""
    work = tempfile.mkdtemp(prefix='vc_n_')
    try:
        hs = [h for h in re.findall(r'VC_PROOF\((\w+)\)', open(os.path.join(VERIF, 'harness', tu)).read()) if re.match('(%s)$' % rx, h)]
        hs = ['vcproof__' + h for h in hs]
        ll, err = compile_tu(tu, work)
        if ll is None: print(err); return 2
        hs = [h for h in proofs_in(ll) if re.match('vcproof__(%s)$' % rx, h)]
        with multiprocessing.Pool(8) as pool:
            for h, (inp, msg) in pool.imap_unordered(nat1, [(tu, h, work, secs) for h in hs]):
                print(h, 'FAIL' if inp is not None else 'ok', msg[:1500]); sys.stdout.flush()
    finally: shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    if sys.argv[1] == 'weights':     # remember how long each proof took
        p = os.path.join(HERE, 'weights.json'); w = json.load(open(p)) if os.path.exists(p) else {}
        for f in os.listdir(os.path.join(VERIF, 'evidence')):
            for q in json.load(open(os.path.join(VERIF, 'evidence', f)))['coverage'].get('proofs', []): w[q['tu'] + ':' + q['proof']] = round(q['wall_s'])
        json.dump(w, open(p, 'w'), indent=0, sort_keys=True); sys.exit(0)
    if sys.argv[1] == 'nat': sys.exit(nat(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else '.*', int(sys.argv[4]) if len(sys.argv) > 4 else 15))
    if sys.argv[1] == 'check': sys.exit(check(sys.argv[2]))
    if sys.argv[1] == 'replay': sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == 'proof': sys.exit(proof(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else '.*', 1 if 'confirm' in sys.argv else 0))
