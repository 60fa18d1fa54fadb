#!/usr/bin/env python3
"""Decides one property by symbolic execution of the code in /repo.

  check.py PROP [--tier quick|thorough] [--entry E]...
  check.py --setup            build everything once
  check.py --bless            record the reachable covers of every entry

Exit 0: held on everything explored; 1: broken (VIOLATION line); anything
else: no answer.
"""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
BUILD = os.path.join(V, 'build')
ENGINE = os.path.join(BUILD, 'engine', 'release', 'engine')
REPLAY = os.path.join(BUILD, 'replay', 'release', 'replay')
T0 = time.time()
LIMIT = 800.0


def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0')
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET'):
        e.pop(k, None)
    e['RUSTFLAGS'] = ''
    return e


def cargo(cwd, target, args):
    r = subprocess.run(['cargo'] + args + ['--offline', '--target-dir', os.path.join(BUILD, target)], cwd=os.path.join(V, cwd),
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(r.stdout[-6000:])
        print('BUILD FAILED in', cwd)
        sys.exit(3)


def stale(target):
    """cargo goes by time stamps; what must follow /repo is always rebuilt"""
    for kind in ('release',):
        d = os.path.join(BUILD, target, kind, '.fingerprint')
        if os.path.isdir(d):
            for n in os.listdir(d):
                if re.match(r'(harness|blockchaintree|replay)-', n):
                    shutil.rmtree(os.path.join(d, n), ignore_errors=True)


def build_ir(work):
    stale('ir')
    deps = os.path.join(BUILD, 'ir', 'release', 'deps')
    if os.path.isdir(deps):
        for n in os.listdir(deps):
            if n.startswith('harness') and n.endswith('.ll'):
                os.remove(os.path.join(deps, n))
    r = subprocess.run(['cargo', 'rustc', '--release', '--offline', '--target-dir', os.path.join(BUILD, 'ir'), '--lib',
                        '--crate-type', 'staticlib', '--', '--emit=llvm-ir'], cwd=os.path.join(V, 'harness'), env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    lls = [n for n in os.listdir(deps) if n.startswith('harness') and n.endswith('.ll')] if os.path.isdir(deps) else []
    if r.returncode or len(lls) != 1:
        print(r.stdout[-6000:])
        print('BUILD FAILED: no IR')
        sys.exit(3)
    out = os.path.join(work, 'harness.ll')
    shutil.copy(os.path.join(deps, lls[0]), out)
    return out


def build_replay(work):
    stale('replay')
    cargo('replay', 'replay', ['build', '--release'])
    out = os.path.join(work, 'replay')
    shutil.copy(REPLAY, out)
    return out


def build(work):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(3) as ex:
            a = ex.submit(cargo, 'engine', 'engine', ['build', '--release'])
            b = ex.submit(build_ir, work)
            c = ex.submit(build_replay, work)
            a.result()
            ll, rp = b.result(), c.result()
        eng = os.path.join(work, 'engine')
        shutil.copy(ENGINE, eng)
        return eng, ll, rp


def entries(ll):
    with open(ll) as f:
        t = f.read()
    return sorted(set(re.findall(r'^define[^@\n]*@([htk]_p\d\d_\w+)\(', t, re.M))), hashlib.sha256(t.encode()).hexdigest()


def run_entry(eng, ll, rp, work, e, tier, seed, left, known, settled):
    out = os.path.join(work, e + '.json')
    cmd = [eng, ll, e, out, '--time', '%.0f' % left, '--seed', str(seed)]
    cmd += ['--samples', '3', '--recheck', '40', '--query', '60', '--after', '90'] if tier == 'quick' else ['--samples', '12', '--recheck', '1000', '--double', 'cvc5', '--query', '240']
    t0 = time.time()
    with subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) as p:
        while True:
            try:
                log, _ = p.communicate(timeout=1)
                rc = p.returncode
                break
            except subprocess.TimeoutExpired:
                pass
            done = settled and time.time() > settled[0] + 90
            if done or time.time() > t0 + left + 60:
                p.kill()
                p.communicate()
                return e, -1, 'ended after a violation elsewhere' if done else 'time limit', None
    try:
        d = json.load(open(out))
    except Exception:
        d = None
    if d and d['violations'] and tier == 'quick' and not settled:
        # once it has failed natively too, the other entries need not finish
        v = d['violations'][0]
        p = os.path.join(work, e + '-first.txt')
        values(v, p)
        if not any(f['entry'] == e and f['label'] == v['label'] for f in known) and any(native(rp, e, p, r).startswith('violated') for r in (True, False)):
            settled.append(time.time())
    return e, rc, log, d


def values(x, path):
    with open(path, 'w') as f:
        for i in x['inputs']:
            if 'choice' in i:
                f.write('C\t%s\t%d\n' % (i['name'], i['choice']))
            elif 'bytes' in i:
                f.write('B\t%s\t%s\n' % (i['name'], i['bytes']))
        for m, h in x['sha']:
            f.write('S\t%s\t%s\n' % (m, h))


def native(rp, e, path, real):
    try:
        r = subprocess.run([rp, e, path] + (['--real-sha'] if real else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60, env=env())
    except subprocess.TimeoutExpired:
        return 'violated does not terminate'
    l = r.stdout.strip().split('\n')[-1]
    if r.returncode:
        return 'violated the process dies (%d) %s' % (r.returncode, r.stderr.strip()[-200:])
    return l


def show(x):
    o = []
    for i in x['inputs']:
        if 'choice' in i:
            o.append('%s=#%d' % (i['name'], i['choice']))
        elif 'bytes' in i:
            o.append('%s=%s' % (i['name'], i['bytes']))
        else:
            o.append('%s: %s' % (i['name'], i.get('note')))
    return ' '.join(o)


def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        k = a.index('--tier')
        tier = a[k + 1]
        del a[k:k + 2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    work = os.path.join(BUILD, 'run-%d' % os.getpid())
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return go(a, tier, seed, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def go(a, tier, seed, work):
    eng, ll, rp = build(work)
    if '--setup' in a:
        print('ready')
        return 0
    all_, digest = entries(ll)
    if '--bless' in a:
        return bless(eng, ll, rp, work, all_, [x for x in a if x != '--bless'])
    prop = a[0]
    from bounds import BOUNDS, OUTSIDE, ASSUME
    mine = [e for e in all_ if e[2:5] == prop.lower() and (tier == 'thorough' or e[0] != 't')]
    for i, x in enumerate(a):
        if x == '--entry':
            mine = [e for e in mine if e == a[i + 1]]
    if not mine:
        print('no entry for', prop)
        return 3
    want = json.load(open(os.path.join(V, 'harness', 'covers.json')))
    known = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
    missing = [e for e in want if e[2:5] == prop.lower() and (tier == 'thorough' or e[0] != 't') and e not in all_]
    t1 = time.time()
    with cf.ThreadPoolExecutor(8) as ex:
        settled = []
        res = list(ex.map(lambda e: run_entry(eng, ll, rp, work, e, tier, seed, max(30.0, LIMIT - (time.time() - T0)) if tier == 'quick' else 7200.0, known, settled), mine))
    engine_wall = time.time() - t1
    bad, confirmed, finding, agree, ran = [], [], [], 0, 0
    if missing:
        bad.append('entries missing: ' + ' '.join(missing))
    rdir = os.path.join(V, 'replays')
    for e, rc, log, d in res:
        if d is None:
            bad.append('%s: engine failed (%s) %s' % (e, rc, log[-400:]))
            continue
        for p in d['problems']:
            bad.append('%s: %s' % (e, p))
        if d['unknown']:
            bad.append('%s: %d queries without an answer' % (e, d['unknown']))
        lost = [c for c in want.get(e, []) if c not in d['covers']]
        if e not in want:
            bad.append('%s: no recorded covers' % e)
        labels = {}
        for v in d['violations']:
            labels.setdefault(v['label'], []).append(v)
        for lab, vs in labels.items():
            got = None
            for n, v in enumerate(vs):
                os.makedirs(rdir, exist_ok=True)
                base = os.path.join(rdir, '%s-%s-%d' % (e, hashlib.sha256(lab.encode()).hexdigest()[:8], n))
                values(v, base + '.txt')
                for real in (True, False):
                    r = native(rp, e, base + '.txt', real)
                    if r.startswith('violated'):
                        got = (base, r[9:], 'SHA-256' if real else "the solver's digests", v)
                        break
                if got:
                    break
            if not got:
                bad.append('%s: counterexample for "%s" does not reproduce natively (%s)' % (e, lab, r))
                continue
            base, what, sha, v = got
            k = [f for f in known if f['property'] == prop and f['entry'] == e and f['label'] == lab]
            if k:
                finding.append((k[0], base))
                continue
            with open(base + '.json', 'w') as f:
                json.dump({'property': prop, 'entry': e, 'violated': lab, 'native': what, 'hash_function': sha, 'stack': v['stack'],
                           'detail': v['detail'], 'inputs': v['inputs'], 'sha': v['sha'],
                           'replay_with': 'build/replay/release/replay %s %s.txt' % (e, os.path.relpath(base, V))}, f, indent=1)
            confirmed.append((e, lab, what, sha, base + '.json', v))
        if lost and not d['violations']:
            bad.append('%s: no longer reached: %s' % (e, '; '.join(lost)))
        # completed paths, run natively on the values the solver gives for them
        if not d['violations']:
            for n, s in enumerate(d['samples']):
                p = os.path.join(work, '%s-s%d.txt' % (e, n))
                values(s, p)
                ran += 1
                r = native(rp, e, p, False)
                if r == 'passed':
                    agree += 1
                else:
                    bad.append('%s: a path the engine completes natively ends as: %s' % (e, r))
    ds = [d for _, _, _, d in res if d]
    S = lambda k: sum(d[k] for d in ds)
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': S('paths'),
            'transitions': S('forks'),
            'traces_validated_against_impl': agree,
            'samples': [{'entry': d['entry'], 'path': show(s)[:1500]} for d in ds for s in d['samples'][:1]][:6],
            'explanation': 'symbolic execution of the LLVM IR of /repo; states = symbolic paths completed, transitions = feasible forks; every assertion decided for all values of its path',
            'entries': {d['entry']: {'bound': BOUNDS.get(d['entry'], ''), 'paths': d['paths'], 'assumed_away': d['assumed_away'], 'asserts': d['asserts'],
                                     'asserts_settled_by_rewriting': d['asserts_concrete'], 'smt_queries': d['queries'], 'byte_domain_decisions': d['brute'],
                                     'seconds': d['seconds'], 'problems': d['problems']} for d in ds},
            'instructions_executed': S('instructions'),
            'assertions': S('asserts'), 'assertions_settled_by_rewriting': S('asserts_concrete'),
            'smt_queries': S('queries'), 'smt_sat': S('sat'), 'smt_unsat': S('unsat'), 'smt_unknown': S('unknown'),
            'answers_from_query_cache': S('cached'), 'byte_domain_decisions': S('brute'), 'byte_domain_rechecked_by_smt': S('rechecked'),
            'second_solver_agreements': S('second'), 'sampled_paths_confirmed_by_smt': S('confirmed'),
            'solver_seconds': round(S('solver_seconds'), 3), 'max_query_seconds': max([d['max_query_seconds'] for d in ds] + [0]),
            'engine_wall_seconds': round(engine_wall, 2),
            'functions_encoded': sorted({f for d in ds for f in d['functions']}),
            'outside_the_bounds': OUTSIDE.get(prop, ''),
            'ir_sha256': digest,
            'native_runs_of_sampled_paths': ran,
            'known_findings_reproduced': [f[0]['what'] for f in finding],
            'inconclusive': bad,
            'exhaustive': not bad,
        },
        'assumptions': ASSUME.get(prop, []) + ASSUME['*'],
        'wall_s': round(time.time() - T0, 2),
        'violations': len(confirmed),
    }
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    p = os.path.join(V, 'evidence', prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)
    for k, base in finding:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for x in bad:
        print('INCONCLUSIVE', x)
    if confirmed:
        for e, lab, what, sha, path, v in confirmed:
            print('%s: %s' % (e, lab))
            print('   native replay (%s): %s' % (sha, what))
            print('   at', ' <- '.join(v['stack'][:6]))
            print('   with', show(v)[:600])
        for e, lab, what, sha, path, v in confirmed:
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('%s %s: %d entries, %d paths, %d assertions, %d SMT queries (%.1f s), %d byte-domain decisions, %d native traces, %.1f s'
          % (prop, 'inconclusive' if bad else 'holds', len(mine), S('paths'), S('asserts'), S('queries'), S('solver_seconds'), S('brute'), agree, time.time() - T0))
    return 2 if bad else 0


def bless(eng, ll, rp, work, all_, pats):
    p = os.path.join(V, 'harness', 'covers.json')
    old = json.load(open(p)) if os.path.exists(p) else {}
    todo = [e for e in all_ if not pats or any(x in e for x in pats)]
    with cf.ThreadPoolExecutor(8) as ex:
        for e, rc, log, d in ex.map(lambda e: run_entry(eng, ll, rp, work, e, 'quick', 1, 3000.0, [], [0] * 0), todo):
            if d is None or d['problems'] or (d['violations'] and e[0] != 'k'):
                print('not blessed:', e, rc, log[-200:], d and (d['problems'][:2], [v['label'] for v in d['violations']]))
                continue
            old[e] = d['covers']
    old = {e: c for e, c in sorted(old.items()) if e in all_}
    with open(p, 'w') as f:
        json.dump(old, f, indent=0, sort_keys=True)
        f.write('\n')
    print(len(old), 'entries blessed')
    return 0


if __name__ == '__main__':
    sys.exit(main())
