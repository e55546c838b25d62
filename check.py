#!/usr/bin/env python3
"""check.py <property> : decide one property on /repo's current working tree.

1. extract /repo's headers mechanically (engine/overlay.py) and compile the
   property's contract harness against them with the symbolic scalar type;
   the verifier then discharges every obligation path by path;
2. compile the same contracts against the untouched headers with the machine
   double and run them (replay of counterexamples, bounded stand-in).
Exit 0: nothing violated.  Exit 1 + VIOLATION line: a violated obligation.
"""
import concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VC_REPO', '/repo')
sys.path.insert(0, os.path.join(ROOT, 'engine'))
import overlay
from props import PROPS
T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
THOROUGH = TIER == 'thorough'
DEADLINE = T0 + (6 * 3600 if THOROUGH else 760)

CXX = os.environ.get('VC_CXX', 'g++')
COMMON = ['-std=gnu++20', '-w', '-D_GLIBCXX_ASSERTIONS', '-fmax-errors=6', '-I' + os.path.join(ROOT, 'engine'), '-I/usr/include/eigen3']
procs = set()

def left(): return DEADLINE - time.time()

def sh(cmd, timeout, env=None, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env, cwd=cwd, start_new_session=True)
    procs.add(p)
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.communicate()
        return -9, 'timeout'
    finally:
        procs.discard(p)

def load(path):
    res = []
    try:
        for l in open(path):
            try: res.append(json.loads(l))
            except ValueError: pass
    except OSError: pass
    return res[0] if res else None, res[1:]

def known():
    out = []
    for l in open(os.path.join(ROOT, 'known_findings.txt')):
        m = re.match(r'known: property=(\S+) obligation=(\S+) (.*)', l)
        if m: out.append(m.groups())
    return out

def main():
    pid = sys.argv[1]
    cfg = PROPS[pid]
    work = tempfile.mkdtemp(prefix='vc-%s-' % pid)
    try:
        return run(pid, cfg, work)
    finally:
        for p in list(procs):
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
        shutil.rmtree(work, ignore_errors=True)

def run(pid, cfg, work):
    ov = os.path.join(work, 'overlay')
    ov_err = ''
    try: overlay.main(os.path.join(REPO, 'Bembel'), os.path.join(ov, 'Bembel'))
    except Exception as e: ov_err = 'extraction failed: %r' % e
    env = dict(os.environ, OMP_NUM_THREADS='1', MALLOC_PERTURB_='165', VC_REPO=REPO, VC_WORK=work)
    jobs = 8
    results = {}   # (harness, mode) -> dict
    lock = threading.Lock()

    def build(h, mode, variant=''):
        exe = os.path.join(work, '%s.%s' % (h, mode))
        src = os.path.join(ROOT, 'harness', h + '.cpp')
        hc = cfg.get('opts', {}).get(h, {})
        if mode == 'sym':
            if ov_err: return None, ov_err
            cmd = [CXX] + COMMON + ['-O1', '-I' + ov] + hc.get('symflags', []) + [src, '-o', exe, '-lz3', '-lgmpxx', '-lgmp', '-lquadmath']
        else:
            cmd = [CXX] + COMMON + ['-O1', '-fopenmp', '-DVC_NATIVE', '-I' + REPO] + hc.get('natflags', []) + [src, '-o', exe, '-lquadmath']
        cmds = [cmd]
        if hc.get('omp'):  # OpenMP regions: compiled as usual, run by engine/omp_rt.cpp; natively with tracked memory accesses
            track = [] if mode == 'sym' else ['-DVC_TRACK']
            i = cmd.index('-o')
            cmds = [cmd[:i] + (['-fsanitize=thread', '-g1'] + track if track else ['-fopenmp']) + ['-c', '-o', exe + '.o'],
                    [CXX, '-std=gnu++20', '-O2', '-c', os.path.join(ROOT, 'engine', 'omp_rt.cpp'), '-o', exe + '.rt.o'] + track,
                    [CXX, exe + '.o', exe + '.rt.o', '-o', exe] + (['-Wl,--wrap=' + f for f in ('memcpy', 'memmove', 'memset', 'free')] if track else []) + cmd[i + 2:]]
        for cmd in cmds:
            rc, out = sh(cmd, min(left() - 20, 400))
            if rc != 0: return None, out[-1500:]
        return exe, ''

    builds = {}
    with cf.ThreadPoolExecutor(8) as ex:
        futs = {}
        for h in cfg['harness']:
            for mode in ('nat', 'sym'):
                if mode == 'sym' and cfg.get('opts', {}).get(h, {}).get('nosym'): continue
                futs[(h, mode)] = ex.submit(build, h, mode)
        for k, f in futs.items(): builds[k] = f.result()
    t_build = time.time() - T0
    # native runs first (seconds), then the proofs
    for h in cfg['harness']:
        hc = cfg.get('opts', {}).get(h, {})
        exe, err = builds[(h, 'nat')]
        if exe:
            out = exe + '.json'
            ns = hc.get('samples', 30) * (8 if THOROUGH else 1)
            bud = hc.get('natbudget', 60) * (4 if THOROUGH else 1)
            rc, log = sh([exe, out, str(jobs), str(bud), str(min(left() - 15, 300 * (10 if THOROUGH else 1))), str(ns), str(SEED)], left() - 10, env, work)
            results[(h, 'nat')] = (rc, log, *load(out))
    for h in cfg['harness']:
        hc = cfg.get('opts', {}).get(h, {})
        if (h, 'sym') not in builds: continue
        exe, err = builds[(h, 'sym')]
        if exe:
            out = exe + '.json'
            bud = hc.get('budget', 120) * (10 if THOROUGH else 1)
            tot = max(20, min(left() - 25, hc.get('total', 600) * (20 if THOROUGH else 1)))
            rc, log = sh([exe, out, str(jobs), str(bud), str(tot), '1', str(SEED)], left() - 8, env, work)
            results[(h, 'sym')] = (rc, log, *load(out))

    # ---- judge ---------------------------------------------------------------
    obligations = discharged = undecided = 0
    bounded_cases = 0; distinct = 0
    by = {}
    solver_time = 0.0; z3calls = 0; paths = 0
    functions = set(); und_list = []; refuted = []; vacuous = []; notes = set(); per = []; samples = []
    native_fail = []
    kf = known(); kf_hit = {}

    def is_known(ob, goal):
        for p, o, text in kf:
            if p == pid and re.fullmatch(o, ob + '/' + goal): kf_hit[(p, o)] = text; return True
        return False

    for h in cfg['harness']:
        r = results.get((h, 'sym'))
        if r and r[2]:
            for o in r[3]:
                for f in re.split(r'[;]', o['targets']): functions.add(f.strip())
                paths += o['paths']; solver_time += o.get('z3time', 0); z3calls += o.get('z3calls', 0)
                for n in o['notes']: notes.add(n)
                if o['errst'] == 2 and o['err']: refuted.append((h, o['ob'], 'no-crash', o['err'], None))
                elif o['errst'] == 1: undecided += 1; obligations += 1; und_list.append('%s: %s' % (o['ob'], o['err'][:160]))
                if o['reached'] == 0 and not o['err']: vacuous.append(o['ob'])
                per.append({'contract': o['ob'], 'functions': o['targets'], 'paths': o['paths'], 'clauses': sum(g['n'] for g in o['goals'].values()), 'discharged': sum(g['held'] for g in o['goals'].values()), 'wall_s': round(o['wall'], 2)})
                for g, v in o['goals'].items():
                    obligations += v['n']; discharged += v['held']
                    for k, n in v['by'].items(): by[k] = by.get(k, 0) + n
                    if v['st'] == 1: undecided += v['n'] - v['held']; und_list.append('%s/%s: %s' % (o['ob'], g, v['note'][:160]))
                    if v['st'] == 2: refuted.append((h, o['ob'], g, v['note'], v['cex']))
        else:
            why = builds.get((h, 'sym'), (None, 'native only'))[1] or (r[1][-300:] if r else '')
            und_list.append('%s: symbolic harness unavailable, bounded run only: %s' % (h, why.strip()[-600:]))
        r = results.get((h, 'nat'))
        if r and r[2]:
            for o in r[3]:
                bounded_cases += o['reached']
                if o['errst'] == 2: native_fail.append((h, o['ob'], 'no-crash', o['err'], None))
                for g, v in o['goals'].items():
                    if v['st'] == 2: native_fail.append((h, o['ob'], g, v['note'], v['cex']))
                    if v['n']: distinct += 1
                    if len(samples) < 6 and v['n'] and o['ob'] not in [s.get('contract') for s in samples]: samples.append({'contract': o['ob'], 'clause': g, 'runs': v['n'], 'held': v['held']})
        else:
            und_list.append('%s: native harness unavailable: %s' % (h, (builds[(h, 'nat')][1] or (r[1][-300:] if r else ''))[-600:]))

    native_fail = [f for f in native_fail if not is_known(f[1], f[2])]
    refuted = [f for f in refuted if not is_known(f[1], f[2])]
    verdict = None
    if native_fail:
        h, ob, g, note, cex = native_fail[0]
        verdict = ('native', h, ob, g, note, cex)
    elif refuted:
        # replay the verifier's counterexamples against the real code
        for h, ob, g, note, cex in refuted[:12]:
            exe = builds.get((h, 'nat'), (None, ''))[0]
            if not exe: continue
            for args in ([['replay', ob] + ['%s=%s' % kv for kv in (cex or {}).items()]] if cex is not None else []) + [None]:
                out = exe + '.replay.json'
                if args: cmd = [exe, out, '1', '60', '60', '1', str(SEED)] + args
                else: cmd = [exe, out, '1', '60', '60', '4000', str(SEED + 1), 'only=^' + re.escape(ob) + '$']
                if left() < 20: break
                sh(cmd, min(90, left() - 5), env, work)
                _, rs = load(out)
                for o in rs:
                    if o['errst'] == 2: verdict = ('native', h, ob, 'no-crash', o['err'], cex)
                    for g2, v in o['goals'].items():
                        if v['st'] == 2 and not is_known(ob, g2) and (verdict is None): verdict = ('native', h, ob, g2, v['note'], v['cex'] or cex)
                if verdict: break
            if verdict: break
        if not verdict:
            h, ob, g, note, cex = refuted[0]
            verdict = ('sym', h, ob, g, note, cex)

    trusted = ['engine/sym.hpp normal form + z3 %s (back ends)' % 'libz3 4.8.12', 'g++ 13 templates instantiate the same code for sym::Real as for double', 'Eigen 3.4 (instantiated with the symbolic scalar, i.e. executed, not modelled)', 'engine/overlay.py rewrites R1-R5'] + cfg.get('trusted', [])
    assumptions = ['machine arithmetic is treated as exact real arithmetic (floating-point literals are their exact binary values)', 'divisions by symbolic terms are assumed defined', ] + ([] if any(o.get('omp') for o in cfg.get('opts', {}).values()) else ['the symbolic build runs parallel regions with one thread (schedules: P26)']) + cfg.get('assumptions', []) + sorted(notes)
    cov = {
        'obligations': obligations, 'discharged': discharged, 'undecided': undecided,
        'refuted': len(refuted), 'checker_cmd': 'python3 check.py %s' % pid, 'trusted_base': trusted,
        'by_backend': by, 'paths': paths, 'z3_calls': z3calls, 'z3_time_s': round(solver_time, 2),
        'functions_under_contract': sorted(f for f in functions if f), 'contracts': per[:400],
        'undischarged': und_list[:60], 'vacuous': vacuous[:20],
        'evaluations': bounded_cases, 'samples': samples,
        'explanation': 'contracts on the real headers, proved by symbolic execution with an exact algebraic back end; "evaluations" counts the same contracts run natively on machine doubles (bounded, not counted as proved)',
        'distinct_nontrivial': distinct, 'rule': 'one evaluation = one native run of a contract (one enumerated choice vector with one draw of its inputs) whose preconditions held; distinct_nontrivial counts the contract/clause pairs among them that were actually evaluated',
        'build_s': round(t_build, 1), 'bounded_parts': cfg.get('bounded', []),
    }
    ev = {'property': pid, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED, 'level': cfg.get('level', 'proof'), 'coverage': cov, 'assumptions': assumptions, 'wall_s': round(time.time() - T0, 1), 'violations': 1 if verdict else 0}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d refuted; %d bounded native runs; %.0fs' % (pid, obligations, discharged, undecided, len(refuted), bounded_cases, time.time() - T0))
    for u in und_list[:8]: print('  undecided: ' + u.replace('\n', ' ')[:300])
    for v in vacuous[:5]: print('  vacuous: ' + v)
    for (p, o), text in kf_hit.items(): print('KNOWN-FINDING: property=%s %s' % (p, text))
    if verdict:
        mode, h, ob, g, note, cex = verdict
        d = os.path.join(ROOT, 'replay'); os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.json' % pid)
        rep = {'property': pid, 'harness': 'harness/%s.cpp' % h, 'contract': ob, 'clause': g, 'failed_obligation': ob + '/' + g, 'verifier_output': note, 'inputs': cex, 'confirmed_on_real_code': mode == 'native',
               'how_to_replay': ob.startswith('history/') and "g++ %s -O1 -fopenmp -DVC_NATIVE -I/repo %s -o /tmp/replay -lquadmath && /tmp/replay /tmp/replay.json 8 60 300 30 %d (runs all contracts, then sequences of them in one process)" % (' '.join(COMMON), os.path.join(ROOT, 'harness', h + '.cpp'), SEED) or "g++ %s -O1 -fopenmp -DVC_NATIVE -I/repo %s -o /tmp/replay -lquadmath && /tmp/replay /tmp/replay.json 1 60 60 1 1 replay '%s' %s" % (' '.join(COMMON), os.path.join(ROOT, 'harness', h + '.cpp'), ob, ' '.join("'%s=%s'" % kv for kv in (cex or {}).items())),
               'all_refuted': [list(map(str, r[1:4])) for r in (native_fail + refuted)[:40]]}
        with open(path, 'w') as f: json.dump(rep, f, indent=1)
        print('failed obligation %s/%s: %s' % (ob, g, note[:300]))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if mode == 'native' else ' no-failing-input-found'))
        return 1
    return 0

if __name__ == '__main__':
    try: rc = main()
    except SystemExit: raise
    except BaseException as e:
        import traceback; traceback.print_exc()
        print('check machinery error (no verdict): %r' % e)
        rc = 0
    sys.stdout.flush()
    sys.exit(rc)
