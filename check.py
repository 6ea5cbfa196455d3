#!/usr/bin/env python3
"""Driver of one model-checking check:  check.py <PROPERTY> [--tier quick|thorough]

Compiles the property's harness against the CURRENT working tree of /repo, lets the explorer
(harness/mc.hpp) enumerate every scenario, compares what it found with known_findings.json,
writes evidence/<PROPERTY>.json and, per violation, a replay file.
Exit 0: held on everything explored.  Exit 1: VIOLATION.  Exit 2: the check itself failed."""
import json, os, re, subprocess, sys, time, hashlib, shutil, tempfile
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
from checks import CHECKS
REPO = os.environ.get('EDSP_REPO', '/repo')

BASE = ['-std=c++14', '-include', 'cstdint', '-w', '-DNDEBUG', '-DUSE_LIBFFTW', '-DUSE_LIBSNDFILE',
        '-DUSE_LIBSAMPLERATE', '-DUSE_TAGLIB', '-I' + os.path.join(REPO, 'include'),
        '-I' + os.path.join(REPO, 'bindings/c/include'), '-I/usr/include/taglib', '-I' + os.path.join(VERIF, 'harness')]
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=float-divide-by-zero,vptr,null']

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)

def compile_one(pid, cfg, unit, out, log):
    base = [cfg.get('cxx', 'g++')] + BASE + cfg.get('flags', ['-O1'])
    if unit.get('san', cfg.get('san', True)):
        base += SAN + ['-fno-omit-frame-pointer']
    base += unit.get('flags', [])
    srcs = [os.path.join(VERIF, 'harness', unit['src'])] + [os.path.join(REPO, s) for s in unit.get('repo_src', [])]
    if len(srcs) == 1:
        r = run(base + srcs + ['-o', out] + unit.get('libs', cfg.get('libs', [])) + ['-lpthread'])
        log.append(r.stdout[-6000:])
        return r.returncode == 0, r.stdout
    from concurrent.futures import ThreadPoolExecutor
    objs = ['%s.%d.o' % (out, k) for k in range(len(srcs))]
    with ThreadPoolExecutor(8) as ex:
        # helpers of the same name in several sources are told apart, so that each source is judged by its own
        own = lambda k: ['-D%s=%s_%d' % (n, n, k) for n in unit.get('own_names', [])] if k else []
        rs = list(ex.map(lambda k: run(base + own(k) + ['-x', 'c++', '-c', srcs[k], '-o', objs[k]]), range(len(srcs))))
    bad = ''.join(r.stdout for r in rs if r.returncode)
    if bad: return False, bad
    r = run(base + objs + ['-o', out] + unit.get('libs', cfg.get('libs', [])) + ['-lpthread'])
    log.append(r.stdout[-6000:])
    return r.returncode == 0, r.stdout

def u_of(units, i): return units[i]

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    cfg = CHECKS[pid]
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rdir = os.path.join(VERIF, 'evidence', 'replay', pid)
    shutil.rmtree(rdir, ignore_errors=True)
    work = tempfile.mkdtemp(prefix='mc_%s_' % pid)
    log = []
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=1:exitcode=98'
    env['MC_SCRATCH'] = os.path.join(work, 'scratch')
    os.makedirs(env['MC_SCRATCH'])
    env['EDSP_REPO'] = REPO
    try:
        known = json.load(open(os.path.join(VERIF, 'known_findings.json')))
        findings = {f['key']: f for f in known['findings'] if f['property'] == pid}
        units = cfg['units']
        procs = []
        # compile all units in parallel
        from concurrent.futures import ThreadPoolExecutor
        def job(i): return compile_one(pid, cfg, units[i], os.path.join(work, 'h%d' % i), log)
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(job, range(len(units))))
        compiled = time.time() - t0
        violations, hit, scen = [], {}, []
        internal = None
        for i, (ok, out) in enumerate(res):
            if not ok:
                # The harness uses only the public interface and compiles against the tree it was written for.
                # A diagnostic inside a /repo or harness source means the interface of the property is broken;
                # anything else (no compiler, no disk space) is a failure of the check itself.
                m = re.search(r'^(\S+?\.(?:hpp|h|c|cpp)):(\d+)(?::\d+)?: (?:fatal )?error: .*|undefined reference to .*|multiple definition of .*', out, re.M)
                if not m or 'No space left' in out:
                    print('check %s: harness %s does not compile against /repo\n%s' % (pid, units[i]['src'], out[-4000:]))
                    return 2
                violations.append((i, u_of(units, i), {'scenario': 'interface', 'key': 'compile', 'path': '-', 'msg': 'the public interface does not compile: ' + m.group(0)[:500]}, 'interface/compile'))
        budget = cfg.get('budget', {}).get(tier, int(os.environ.get('MC_BUDGET', 260)) if tier == 'quick' else 800)
        run0 = time.time()
        for i, u in enumerate(units):
            if not res[i][0]: continue
            share = max(budget / len(units), (budget - (time.time() - run0)) / 2 if i + 1 < len(units) else budget - (time.time() - run0))
            js = os.path.join(work, 'r%d.json' % i)
            cmd = [os.path.join(work, 'h%d' % i), '--tier', tier, '--out', js, '--jobs', os.environ.get('MC_JOBS') or str(os.cpu_count() or 8), '--budget', str(share)]
            if only: cmd += ['--only', only]
            r = run(cmd, env=env, cwd=work)
            if not os.path.exists(js):
                print('check %s: explorer died: %s' % (pid, r.stdout[-2000:])); return 2
            d = json.load(open(js))
            if d['internal_error']: internal = '%s: %s' % (u['src'], r.stdout[-1000:] + str(d['found'])[:3000])
            for s in d['scenarios']:
                s['unit'] = u['src']; s['unit_no'] = i; scen.append(s)
            for f in d['found']:
                key = f['scenario'] + '/' + f['key']
                if key in findings: hit[key] = f
                else: violations.append((i, u, f, key))
        if any(s['executions'] == 0 for s in scen) or (not scen and not violations):
            internal = internal or 'a scenario explored nothing'
        if internal and not violations:
            print('check %s: internal error %s' % (pid, internal)); return 2
        for k, f in sorted(hit.items()):
            print('KNOWN-FINDING: property=%s %s' % (pid, findings[k]['what']))
        replay_until = time.time() + 150
        for n, (i, u, f, key) in enumerate(violations):
            if n == 12:
                print('  ... and %d more' % (len(violations) - n)); break
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, 'violation-%d.json' % n)
            trace = ''
            try:
                if f['scenario'] == 'interface' or time.time() > replay_until: raise subprocess.TimeoutExpired('', 0)
                r = run([os.path.join(work, 'h%d' % i), '--tier', tier, '--replay', '%s:%s' % (f['scenario'], f['path'])], env=env, cwd=work, timeout=20 if 'hang' in key else 60)
                trace = r.stdout[-20000:]
            except subprocess.TimeoutExpired: trace = 'not replayed here'
            json.dump({'property': pid, 'key': key, 'harness': u['src'], 'unit': i, 'scenario': f['scenario'], 'choices': f['path'],
                       'message': f['msg'], 'trace': trace.split('\n'),
                       'how': 'python3 /verif/replay.py ' + path}, open(path, 'w'), indent=1)
            print('  %s: %s' % (key, f['msg'][:600]))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        tot = lambda k: sum(s[k] for s in scen)
        # sample traces: replay the all-zero path of a few scenarios
        samples = []
        for s in scen[:3]:
            i = s['unit_no']
            try:
                r = run([os.path.join(work, 'h%d' % i), '--tier', tier, '--replay', s['name'] + ':-'], env=env, cwd=work, timeout=60)
                samples.append({'scenario': s['name'], 'first_execution': r.stdout.split('\n')[:14]})
            except subprocess.TimeoutExpired: pass
        cov = {'states': tot('states'), 'transitions': tot('transitions'), 'traces_validated_against_impl': tot('executions'),
               'evaluations': tot('evals'), 'distinct_nontrivial': tot('executions') - tot('pruned'),
               'rule': 'every combination of the choices of each scenario is executed once on the real code (executions); a trace counts as distinct when it is not cut by state matching; evaluations = individual oracle comparisons',
               'samples': samples, 'exhaustive': all(s['complete'] for s in scen), 'scenarios': scen,
               'binding': 'no separate model of the code: every enumerated trace runs the implementation compiled from the current /repo tree next to the reference model'}
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': cfg.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(violations)}
        json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
        for s in scen:
            print('  %-28s executions %9d  states %9d  transitions %10d  oracle comparisons %11d%s' % (s['name'], s['executions'], s['states'], s['transitions'], s['evals'], '' if s['complete'] else '  (NOT complete)'))
        print('check %s [%s]: %d violation(s), %d known finding(s), compile %.1fs, total %.1fs' % (pid, tier, len(violations), len(hit), compiled, time.time() - t0))
        return 1 if violations else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

sys.exit(main())
