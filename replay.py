#!/usr/bin/env python3
"""replay.py <violation-N.json>: recompile the harness and re-run exactly the recorded choices."""
import json, os, subprocess, sys, tempfile, shutil
sys.argv, path = [sys.argv[0]], sys.argv[1]
VERIF = os.path.dirname(os.path.abspath(__file__))
v = json.load(open(path))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
src = open(os.path.join(VERIF, 'check.py')).read().replace('sys.exit(main())', '')
g = {'__file__': os.path.join(VERIF, 'check.py'), '__name__': 'check'}
exec(compile(src, 'check.py', 'exec'), g)
work = tempfile.mkdtemp(prefix='mc_replay_')
try:
    cfg = g['CHECKS'][v['property']]
    unit = cfg['units'][v['unit']]
    log = []
    ok, out = g['compile_one'](v['property'], cfg, unit, os.path.join(work, 'h'), log)
    if not ok: print(out); sys.exit(2)
    os.makedirs(os.path.join(work, 'scratch'))
    env = dict(os.environ, MC_SCRATCH=os.path.join(work, 'scratch'), EDSP_REPO=g['REPO'], ASAN_OPTIONS='detect_leaks=0')
    sys.exit(subprocess.run([os.path.join(work, 'h'), '--replay', v['scenario'] + ':' + v['choices']], env=env, cwd=work).returncode)
finally:
    shutil.rmtree(work, ignore_errors=True)
