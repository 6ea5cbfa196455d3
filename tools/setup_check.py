import shutil, sys
missing = [t for t in ('g++', 'python3') if not shutil.which(t)]
print('missing: %s' % missing if missing else 'toolchain present; every check compiles its own harness')
sys.exit(1 if missing else 0)
