"""Builds of /repo's current working tree, under /verif/.build (git-ignored)."""
import os, subprocess, sys, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD') or os.path.join(VERIF, '.build')
NATIVE = '-DUSZ_64 -DNATIVE_COMPILER -DONLY_NATIVE_COMP -DFORMATTER=0 -DNO_RT -DNO_EXPLAIN'
# name -> (shared library?, extra flags)
VARIANTS = {
  'compdbg': (False,'-O1 -g -DTEST_UTILS=1 -DDEBUG'),
  'comphv': (False,'-O1 -g -DTEST_UTILS=1 -DDEBUG -DHEAP_VERIFY'),
  'so':    (True,  '-O2 -DTEST_UTILS=1'),
  'heur':  (True,  '-O1 -DTEST_UTILS=1 -DRANDOMIZE_HEURISTICS=1'),
  'exe':   (False, '-O2 -DTEST_UTILS=1'),
  'comp':  (False, '-O2 -DTEST_UTILS=1'),   # compiles through shim/gen/compiles
  'gcso':  (True,  '-O1 -DTEST_UTILS=1 -DGC_EVERY_NTH_ALLOC=53'),
  'jitso': (True,  '-O1 -DTEST_UTILS=1 -DJIT_START=0'),
  'nojit': (True,  '-O1 -DTEST_UTILS=1 -DJIT_START=-1'),
  'dbg':   (True,  '-O1 -DTEST_UTILS=1 -DDEBUG'),
}
def build(name):
    """make the variant; returns the path of the library or executable"""
    shared, flags = VARIANTS[name]
    d = os.path.join(BUILD, name)
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, 'cbqn.so' if shared else 'BQN')
    env = dict(os.environ, PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin', LC_ALL='C.UTF-8')
    for k in ('MAKEFLAGS', 'MAKELEVEL'): env.pop(k, None)
    cmd = ['make', '-f', 'build/makefile', 'run_incremental_0', 'i_t=v'+name, 'i_CC=gcc', 'REPLXX=0', 'i_USE_BC_SUBMODULE=0',
           'BYTECODE_DIR='+('bytecodeNone' if not name.startswith('comp') else os.path.relpath(os.path.join(VERIF, 'shim'), os.path.join(REPO, 'build'))), 'force_build_dir='+os.path.join(d, 'obj'), 'i_OUTPUT_DEF='+out, 'j=8',
           'i_f=%s %s' % (flags, NATIVE if not name.startswith('comp') else NATIVE.replace('-DONLY_NATIVE_COMP ', ''))]
    if shared: cmd.append('i_SHARED=1')
    with open(os.path.join(d, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode or not os.path.exists(out):
        print(p.stdout[-4000:]); print('BUILD FAILED', name)
        sys.exit(2)
    return out
def build_all(names):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex: return dict(zip(names, ex.map(build, names)))
if __name__ == '__main__':
    print(build_all(sys.argv[1:]))
