#!/usr/bin/env python3
"""seed.py <id> <prop> <needs> <what> file:::old:::new [file:::old:::new ...] : writes seeded/<id>/{patch.diff,meta.json}; demo sources come separately"""
import sys, os, json, subprocess
REPO = '/tmp/w/repo'      # scratch copy of /repo's tracked files (never /repo itself)
def sync():
    subprocess.check_call('mkdir -p %s && rsync -a --delete --exclude _build /repo/ %s/ && git -C %s checkout -q -- . ' % (REPO, REPO, REPO), shell=True) if os.path.exists('/usr/bin/rsync') else \
        subprocess.check_call('rm -rf /tmp/w/repo && mkdir -p /tmp/w/repo && cd /repo && git archive HEAD | tar x -C /tmp/w/repo && cd /tmp/w/repo && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', shell=True)
def mk(id, prop, needs, what, *edits):
    sync()
    d = '/verif/seeded/' + id; os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p = REPO + '/source/core/' + f; s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    open(d + '/patch.diff', 'wb').write(subprocess.check_output(['git', '-C', REPO, 'diff']))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
def demo(id, files, body, src=(), omp=False, pre='', env='', stubs=False):
    """demo.sh that compiles body.cpp (and files of /repo) and runs it"""
    d = '/verif/seeded/' + id
    open(d + '/demo.cpp', 'w').write(body)
    if stubs:       # stand-ins for headers of BLAS-like libraries that are not installed; undefined library calls are left unresolved
        subprocess.check_call(['cp', '-r', '/verif/stubs', d + '/']); pre += ' -I"$here/stubs" -mavx2 -mfma -Wl,--unresolved-symbols=ignore-all -Wl,-z,lazy'
    inc = 'include core/utilities core/dynamic_dispatch core/csv core/data_management core/decision_forest core/decision_forest/tree core/basic_statistics core/metrics core/nearest_neighbors core/interpolation core/approximate_neighbors core/linear_model core/svm core/factorization core/optimization core/clustering core/kernel_functions'
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# compiles a small program against /repo's sources and runs it
set -e
here="$(cd "$(dirname "$0")" && pwd)"
R="$(pwd)"
W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
I=""; for d in %s; do I="$I -I$R/source/$d"; done
g++ -std=c++17 -O1 -g -w %s -DARCH_generic -DZNVER_MAX=generic -Dgeneric_AVAILABLE '-DAOCLDA_VERSION_STRING="x"' '-DAOCLDA_GIT_COMMIT="u"' '-DINT_LIB="LP64"' $I -I"$here" %s -I/usr/include/x86_64-linux-gnu/openblas-pthread "$here/demo.cpp" %s -o "$W/demo" %s
%s timeout 120 "$W/demo"
''' % (inc, '-fopenmp' if omp else '', pre, ' '.join('"$R/source/core/%s"' % s for s in src), '-lopenblas' if 'lapack' in pre else '', env))
    if stubs:
        t = open(d + '/demo.sh').read()
        t = t.replace('-o "$W/demo"', '-shared -fPIC -o "$W/demo.so"').replace(' timeout 120 "$W/demo"', 'timeout 120 python3 -c "import ctypes, os, sys; os._exit(ctypes.CDLL(sys.argv[1], mode=os.RTLD_LAZY).main() & 255)" "$W/demo.so"')
        open(d + '/demo.sh', 'w').write(t)
    os.chmod(d + '/demo.sh', 0o755)
def clean(): subprocess.check_call(['git', '-C', REPO, 'checkout', '-q', '--', '.'])
def check(id):
    """demo passes on the unchanged tree and fails with the patch"""
    d = '/verif/seeded/' + id; clean()
    a = subprocess.run([d + '/demo.sh'], cwd=REPO, capture_output=True, text=True)
    subprocess.check_call(['git', '-C', REPO, 'apply', d + '/patch.diff'])
    b = subprocess.run([d + '/demo.sh'], cwd=REPO, capture_output=True, text=True); clean()
    print(id, 'clean rc', a.returncode, 'patched rc', b.returncode, '' if a.returncode == 0 and b.returncode else 'BAD ' + (a.stdout + a.stderr)[-800:] + '|' + (b.stdout + b.stderr)[-800:], flush=True)
def caught(id, full=False):
    """runs the check of the property against the patched tree"""
    d = '/verif/seeded/' + id; p = json.load(open(d + '/meta.json'))['property']; clean()
    subprocess.check_call(['git', '-C', REPO, 'apply', d + '/patch.diff'])
    b = subprocess.run(['python3-vt', '/verif/check.py', p], cwd='/verif', capture_output=True, text=True, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', VERIF_REPO=REPO)); clean()
    print(id, 'rc', b.returncode, [l[:300] for l in b.stdout.split('\n') if l.startswith(('VIOLATION', 'input', 'observed')) or ': ' in l and 'proofs' in l], flush=True)
def tests(id):
    """the repository's stable tests pass with the patch (works in /repo, restores it)"""
    d = '/verif/seeded/' + id
    subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
    try: subprocess.run('bash /opt/vp/build.sh > /tmp/w/sb.log 2>&1; bash /opt/vp/test.sh /tmp/w/st.json > /tmp/w/stt.log 2>&1', shell=True)
    finally: subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    base = json.load(open('/opt/vp/BASELINE.json')); st = base.get('stable') or base.get('passed') or base; got = json.load(open('/tmp/w/st.json'))['passed']
    print(id, 'stable tests that no longer pass:', sorted(set(st) - set(got))[:5], flush=True)
if __name__ == '__main__':
    sync()
    for i in sys.argv[2:]: dict(check=check, caught=caught, tests=tests)[sys.argv[1]](i)
