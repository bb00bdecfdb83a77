"""mkseed(id, ...): writes /verif/seeded/<id>/ from an edit of /repo's source and a demonstration."""
import os, sys, json, subprocess, shutil, textwrap
SEEDED = '/verif/seeded'
DEMO_SH = '''#!/bin/bash
# run with cwd /repo; everything is written in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
exec /opt/venv/bin/python "$here/demo.py" "$PWD"
'''
DEMO_LIB = r'''
import sys, os, subprocess, tempfile, atexit, shutil, sysconfig
REPO = os.path.realpath(sys.argv[1])
D = tempfile.mkdtemp(prefix='demo')
atexit.register(shutil.rmtree, D, True)
ENV = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
def put(name, text):
    with open(os.path.join(D, name), 'w') as f: f.write(text)
    return os.path.join(D, name)
put('Python.h', '#pragma once\n#include_next <Python.h>\n#undef Py_TYPE\n#define Py_TYPE(ob) (((PyObject *) (ob))->ob_type)\n')
def fail(msg):
    print('DEMO FAILS: ' + msg); sys.exit(1)
def run(argv, what, timeout=240, env=None):
    r = subprocess.run(argv, cwd=D, env=dict(ENV, **(env or {})), capture_output=True, text=True, timeout=timeout)
    if r.returncode: fail(what + ' rc=%d\n' % r.returncode + (r.stdout + r.stderr)[-3000:])
    return r.stdout
def generate(gen, name='m'):
    put('gen_%s.py' % name, 'import sys, os\nfrom pybindgen import *\nfrom pybindgen import cppclass\n' + gen)
    out = run([sys.executable, 'gen_%s.py' % name], 'generation')
    return out
def build(header, gen, name='m', libs=(), flags=()):
    put('spec.h', '#pragma once\n#include <Python.h>\n#include <string>\n#include <vector>\n' + header)
    put(name + '.cc', generate(gen, name))
    run(['g++', '-std=gnu++14', '-g', '-O0', '-w', '-fPIC', '-shared', '-I' + D, '-I' + sysconfig.get_paths()['include'], name + '.cc', '-o', name + '.so'] + list(flags), 'compilation')
def test(code):
    put('t.py', code)
    run([sys.executable, 't.py'], 'behaviour')
    print('demo ok')
'''
def mkseed(id, prop, needs, breaks, edits, demo):
    d = os.path.join(SEEDED, id)
    shutil.rmtree(d, True); os.makedirs(d)
    w = '/tmp/mkseed.%d' % os.getpid(); shutil.rmtree(w, True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', w])
    for f, old, new in edits:
        p = os.path.join(w, f); s = open(p).read()
        if s.count(old) != 1: shutil.rmtree(w); raise SystemExit('%s: %d matches of %r' % (id, s.count(old), old))
        open(p, 'w').write(s.replace(old, new))
    patch = subprocess.check_output(['git', 'diff'], cwd=w, text=True)
    # only lines of the original repository may change
    cur = None
    for l in patch.split('\n'):
        if l.startswith('--- a/'): f = l[6:]
        elif l.startswith('@@'): cur = int(l.split()[1][1:].split(',')[0])
        elif cur is not None and l.startswith('-'):
            b = subprocess.check_output(['git', 'blame', '-s', '-L', '%d,%d' % (cur, cur), 'HEAD', '--', f], cwd='/repo', text=True)
            if not b.startswith('^') and not b.startswith('94a023a'): raise SystemExit('%s: not an original line: %s' % (id, b))
            cur += 1
        elif cur is not None and not l.startswith('+'): cur += 1
    shutil.rmtree(w)
    open(d + '/patch.diff', 'w').write(patch)
    open(d + '/demo.sh', 'w').write(DEMO_SH); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(DEMO_LIB + demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    print('made', id)
