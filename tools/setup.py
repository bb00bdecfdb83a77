"""Nothing is built ahead: every check generates and compiles its modules from /repo's working tree.
This only verifies that the tools the checks need are there."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
from vf import core
for lib in ('asan', 'tsan'):
    for path in core.preload(lib).split():
        assert os.path.exists(path), path
subprocess.check_call([core.PY, '-c', 'import sys; sys.path.insert(0, "/repo"); import pybindgen'])
print('ok', core.PY)
