"""Modules written by hand for one check: a C++ header, the generator code, and a driver."""
import os
from . import core

PRELUDE = r'''
import sys, os, warnings
outdir = sys.argv[1]
import pybindgen
from pybindgen import Module, param, retval, FileCodeSink, Parameter, ReturnValue, cppclass, settings, utils
from pybindgen.cppclass import ReferenceCountingMethodsPolicy, ReferenceCountingFunctionsPolicy, FreeFunctionPolicy
from pybindgen.typehandlers.smart_ptr import BoostSharedPtr, StdSharedPtr
from pybindgen.typehandlers.codesink import MemoryCodeSink
from pybindgen.wrapper_registry import NullWrapperRegistry, StdMapWrapperRegistry
IN, OUT, INOUT = Parameter.DIRECTION_IN, Parameter.DIRECTION_OUT, Parameter.DIRECTION_INOUT
NAME = %r
def new_module(name=None, include='"spec.h"', **kw):
    m = Module(name or NAME, **kw)
    if include:
        m.add_include(include)
    return m
def emit(m, name=None, impl=True):
    with open(os.path.join(outdir, (name or NAME) + '.cc'), 'w') as f:
        if impl:
            f.write('#include "vflog_impl.h"\n')
        m.generate(FileCodeSink(f))
'''


def gen_script(outdir, name, gen, fname='gen.py'):
    return core.write(os.path.join(outdir, fname), PRELUDE % name + gen)


def build(outdir, name, header, gen, flavour='asan', impl=None, env=None, extra=()):
    """gen: generator code (it calls emit(mod)); impl: C++ definitions in a file of their own"""
    os.makedirs(outdir, exist_ok=True)
    core.write(os.path.join(outdir, 'spec.h'), '#ifndef SPEC_H\n#define SPEC_H\n#include <Python.h>\n#include "vflog.h"\n#include <stdexcept>\n' + header + '\n#endif\n')
    out, err = core.generate(gen_script(outdir, name, gen), outdir, env=env)
    srcs = [os.path.join(outdir, name + '.cc')]
    if impl:
        srcs.append(core.write(os.path.join(outdir, 'impl.cc'), '#include "spec.h"\n' + impl))
    core.compile_module(srcs, os.path.join(outdir, name + '.so'), flavour, extra)
    return out, err


def run_driver(ck, label, outdir, driver, flavour='asan', args=(), timeout=600, env=None):
    """drive and absorb; True when it ran to its end"""
    r = core.drive(core.write(os.path.join(outdir, 'driver_%s.py' % label), driver), outdir, flavour, [outdir] + [str(a) for a in args], timeout=timeout, env=env)
    ok = ck.absorb(r, label)
    return ok, r


def simple(ck, label, header, gen, driver, flavour='asan', impl=None, args=(), timeout=600, name=None, env=None, drvenv=None):
    """build one module, run its driver; a build failure is a violation"""
    d = os.path.join(core.scratch(), label)
    try:
        build(d, name or label, header, gen, flavour, impl, env=env)
    except Exception as e:
        ck.build_failed(e, label)
        return False
    return run_driver(ck, label, d, driver, flavour, args, timeout, drvenv)[0]


def build_multi(outdir, header, gens, impl, flavour='asan'):
    """several modules that share one C++ library (libcommon.so: impl and the observation log); gens: [(name, generator code)],
    which use emit(mod, impl=False)"""
    os.makedirs(outdir, exist_ok=True)
    core.write(os.path.join(outdir, 'spec.h'), '#ifndef SPEC_H\n#define SPEC_H\n#include <Python.h>\n#include "vflog.h"\n#include <stdexcept>\n' + header + '\n#endif\n')
    core.compile_module([core.write(os.path.join(outdir, 'impl.cc'), '#include "vflog_impl.h"\n#include "spec.h"\n' + impl)], os.path.join(outdir, 'libcommon.so'), flavour)
    for name, gen in gens:
        core.generate(gen_script(outdir, name, gen, 'gen_%s.py' % name), outdir)
        core.compile_module([os.path.join(outdir, name + '.cc')], os.path.join(outdir, name + '.so'), flavour, link=['-L' + outdir, '-lcommon', '-Wl,-rpath,' + outdir])
