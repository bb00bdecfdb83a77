"""Runs a generator script with the module split into sections: python -m vf.multi SCRIPT OUTDIR.
What the script adds to its modules lands in random sections (begin_section / end_section), and what
it writes as one file goes to a main file, a common header and one file per section.  The list of the
additional sources is left beside the main file."""
import functools, json, os, random, runpy, sys

script, outdir = sys.argv[1], sys.argv[2]
rng = random.Random('multi/%s/%s' % (os.environ['VF_MULTI'], os.path.basename(script)))
import pybindgen
from pybindgen import module as _m
from pybindgen.typehandlers.codesink import FileCodeSink

SECTIONS = ['s_%s' % c for c in 'abcd']
stat = {}


class Factory(_m.MultiSectionFactory):
    def __init__(self, main):
        super(Factory, self).__init__()
        self.main, self.base = main, os.path.splitext(main.file.name)[0]
        self.files, self.sections = [], {}
        self.header_name = self.base + '_decls.h'
        self.header = self.open(self.header_name)

    def open(self, name):
        f = open(name, 'w')
        self.files.append(f)
        return FileCodeSink(f)

    def get_section_code_sink(self, name):
        if name == '__main__':
            return self.main
        if name not in self.sections:
            self.sections[name] = self.open('%s_%s.cc' % (self.base, name))
        return self.sections[name]

    def get_main_code_sink(self): return self.main
    def get_common_header_code_sink(self): return self.header
    def get_common_header_include(self): return '"%s"' % os.path.basename(self.header_name)

    def close(self):
        for f in self.files: f.close()
        with open(self.base + '.sections', 'w') as f:
            json.dump({'sources': ['%s_%s.cc' % (self.base, n) for n in sorted(self.sections)], 'stat': stat}, f)


busy = []
def sectioned(cls, name):
    real = getattr(cls, name)
    @functools.wraps(real)
    def add(self, *args, **kw):
        if busy or rng.random() < .2:
            return real(self, *args, **kw)
        root, section = self.get_root(), rng.choice(SECTIONS)
        busy.append(1)
        root.begin_section(section)
        try:
            return real(self, *args, **kw)
        finally:
            root.end_section(section)
            busy.pop()
            stat[name] = stat.get(name, 0) + 1
    setattr(cls, name, add)
for n in ('add_class', 'add_struct', 'add_function', 'add_custom_function_wrapper', 'add_container', 'add_exception', 'add_enum'):
    if hasattr(_m.ModuleBase, n): sectioned(_m.ModuleBase, n)

real_generate = _m.Module.generate
def generate(self, out, *args, **kw):
    if isinstance(out, FileCodeSink) and out.file.name.startswith(os.path.realpath(outdir)) or isinstance(out, FileCodeSink) and out.file.name.startswith(outdir):
        f = Factory(out)
        r = real_generate(self, f, *args, **kw)
        f.close()
        return r
    return real_generate(self, out, *args, **kw)
_m.Module.generate = generate

sys.argv = [script, outdir]
runpy.run_path(script, run_name='__main__')
