"""Writes properties.jsonl and MANIFEST.json from one table (run it after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TH = 'pybindgen/typehandlers/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique=None, note=None, na=None, level='exploration'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe,
                  technique=technique, note=note, na=na, level=level))


SAN = 'ASan+UBSan build of the generated module; the sanitizers trap memory and UB errors during every observed call. '
TRUST = 'Sampling, not proof: values, signatures and histories are random (seeded) on top of exhaustive tables of forms; trusts CPython, gcc and the sanitizer runtimes.'

prop('C01', 'Values cross the boundary unchanged',
     'For every natively supported scalar, string, enum, char and small-array type form (by value, pointer or reference; in, out or inout), the value that C++ receives is exactly the value Python passed, and the value Python receives is exactly the value C++ produced. '
     'This holds for calls from Python into C++ and for virtual methods called from C++ into Python overrides, over the full value range of each type (extremes, NaN payload class, signed zero, embedded NUL and non-ASCII text included), and the Python result has the natural type (bool, int, float, str, bytes of length one for char).',
     ['inputs', 'programs'], 'every supported type form and direction, every value of the type',
     'The tests pass one or two small values through a handful of forms; most forms of the type tables, and nearly all boundary values, are never executed.',
     [TH + 'inttype.py', TH + 'floattype.py', TH + 'doubletype.py', TH + 'booltype.py', TH + 'stringtype.py', 'pybindgen/enum.py', TH + 'pyobjecttype.py'],
     [('per-type handlers choosing format units and temporaries', TH + 'inttype.py'), ('Py_BuildValue/PyArg_Parse parameter assembly', TH + 'base.py')],
     ['arguments logged inside the C++ function bodies', 'Python results', 'arguments seen by Python overrides'],
     'two-sided value monitor (C++ event log vs model) on sanitized generated modules', SAN + TRUST)

prop('C02', 'Bad arguments are rejected before C++ runs',
     'A call with an argument of unsuitable type, a value that a signed C type (or an 8/16-bit unsigned value parameter or return) cannot hold, text with NUL for a C string, undecodable text, or a wrong number or naming of arguments raises TypeError, ValueError or OverflowError (or the error the argument object itself raised) and the C++ code is not executed. '
     'Other unsigned forms reject the value or reduce it modulo 2 to the number of bits, and never yield another value. '
     'What a Python override returns is checked by the same rules: a bad result is reported once through sys.excepthook, C++ continues (with the result of the base class implementation where the method returns a value), and no error leaks into the surrounding call.',
     ['inputs', 'programs'], 'every supported type form, every unsuitable object, arity and keyword combination',
     'Tests exercise a couple of TypeErrors; out-of-range values, error-raising objects, keyword misuse and bad results of overrides are not covered.',
     [TH + 'inttype.py', TH + 'booltype.py', TH + 'base.py', 'pybindgen/cppmethod.py'],
     [('format units plus explicit range checks', TH + 'inttype.py'), ('error checks of code blocks with cleanup', TH + 'base.py'), ('fallback on failing overrides', 'pybindgen/cppmethod.py')],
     ['exception type', 'C++ event log (must be empty)', 'sys.excepthook calls'],
     'rejection monitor: exception class plus empty C++ event log, on sanitized generated modules', SAN + TRUST)

prop('C03', 'Results, argument order, keywords and defaults follow the declaration',
     'For every signature, parameters reach C++ in declaration order whether given by position or by declared name, omitted optional parameters take exactly their declared default, and out-only parameters are not part of the Python argument list. '
     'The Python result is None for no values, the bare value for one, otherwise a tuple with the return value first and then the out/inout parameters in declaration order; functions, methods, static methods and constructors behave alike. '
     'Python overrides of virtual methods receive in/inout arguments in order and give results in the same shape.',
     ['programs', 'inputs'], 'every combination of parameter types, directions, defaults, return types and call styles',
     'Tests cover a few fixed signatures; combinations of several outs, a return value, defaults and keywords are unbounded.',
     [TH + 'base.py', 'pybindgen/function.py', 'pybindgen/cppmethod.py'] + [TH + f for f in ('stringtype.py', 'inttype.py')],
     [('ParseTupleParameters / BuildValueParameters ordering', TH + 'base.py'), ('keyword arrays', TH + 'base.py')],
     ['C++ event log per parameter name', 'Python result tuple', 'override arguments'],
     'differential monitor against a signature model, random signatures, sanitized modules', SAN + TRUST)
exec(open(os.path.join(V, 'tools', 'meta_more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'meta_more.py')) else None

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
checks, na = [], []
for p in P:
    script = 'checks/%s.py' % p['id'].lower()
    if os.path.exists(os.path.join(V, script)) and not p['na']:
        checks.append({'property': p['id'], 'quick_cmd': 'VERIF_TIER=quick python3 ' + script, 'thorough_cmd': 'VERIF_TIER=thorough python3 ' + script,
                       'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
    else:
        na.append({'property': p['id'], 'reason': p['na'] or 'check not built yet'})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks in /repo: the monitors sit in the C++ code that the modules under test wrap (lib/include/vflog.h), in the Python drivers and in the sanitizer runtimes.'}, f, indent=1)
print(len(P), 'properties', len(checks), 'checks')
