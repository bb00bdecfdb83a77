prop('C04', 'Overload resolution runs exactly the first accepting overload',
     'For every set of overloads registered under one Python name (functions, methods, static methods, constructors, sets inherited from a base class or formed with custom_name), a call runs exactly the first overload, in registration order, whose parameters accept the arguments, once and with those arguments, and the matching C++ overload is the one executed. '
     'An exception raised by the chosen C++ function reaches the caller without other overloads being tried. '
     'If no overload accepts the arguments, none runs and TypeError is raised with one list as argument, holding one message string per overload.',
     ['programs', 'inputs'], 'every overload set and every argument list',
     'Tests have a handful of overload pairs; ordering, widths, subclasses, defaults and failures inside the chosen overload are not sampled.',
     ['pybindgen/overloading.py', 'pybindgen/cppmethod.py', 'pybindgen/function.py', TH + 'inttype.py'],
     [('OverloadedWrapper tries the wrappers in turn, collecting exceptions', 'pybindgen/overloading.py')],
     ['C++ event log: which overload ran, with what', 'exception type and arguments'],
     'dispatch monitor: C++ event log vs a model of the declared overloads, random sets, sanitized modules', SAN + TRUST)

prop('C05', 'Instances are created, shared and destroyed as ownership says',
     'For every memory policy (plain, reference-counting methods or functions, free function, boost and std shared_ptr), any sequence of operations that move instances between Python and C++ (construction, copying, passing by value, reference or pointer, transfer of ownership, returns that are owned, copied or referencing, out parameters, calls of Python overrides) keeps every instance alive exactly as long as an owner exists and destroys it exactly once after that. '
     'A copy is made where the declaration says so, otherwise C++ and Python see the same instance; with a wrapper registry there is at most one live wrapper per instance; a Python subclass instance stays the same Python object while C++ owns it. '
     'Failing constructors, rejected arguments and C++ exceptions change no ownership. (Using a wrapper after giving its instance away, or after a merely referenced instance has died, is outside the contract.)',
     ['histories', 'programs'], 'every history of ownership-moving operations under every memory policy',
     'Tests check single steps; double frees, leaks and lost identities need sequences of transfers, collections and error paths.',
     ['pybindgen/cppclass.py', TH + 'smart_ptr.py', 'pybindgen/wrapper_registry.py', 'pybindgen/cppmethod.py'],
     [('common_shared_object_return and the class parameter handlers', 'pybindgen/cppclass.py'), ('memory policies and the delete code of wrappers', 'pybindgen/cppclass.py'), ('wrapper registry', 'pybindgen/wrapper_registry.py')],
     ['set of live C++ instances after every step', 'reference counts', 'instance serial numbers seen on both sides', 'ASan reports'],
     'model-based monitor: random histories, live C++ instances compared with an ownership model after every step, under ASan', SAN + TRUST)

prop('C06', 'Calls leave nothing behind, on success and on every failure path',
     'Repeating any call, construction, attribute access, operator, iteration or virtual call any number of times leaves the number of Python references to the objects involved, of Python memory blocks and of C heap bytes where they were, apart from what the returned values themselves hold. '
     'This holds when the call succeeds, when it is rejected at any parameter, when the C++ function throws a declared exception, when a Python override raises or returns something unusable, and when a warning is turned into an error; '
     'references passed with transfer of ownership are taken exactly once when C++ runs and not at all when it does not. '
     'No reference is released too often.',
     ['programs', 'faults'], 'every kind of wrapper and every exit path of it',
     'Tests never look at reference counts or heap size, and take few error exits.',
     [TH + 'base.py', 'pybindgen/cppclass.py', 'pybindgen/overloading.py', 'pybindgen/container.py', TH + 'pyobjecttype.py', 'pybindgen/cppmethod.py'],
     [('cleanup code of code blocks, written in reverse order on every exit', TH + 'base.py'), ('build value N versus O', TH + 'base.py'), ('exceptions collected by overload wrappers', 'pybindgen/overloading.py')],
     ['sys.getrefcount of arguments and types', 'sys.getallocatedblocks', 'mallinfo2 heap bytes'],
     'neutrality monitor: reference counts, Python blocks and heap bytes over repeated calls on every exit path, with confirmation runs', 'Growth is decided by repetition (at least 0.5 block, 12 bytes or half a reference per call, in every round and in a longer confirmation run). Uninstrumented builds. ' + TRUST)

prop('C12', 'STL containers cross the boundary whole, in order, and as copies',
     'For every supported container kind (vector, list, deque, set, multiset, map, unordered_map) and element type, nested containers included, the container C++ receives (by value, reference or pointer) from a Python list, a subclass of list, or a container object holds exactly the converted elements in order (sorted and unique where the C++ type says so; the first value of a repeated map key), '
     'and a container returned, given out, read from an attribute or passed to a Python override is an independent object of the declared Python type that iterates over exactly the C++ elements; maps yield (key, value) pairs. '
     'Iterators are independent of each other, keep their container alive and stay exhausted. A list with any unsuitable element, or any other object, is rejected before C++ runs and leaves attributes and inout values as they were, even if converting an element runs Python code that changes the list.',
     ['inputs', 'programs'], 'every container type over every element type, every list',
     'Tests have two or three container types and short good lists; bad elements, nesting, iterator lifetime and re-entrancy are untested.',
     ['pybindgen/container.py', 'pybindgen/converter_functions.py', 'pybindgen/cppclass_container.py'],
     [('list to container converter functions', 'pybindgen/container.py'), ('tp_iternext wrapper', 'pybindgen/container.py'), ('container parameter and return handlers', 'pybindgen/container.py')],
     ['container contents logged in C++', 'elements yielded by iteration', 'exception types', 'ASan reports'],
     'differential monitor: container contents on both sides vs Python models, random types and contents, under ASan', 'stack, queue and priority_queue have no iterators and cannot be wrapped. ' + SAN + TRUST)

prop('C13', 'Attributes read and write exactly their C++ variable; enum constants are exact',
     'Reading an instance, static or custom attribute (directly, through a getter or a getter function, by any name, on the class, a nested class, a derived class or a Python subclass) yields the current value of exactly that C++ variable, whoever wrote it; '
     'assigning stores the converted value in exactly that variable and no other, calling the declared getter or setter exactly once. '
     'An unsuitable or out-of-range value, an assignment to a read-only attribute and a deletion raise and leave the C++ object unchanged; a descriptor refuses foreign objects. '
     'Python attributes of Python subclasses behave as on ordinary classes. '
     'Every constant of an enum wrapped in a module, namespace or class (anonymous, prefixed, renamed or computed) has the C++ value, only in its own scope, and enum values of every underlying type cross calls unchanged, in range only.',
     ['inputs', 'programs'], 'every attribute type, access mode, name and nesting; every history of reads and writes from both sides',
     'Tests read and write a handful of int attributes with good values.',
     ['pybindgen/pyattribute.py', 'pybindgen/cppattribute.py', 'pybindgen/enum.py', 'pybindgen/pytypeobject.py', 'pybindgen/cppclass.py', TH + 'inttype.py'],
     [('attribute getter and setter wrappers', 'pybindgen/cppattribute.py'), ('metaclass for static attributes', 'pybindgen/pyattribute.py'), ('enum constants', 'pybindgen/enum.py')],
     ['attribute values on the Python side', 'every variable as C++ dumps it, with guard bytes around', 'getter and setter calls logged in C++'],
     'model-based monitor: random histories of reads and writes from both sides against a model of every variable, under ASan', SAN + TRUST)

prop('C14', 'Operators, str, copy, hash, sequence and call protocols act like the C++',
     'For every class with declared operators, an expression (a comparison, a binary, in-place or unary operator with any operand order) calls exactly one C++ operator, the first declared one that accepts the operands (or, for comparisons, its reflection), with the operands in the written order, and gives exactly its result; operands are not changed, unsuitable operands raise TypeError and run nothing. '
     'str() gives all of the text operator<< writes; copy.copy() gives an independent equal object; hashing is by identity and calls nothing. '
     '__len__, __getitem__, __setitem__, __contains__, __add__, __mul__ and their in-place forms, as methods, functions or overload sets, own or inherited, serve len(), indexing (exact index values), in, + and * with the result or declared exception of the C++ function; unsupported deletion raises. '
     '__call__ obeys the rules of methods, with overloads and keywords.',
     ['programs', 'inputs'], 'every set of declared operators and special methods, every operand and index',
     'Tests compare a few operators of two classes; operand order, several signatures, huge indices, exceptions and inherited protocols are untested.',
     ['pybindgen/cppclass.py', 'pybindgen/pytypeobject.py', 'pybindgen/cppmethod.py', 'pybindgen/function.py'],
     [('operators written as overloaded wrappers', 'pybindgen/cppclass.py'), ('number and sequence slots', 'pybindgen/pytypeobject.py')],
     ['operators logged in C++', 'results', 'operand state', 'exception types'],
     'differential monitor: C++ operator log and results vs a model of the declared operators, random classes, under ASan', SAN + TRUST)

prop('C09', 'Python state lives as long as its instance; cyclic garbage is collected',
     'For every graph of references among wrapper objects (of every memory policy, exact or of Python subclasses, created by Python, returned by or copied in C++), other Python objects, iterators, classes and instances held by the C++ side: '
     'no wrapper, instance or Python attribute reachable from Python, or from a Python-overriding instance that C++ keeps alive, is ever destroyed, cleared or finalized by garbage collection, and such an instance comes back from C++ as the same Python object with its attributes and overrides. '
     'Whatever is unreachable is destroyed by garbage collection, cycles included, once C++ holds no reference, with each finalizer run exactly once on an intact object. '
     'Finalizers may collect garbage, call into C++, create objects or resurrect their object at any point.',
     ['histories', 'programs'], 'every object graph and every history of linking, dropping, moving to C++ and back, and collecting (at any moment)',
     'Tests have one or two cycles; collection during deallocation, resurrection, and cycles through the C++ side need random graphs and a model.',
     ['pybindgen/cppclass.py', TH + 'smart_ptr.py', 'pybindgen/cppclass_container.py', 'pybindgen/container.py'],
     [('tp_traverse, tp_clear, tp_dealloc of wrappers', 'pybindgen/cppclass.py'), ('iterators hold their container', 'pybindgen/cppclass_container.py')],
     ['set of live C++ instances', 'finalizer log', 'attributes and identities along every path of the graph', 'ASan reports'],
     'model-based monitor: random object graphs against a reachability model, collections at random points, under ASan', SAN + TRUST)

prop('C08', 'Virtual calls reach exactly the implementation Python and C++ semantics name',
     'For every hierarchy of subclassable classes with (overloaded, const, pure, public, protected or private) virtual methods and every Python subclass of any of them (several layers, mixins, diamonds, overrides in any form of callable, put on the class or the instance, added or removed at any time): '
     'a virtual call made by C++ (inside a method, through a pointer or a reference of any base type, however deeply nested) runs the Python override that attribute lookup finds on that very object with exactly the arguments C++ gave and hands its result to C++, and runs the C++ implementation of the most derived declared class if there is no override. '
     'super(), an explicit base class call and the normal call from Python run exactly the next implementation, once. '
     'An exception raised by an override is reported once and C++ continues with the C++ implementation (nothing for void). '
     'Protected methods are reachable only by subclasses, private ones not at all, abstract classes cannot be constructed, and an object given to C++ and back stays the same Python object.',
     ['programs', 'inputs', 'histories'], 'every hierarchy, every set of overrides in every Python class layout, every nesting of calls between both sides',
     'Tests override one or two methods of one class and call each once.',
     ['pybindgen/cppmethod.py', 'pybindgen/cppclass.py', 'pybindgen/typehandlers/base.py'],
     [('virtual method proxies', 'pybindgen/cppmethod.py'), ('parent callers', 'pybindgen/cppmethod.py'), ('helper class', 'pybindgen/cppclass.py')],
     ['order of implementations that ran on both sides, with self and arguments', 'results', 'errors reported through sys.excepthook'],
     'model-based monitor: trace of implementations run on both sides vs a dispatch model, random hierarchies and Python classes, under ASan',
     'Not covered: C++ overrides of virtual methods that were not declared to PyBindGen, const and non-const overloads of the same signature, pure or private virtual methods whose override is missing or raises with a value to return (PyBindGen ends the process there). ' + SAN + TRUST)

prop('C15', 'Instances pass as exactly the classes they derive from or convert to',
     'For every hierarchy of wrapped classes (any depth, tree or several bases with a common root, placed in any mix of modules, namespaces and outer classes) an instance is accepted by a parameter of class type (value, pointer, reference, const, smart pointer, overloaded) exactly if its class is that class, derives from it, or it or a class it derives from has a declared implicit conversion to it (by value and const reference parameters only); '
     'C++ then sees that very object as that class (a copy for by-value parameters, a converted object for conversions), and everything else is rejected with TypeError before C++ runs. '
     'isinstance and issubclass follow the C++ hierarchy; methods, static methods, overloads, attributes and class attributes of all bases are reached through a derived class, the most derived definition first. '
     '(Not claimed: instances used through a base class at an offset within the object; classes managed by smart pointers with subclasses; members that are ambiguous in C++.)',
     ['programs', 'inputs'], 'every hierarchy, every placement, every pair of class and parameter, every set of implicit conversions',
     'Tests have two-level hierarchies and one implicit conversion; wrong casts between siblings and layouts show up only in systematic pairs.',
     ['pybindgen/cppclass.py', 'pybindgen/module.py'],
     [('base class registration and tp_base/tp_bases', 'pybindgen/cppclass.py'), ('implicit conversion dispatch in class parameters', 'pybindgen/cppclass.py'), ],
     ['C++ event log with object magic numbers per class level', 'results and exception types'],
     'differential monitor: random class hierarchies, every pair of class and parameter vs the C++ relation, object magic checked in C++, under ASan', SAN + TRUST)

prop('C07', 'Objects from C++ arrive as their most specific known class',
     'An instance that C++ hands to Python (returned by pointer, reference or smart pointer from a function, method or static method, read from an attribute, or given to a Python override) with ownership or a reference of its own arrives as a wrapper of the most derived declared class in its single inheritance chain, if its declared class has automatic type narrowing, and of the declared class otherwise; '
     'classes of the C++ side that PyBindGen does not know, with any bases, arrive as the nearest known one. A NULL pointer arrives as None. '
     'The wrapper reaches that very instance as every class it is an instance of, with a wrapper registry it is the same wrapper for the same instance; copies (by value, or plain pointers without ownership) are independent and of the declared class. '
     'What an override does to an inout argument reaches C++, and any argument it keeps stays usable. (Returns that merely reference an existing instance of a plain class may arrive as either class.)',
     ['programs', 'inputs'], 'every hierarchy of known and hidden classes, every memory policy, every way out of C++, every dynamic class',
     'Tests narrow two classes through one function; a wrong class or pointer shows up only for some combination of hidden class, policy and way out.',
     ['pybindgen/cppclass.py', TH + 'smart_ptr.py', 'pybindgen/wrapper_registry.py'],
     [('TypeMap::lookup_wrapper', 'pybindgen/cppclass.py'), ('common_shared_object_return and reverse class parameters', 'pybindgen/cppclass.py'), ('reverse smart pointer parameters', TH + 'smart_ptr.py')],
     ['class of wrappers', 'per-class magic numbers read through the wrapper and by C++', 'live C++ instances', 'ASan reports'],
     'differential monitor: random hierarchies, every (declared, dynamic) class pair through every way out vs a model of narrowing, under ASan', SAN + TRUST)

prop('C20', 'Types shared by several extension modules behave as one type',
     'If several modules declare the same C++ class (plain, reference counted or managed by smart pointers, at module level, in a namespace or nested in a class, under its own name or renamed) or enum, one defining it and the others with import_from_module, then there is a single Python type, the one of the defining module: '
     'importing a module loads the modules it imports types from; objects created or received through any module are accepted by the functions, methods, attributes, containers and Python overrides of every module that knows the class, and C++ then sees that very object; results from any module are instances of that type, narrowed (with automatic type narrowing) to the most derived class of any loaded module; '
     'classes of one module may derive from classes of another and inherit their methods; Python subclasses have their overrides called by every module; with a wrapper registry the wrapper of an instance is the same whichever module hands it out; unrelated classes are refused with TypeError; no instance is leaked or destroyed twice.',
     ['programs', 'inputs', 'histories'], 'every distribution of classes over modules, every import order, every pair of module and class',
     'Tests have two modules with one class each; a lost registry, a second type or a missing narrowing shows up only for some combination of module, class and way out.',
     ['pybindgen/cppclass.py', 'pybindgen/wrapper_registry.py', 'pybindgen/module.py', 'pybindgen/enum.py'],
     [('_generate_import_from_module', 'pybindgen/cppclass.py'), ('generate_import', 'pybindgen/wrapper_registry.py'), ('submodule registration', 'pybindgen/module.py')],
     ['class and identity of wrappers from every module', 'per-class magic numbers read by the C++ code of every module', 'overrides run', 'live C++ instances', 'ASan reports'],
     'differential monitor: random hierarchies spread over three modules, random import order, every way in and out vs a model of one type, under ASan', 'All modules are built by the same compiler against the same headers; a class has to be known by a module (with its bases) before it uses it. ' + SAN + TRUST)

prop('C10', 'Declared C++ exceptions arrive as the declared Python exceptions',
     'When a wrapped function, method, static method, constructor or function used as method throws a C++ exception whose class is, or derives from, one of the classes in its declared throw list, the caller gets exactly the Python exception class of the first such class in the list (the new class, or the built-in exception it is mapped to), with the declared message as its only argument, computed from the thrown object itself, or no argument if no message is declared; '
     'exception classes have the declared name, module and parent as their base class; the call had the same arguments as without exception, no return value is produced, the GIL is held again, arguments and the C++ exception object are not leaked, ownership given to the callee stays given, and objects involved remain usable; '
     'this also holds for exceptions that pass through virtual methods of classes with Python subclasses (not overridden, or overrides calling the inherited method, which can catch them), for overloads (the exception is not taken for a failed match), and with unblock_threads; a call that does not throw is unaffected.',
     ['programs', 'inputs', 'histories'], 'every exception hierarchy, throw list, signature, message text and position of the throw',
     'Tests throw two exceptions from a few functions; leaks, GIL states, slicing, percent signs and handler order need particular combinations.',
     ['pybindgen/cppexception.py', 'pybindgen/function.py', 'pybindgen/cppmethod.py'],
     [('write_convert_to_python', 'pybindgen/cppexception.py'), ('generate_call', 'pybindgen/function.py'), ('CppVirtualMethodProxy', 'pybindgen/cppmethod.py')],
     ['class, args, bases of raised exceptions', 'GIL state during and after calls', 'reference counts, live C++ instances and exception objects', 'ASan reports'],
     'differential monitor: random hierarchies, throw lists and signatures, the thrown class and text chosen at run time vs the C++ handler rule, under ASan', 'Message texts are valid UTF-8; exceptions are only thrown where they are declared. ' + SAN + TRUST)

prop('C11', 'The GIL is released exactly where declared and held for all Python work',
     'A function, method (const, static, virtual, protected, inherited by a class with several bases), constructor, function used as method or constructor, __call__ or overload runs without the GIL if it is declared with unblock_threads=True, or, if nothing is declared, if settings.unblock_threads was set when it was added; otherwise with the GIL. '
     'After the call, however it ends (result, declared exception, no matching overload), the calling thread holds the GIL exactly as before; everything generated code does with Python objects is done with the GIL. '
     'Threads that release the GIL really run concurrently: two of them can wait for each other inside C++. C++ threads without the GIL can call virtual methods of any instance, several at once on the same instance: overrides run with the GIL and get the right instance, arguments and results; inherited implementations run without it (when C++ did not hold it); the last reference may be dropped, and the instance destroyed with its Python state, in any thread. '
     'Results are those of a single-threaded run, nothing is leaked or destroyed twice, no thread waits forever.',
     ['schedules', 'programs', 'inputs'], 'every interleaving, every signature, every kind of callable, with and without unblock_threads',
     'No test runs a second thread; a missing or doubled acquire or release shows up only with other threads, on error paths, or when C++ owns the last reference.',
     [TH + 'base.py', 'pybindgen/cppmethod.py', 'pybindgen/cppclass.py', 'pybindgen/function.py'],
     [('generate_body', TH + 'base.py'), ('ReverseWrapperBase', TH + 'base.py'), ('CppVirtualMethodProxy', 'pybindgen/cppmethod.py'), ('CppHelperClass', 'pybindgen/cppclass.py')],
     ['PyGILState_Check in C++ code and at every Python API call', 'gilstate_counter after each call', 'rendezvous of threads', 'live instances', 'progress', 'ASan reports'],
     'stress with online monitors: random callables under many Python and C++ threads, GIL assertions at every Python API use, rendezvous, progress watcher, under ASan', 'Interleavings are sampled. Programs synchronise their own C++ state. ' + SAN + TRUST)

prop('C16', 'A C++ type means the same to pybindgen however it is spelled',
     'A type given to the API (parameter, return value, attribute, container, template argument, alias) may be spelled in any way C++ allows for it: any white space between tokens, qualifiers before or after the name, leading "::", ">>" or "> >". '
     'normalize_type_string returns one string for all spellings, which names the same C++ type and is left alone by another normalization; two different types never get the same string. '
     'TypeTraits describes the type as the C++ compiler does: constness of the type and of its target, whether it is a pointer or reference, the target, the type without qualifiers, without const, without const and reference; make_const and make_target_const give the type with that const added. '
     'A class, class template instance, enum, container or smart pointer declared in one spelling is found under every other one, and through type aliases, and never taken for another type, e.g. of the same name in another namespace. '
     'Not covered: rvalue references, arrays, blanks inside qualified names, synonyms of fundamental types.',
     ['inputs', 'programs'], 'every type expression, every spelling',
     'The existing tests try a handful of strings; types are nested and spelled without bound, and a wrong normal form silently selects another type handler.',
     [TH + 'ctypeparser/__init__.py', TH + 'ctypeparser/tokenizer.py', TH + 'base.py', 'pybindgen/utils.py'],
     [('normalize_type_string', TH + 'ctypeparser/__init__.py'), ('TypeTraits', TH + 'ctypeparser/__init__.py'), ('TypeMatcher', TH + 'base.py'), ('mangle_name', 'pybindgen/utils.py')],
     ['results of the real normalize_type_string and TypeTraits, judged by the compiler (typeid, <type_traits>)', 'types seen in C++ and Python by calls of modules built from respelled declarations', 'ASan reports'],
     'differential observation against the C++ compiler: random types in random spellings, and built modules driven from Python', 'Types are sampled. ' + SAN + TRUST)

prop('C21', 'What is declared is what Python sees, under the declared names',
     'After import, the public names of every module, submodule and class are exactly those of the declarations: functions under their custom name, else their C name without the strip prefix (by default the name of the module and "_", at the start only) or as the transformer of the module gives it, template functions with the arguments appended; '
     'classes (also nested ones, template instances and typedef aliases, which are the same class), exceptions, containers, enum values (with or without prefix, in a module or a class), methods and attributes under custom name or own name. '
     'Each of them leads to the C++ entity of its declaration, in the right namespace, also when names repeat in other namespaces, classes or submodules. __name__, __module__ and docstrings are those declared (any text); an overload set has the docstring given to any of its members. '
     'C++ namespaces are submodules, importable by their full name, one per namespace however often it is asked for; a root module may live in a package or have another file name. '
     'Not covered: names that differ only in "_", "::" or case once joined, and names that clash with identifiers of the generated code.',
     ['inputs', 'programs'], 'every tree of modules and declarations',
     'The existing tests look at one module; a name that is lost, shadowed or bound to a namesake only shows in trees where names repeat.',
     ['pybindgen/module.py', 'pybindgen/cppclass.py', 'pybindgen/enum.py', 'pybindgen/function.py', 'pybindgen/overloading.py'],
     [('add_cpp_namespace', 'pybindgen/module.py'), ('do_generate', 'pybindgen/module.py'), ('register_type', 'pybindgen/module.py'), ('get_py_method_def', 'pybindgen/overloading.py'), ('generate_typedef', 'pybindgen/cppclass.py')],
     ['the names, values, docstrings and types found in the imported modules', 'identifying results of every call', 'ASan reports'],
     'comparison of the imported modules with the declarations, name by name, over random module trees', 'Trees are sampled. ' + SAN + TRUST)

prop('C17', 'What is generated depends on the declarations only',
     'The same generator script writes the same code, byte for byte, in every process (hash seed). A module whose declarations are spread over sections (begin_section and end_section, one source file each) behaves like the module in one file. '
     'With an error handler that accepts, every declaration that cannot be wrapped (unknown types, missing direction or ownership of a parameter, results that cannot be copied; functions, overloads, methods, virtual methods, constructors, attributes) is reported to the handler and left out, and everything else is as if it had not been declared; '
     'a class is abstract if a skipped pure virtual method is not implemented by it or a class in between, and only then. Without a handler, or if it declines, the generation ends with the error. '
     'Not covered: containers and operators of such types, and Python overrides in classes derived from one with a skipped pure virtual method.',
     ['inputs', 'programs', 'faults'], 'every set of declarations, split into sections, hash seed and skipped declaration',
     'The existing tests have a few modules in sections and two skipped methods; they compare no outputs.',
     ['pybindgen/module.py', 'pybindgen/overloading.py', 'pybindgen/utils.py', 'pybindgen/cppclass.py'],
     [('begin_section', 'pybindgen/module.py'), ('get_code_sink_for_wrapper', 'pybindgen/module.py'), ('call_with_error_handling', 'pybindgen/utils.py'), ('_normalize_py_method_flags', 'pybindgen/overloading.py'), ('CppDummyMethod', 'pybindgen/cppmethod.py')],
     ['generated files', 'calls of the error handler', 'the oracles of the other checks on modules in sections', 'the names and results of the module without the skipped declarations', 'ASan reports'],
     'comparison of generated files across processes, of modules in sections with those in one file, and of modules with and without declarations that are skipped', 'Modules are sampled. ' + SAN + TRUST)

prop('C22', 'A custodian keeps its wards alive, exactly as long as it lives',
     'After a call with a custodian/ward relation (custodian= of a parameter or result, return_internal_reference, add_custodian_and_ward) the ward lives at least as long as the custodian, whatever other references are dropped, and is released as soon as neither the custodian nor anything else keeps it; relations that form cycles are collected by the garbage collector, each object is destroyed once. '
     'Relations not marked postcall also hold if the call throws, those marked postcall (and those of the result) only if it returns. A custodian or ward that is NULL, None or left out means no relation; of overloads only the one that ran counts; methods inherited from one or several bases keep their relations. '
     'It does not matter how the custodian or the ward behaves in Python (subclasses with __eq__, __getattr__, __setattr__, __slots__). A custodian whose class has no instance dictionary is refused with an exception, or keeps the ward. '
     'Not covered: relations without an instance of a wrapped class as custodian, and smart pointers.',
     ['inputs', 'histories', 'faults', 'programs'], 'every set of declared relations and every history of calls and dropped references',
     'The existing tests check a reference count after single calls; lifetimes are a matter of whole histories.',
     ['pybindgen/cppclass.py', 'pybindgen/cppmethod.py', 'pybindgen/function.py'],
     [('_add_ward', 'pybindgen/cppclass.py'), ('scan_custodians_and_wards', 'pybindgen/cppclass.py'), ('implement_parameter_custodians_precall', 'pybindgen/cppclass.py'), ('add_custodian_and_ward', 'pybindgen/function.py')],
     ['constructors and destructors of every C++ object', 'calls, their relations and results, dropped references', 'collections', 'ASan reports'],
     'online comparison of which C++ objects are alive with a model of references and relations, after every step of random histories', 'Modules and histories are sampled. ' + SAN + TRUST)

prop('C18', 'A scanned header gives the module that the header declares',
     'Scanning a header with ModuleParser (castxml) declares exactly its supported public declarations, from the headers given and from whitelisted directories: functions, classes with their bases, constructors, methods, operators, attributes and nested types, enums, typedefs, containers, template instances, in the submodule or class of their namespace or class; with defaults, overloads, const, static, virtual, visibility, deprecation and exceptions as declared, '
     'and as the annotations say (ignore, name, direction, ownership, memory policies, of_class, template_instance_names, ...). Private, ignored and unsupported declarations (unknown types, bit-fields, ...) are left out without harm to the others. The generated code compiles and every declaration works. '
     'The Python script that the scan writes, in one file or in sections chosen by a classifier, declares the same module. Pre-scan hooks may change the annotations; post-scan hooks see every function, method and class once. '
     'Not covered: default values that use names which are not visible from the root namespace.',
     ['inputs', 'programs'], 'every header made of supported and unsupported declarations',
     'The existing tests scan one header.',
     ['pybindgen/castxmlparser.py'],
     [('ModuleParser', 'pybindgen/castxmlparser.py'), ('_scan_namespace_types', 'pybindgen/castxmlparser.py'), ('_scan_class_methods', 'pybindgen/castxmlparser.py'), ('AnnotationsScanner', 'pybindgen/castxmlparser.py')],
     ['names of every module and class', 'results of every probe of a declaration', 'calls of hooks', 'ASan reports'],
     'comparison of names and results with what the generator of the header knows, for the scanned module and the module of the written scripts', 'Headers are sampled. ' + SAN + TRUST)

prop('C19', 'Any names can be wrapped, and each reaches its own entity',
     'Whatever valid C++ names the declarations use, the generated module compiles and every Python name reaches the C++ entity that it names: parameters may be called like anything that the generated wrappers use (self, args, retval, their class, their function, the numbered names of other variables), also in constructors, overloads and virtual methods; namespaces, classes, nested classes, exceptions, functions, methods and attributes may have names that become the same after mangling (na::B and NaB, Foo and foo, A::B and AB, b_f and b::f, A_b::f and A::b_f, _get_x and an attribute x, f__0 and an overloaded f). '
     'Keyword arguments are accepted under the declared names only, and reach their own parameter. '
     'Not covered: names starting with Py, functions, classes and enumerators named like top-level declarations of the generated file or the fixed variables of wrappers (m_functions, retval, args, dummy, self), members of subclassable classes that hide a namespace or class.',
     ['inputs', 'programs'], 'every choice of names for the declarations of a module',
     'The existing tests use names that never collide.',
     ['pybindgen/typehandlers/base.py', 'pybindgen/cppclass.py', 'pybindgen/cppmethod.py', 'pybindgen/function.py', 'pybindgen/overloading.py', 'pybindgen/utils.py'],
     [('DeclarationsScope', 'pybindgen/typehandlers/base.py'), ('mangle_name', 'pybindgen/utils.py'), ('_update_names', 'pybindgen/cppclass.py'), ('set_module', 'pybindgen/function.py'), ('CppVirtualMethodProxy', 'pybindgen/cppmethod.py')],
     ['results of functions, methods, constructors and virtual methods', 'values of attributes', 'classes of exceptions', 'refused keywords', 'ASan reports'],
     'comparison of every result with the identity of the entity and its arguments, known to the generator of the module', 'Modules and names are sampled. ' + SAN + TRUST)
