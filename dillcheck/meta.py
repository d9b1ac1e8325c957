"""The properties, their anchors and the text of the manifest.

`python3 -m dillcheck.meta` rewrites properties.jsonl and MANIFEST.json.
"""
import json
import os

D, S, L, SH = "dill/_dill.py", "dill/session.py", "dill/logger.py", "dill/_shims.py"
SRC = "dill/source.py"
DT, PT, TP, ST = "dill/detect.py", "dill/pointers.py", "dill/temp.py", "dill/settings.py"

PV = "path-sensitive value-numbering dataflow over the syntax trees, "
TAB = PV + "compared path by path with a decision table"

# id -> (title, statement, over, quantifier text, why tests can't, files,
#        [(mechanism, where)], technique, level_note)
P = {}


def prop(pid, title, statement, over, qtext, why, files, mech, technique, note):
    P[pid] = dict(id=pid, title=title, statement=" ".join(statement.split()),
                  quantifier={"over": over, "text": qtext}, why_tests_cant=why,
                  anchors={"files": files,
                           "mechanism": [{"name": n, "where": w} for n, w in mech]},
                  technique=technique, note=note)


prop("C01", "Explicit options always win, omitted ones follow the settings",
     """Whenever an object is dumped, loaded or copied, an option passed explicitly (protocol, byref,
     fmode, recurse, ignore) is the value that is used, also when it is falsy (0 or False), and an
     option that is omitted or None takes the value the global settings hold at that call. Every
     dump and load shorthand forwards all the options and extra keywords it receives to the pickler
     or unpickler it creates. The settings start as documented (the default protocol of the standard pickle module, file
     handles only, and by reference, recursion and ignoring off). No dump, load or copy ever changes the global settings.""",
     ["inputs", "configurations"],
     "every combination of given/omitted/falsy options, of settings values and of entry points",
     "The tests call a few entry points with a few options; the product of options, settings and "
     "entry points is never sampled, least of all with falsy explicit values against truthy settings.",
     [D, ST], [("Pickler.__init__/Unpickler.__init__ option resolution", D),
               ("dump, dumps, load, loads, copy forwarding", D), ("settings table", ST)],
     TAB + "; whole-package ownership lint for writes to the settings table",
     "Decides which value reaches each option attribute and each forwarded argument on every path; "
     "that the stock pickler then honours the protocol is trusted.")

prop("C02", "Pickling never modifies the objects being pickled",
     """Pickling leaves the object and everything reachable from it as it was: no attribute, item,
     dictionary entry or list element of a pickled object, class or module is set, replaced or
     removed, and no lock, file or iterator that is pickled is released, closed, moved or consumed
     (flushing a file is allowed). Entries that must not be stored (such as the builtins of a module, or the
     slot descriptors and weak-reference slots of a class) are dropped from a copy only.""",
     ["inputs"], "every object graph and every handler that can be reached while dumping it",
     "Tests compare results of loading, hardly ever the dumped object before and after; a mutation "
     "in one handler on one branch is invisible to them.",
     [D, S], [("copies of class and module dictionaries", D + " save_type, save_module"),
              ("module stash for sessions", S + " _stash_modules")],
     "effect analysis with alias/ownership tracking: every mutating operation reachable while "
     "dumping must act on an object the dumping code allocated itself",
     "Covers dill's own code; user-defined __reduce__/__getstate__ and the stock pickler are trusted.")

prop("C03", "A function pickled by value carries its whole state",
     """A function stored by value is rebuilt with its own code object, name, qualified name, module,
     positional defaults, keyword-only defaults, closure, annotations, docstring (also when it was removed)
     and attribute dictionary. Its globals are the namespace of its module (or of the module being saved as a
     session), or a fresh dictionary carrying the module name which receives the captured globals
     only after the function exists, so that self-references resolve; with the recurse option
     only the names it refers to are captured. A rebuilt function always has builtins available.""",
     ["inputs", "configurations"],
     "every function object, every combination of attributes present/absent, each globals situation and option",
     "Tests sample a dozen functions; a field dropped only when another is absent, or only under "
     "recurse or in a session, is not sampled.",
     [D], [("save_function / _create_function", D), ("_save_with_postproc deferred globals", D)],
     TAB, "Decides which parts are stored and re-applied on each path; equality of the "
     "recreated parts rests on the handlers of their own types.")

prop("C04", "Code objects keep every field in every known layout",
     """A pickled code object stores every constructor field of the running interpreter in that interpreter's
     order, preceded by the legacy line table where older readers need it. On loading, each known layout
     (3.7, 3.8-3.9, 3.10, PyPy 3.11, 3.11 alpha and 3.11+) is told apart by its length, byte fields
     that were stored as text are encoded back, and fields the layout lacks get neutral values or, for the
     qualified name, the name. No field is ever dropped, swapped or taken from another field.""",
     ["inputs", "configurations"],
     "every code object, every interpreter layout the writer knows times every layout the reader knows",
     "Tests run on one interpreter, so only one of the six written layouts and one of the six reader "
     "branches execute.",
     [D], [("save_code", D), ("_create_code and ALL_CODE_PARAMS", D)],
     "symbolic agreement of the writer's tuple layouts, the layout table and the reader's constructor "
     "calls, extracted by value numbering over all version branches",
     "All version arms are analysed, including those the installed interpreter never executes.")

prop("C05", "A class pickled by value is rebuilt from its own definition",
     """A class stored by value is rebuilt with the same metaclass, name, qualified name, bases (the original
     generic bases if it has them) and own attributes. The namespace that is stored leaves out exactly what Python
     recreates by itself: the instance-dictionary and weak-reference slots, the slot descriptors, abstract-class caches and
     attributes that are the very object a base provides; virtual subclasses registered with an abstract class are
     registered again. A namedtuple class is rebuilt from its name, fields, module and defaults.""",
     ["inputs"], "every class object and metaclass, slots, generic bases, ABC and namedtuple shapes",
     "Tests cover some shapes, not their combinations (private slots, string slots, generic ABCs, "
     "qualified namedtuples with defaults).",
     [D], [("save_type", D), ("_get_typedict_type/_get_typedict_abc", D), ("_create_namedtuple", D)],
     TAB, "Decides the stored parts on each path; whether the metaclass accepts the namespace is a "
     "property of user code and is out of scope.")

prop("C06", "Only what can be found again is pickled by reference",
     """A function or class is stored as a reference only if importing its module and following its
     qualified name yields that very object; anything defined in __main__, in a local scope, without
     a module, or in the module being saved as a session is not, unless storing classes by reference was requested or
     storing by value would recurse endlessly. When a class is stored by reference although it cannot
     be located, or because of such a recursion, a pickling warning says so. The stored name is the qualified name.""",
     ["inputs", "configurations"], "every function and class, however it is named, moved, shadowed or patched",
     "The tests use well-behaved names; shadowed, re-bound or moved objects are what the identity "
     "check exists for.",
     [D], [("_locate_function, _getattribute, _import_module", D), ("save_type, save_function", D)],
     TAB, "Decides the decision and its identity test on every path; import side effects of user "
     "modules are out of scope.")

prop("C07", "Wrapped callables are rebuilt from the parts they were made of",
     """Bound methods keep their function and their instance, properties their getter, setter, deleter and
     docstring, static and class methods their function, super objects their class and instance, cached functions their
     wrapped function, maximum size and typed flag, and method and attribute descriptors
     their owner class and name. Each is rebuilt with its own type (subclasses included where the type is
     part of the value), with the parts in the right order.""",
     ["inputs"], "every instance of the wrapped-callable types dill handles",
     "Each kind is tested with one or two examples; e.g. typed caches, deleters or abstract variants "
     "are not.",
     [D], [("save_instancemethod0, save_property, save_classmethod, save_super, save_lru_cache, "
            "save_wrapper_descriptor", D)],
     TAB, "Decides the reduction each handler emits on each path.")

prop("C08", "Plain built-in values keep all their parts",
     """Slices keep start, stop and step; ranges, Ellipsis and NotImplemented come back as the same value; dictionary views
     stay views of the same kind over an equal mapping; read-only mapping proxies, generic aliases, thread handles,
     capsules, context variables' contexts and dataclass sentinels keep all the parts they were made of. The types of None, NotImplemented, Ellipsis, enum's
     metaclass and the thread exception-hook arguments are restored as those very types.""",
     ["inputs"], "every instance of the built-in value types dill handles, on every supported version",
     "One example each at best; several arms belong to versions the tests never run on.",
     [D], [("save_slice, save_singleton, save_dict_view, save_dictproxy, save_generic_alias, "
            "save_thread_handle, save_capsule, save_context, dataclass sentinels", D)],
     TAB, "Decides the reduction or opcode each handler emits and what the paired constructor does "
     "with it, on each path and for every version arm.")

prop("C09", "Closure cells keep contents, emptiness and cycles",
     """A closure cell is restored with its contents, an empty cell is restored empty, and a cell that refers to an
     object whose pickling is still in progress is created empty-handed first and filled in once that object
     exists. Every deferred assignment queued while pickling is emitted exactly once, after the object it waits for,
     and is removed from the queue when it is emitted early.""",
     ["inputs"], "every closure, including recursive and mutually recursive ones, and every nesting of "
     "objects under construction",
     "Tests have a few recursive closures; which object a deferred assignment attaches to depends on the nesting.",
     [D, SH], [("save_cell, _create_cell", D), ("_save_with_postproc queue", D),
               ("_setattr/_delattr shims", SH)],
     TAB + " and typestate of the deferred-assignment queue",
     "Decides queueing, ordering and exactly-once emission in the handlers; the order in which the "
     "stock pickler visits objects is trusted.")

prop("C10", "Every handler leaves exactly one memoised value on the stack",
     """Saving an object leaves exactly one value on the unpickler's stack: each call made only for
     its side effect is followed by a pop, and no pop is emitted otherwise. The object being saved is always
     registered with the memo when it is stored by construction or by global reference, so that shared references and cycles
     resolve to one object and a second reference never builds a second copy.""",
     ["inputs"], "every type with a dill handler, every path of the handler",
     "An imbalance shows only on the path that has it, and only if something follows it in the stream.",
     [D], [("all registered handlers", D), ("_save_with_postproc", D)],
     "typestate analysis: abstract stack depth and memo obligation propagated over every path of every "
     "registered handler", "Applies to handlers found in the dispatch registrations; objects written as a bare global opcode are "
     "exempt from memoisation (they are singletons).")

prop("C11", "Locks are restored locked or unlocked as they were",
     """A pickled lock is restored held exactly if it was held, and a pickled re-entrant lock is restored with the same recursion count and owner;
     an unheld lock is restored unheld. Pickling only inspects the lock and never acquires or releases it. If a
     restored lock cannot be put in the held state, loading fails with an unpickling error instead of
     returning a lock in the wrong state.""",
     ["inputs", "schedules"], "every lock state and owner at the time of pickling",
     "Tests restore one locked and one unlocked lock; counts, owners and failure to acquire are not covered.",
     [D], [("save_lock/_create_lock", D), ("save_rlock/_create_rlock", D)],
     TAB, "Decides state transfer on each path; the meaning of the interpreter's lock repr is trusted.")

prop("C12", "Weak references keep their referent and dead ones stay dead",
     """A weak reference or weak proxy that is alive when pickled is restored as a weak reference or proxy to the restored
     copy of its referent, and a dead one as a dead one; a proxy keeps whether it is callable. The referent of a proxy is found by the identity
     of the object, never by comparing values, and a failed search raises a reference error rather than
     picking another object.""",
     ["inputs"], "every weak reference and proxy, alive or dead, whatever its referent's type and string form",
     "Tests use two classes with default string forms.",
     [D], [("save_weakref, save_weakproxy", D), ("_create_weakref, _create_weakproxy", D),
           ("_proxy_helper, _locate_object", D)],
     TAB, "Decides the paths in dill; that id() and the proxy repr identify the referent is trusted.")

prop("C13", "File handles are restored as the chosen file mode promises",
     """A pickled file handle keeps its name, mode, closed state and opening function; its position is stored after flushing,
     is 0 for a closed file and is never applied to the standard streams. With the handle mode the file is reopened
     without seeking; with the contents mode it is repositioned but never beyond the end, and existing contents are never truncated; only with the
     file mode is the whole content stored and written back. A missing file or a position beyond the end raises an error under strict
     mode, and failures to open are reported as unpickling errors.""",
     ["inputs", "configurations"], "every mode, position, file-mode option and state of the file system at load",
     "Tests enumerate some modes; binary files, exclusive mode and closed files with each option are not sampled together.",
     [D], [("_save_file", D), ("_create_filehandle", D)],
     TAB, "Decides which operations are performed under which conditions; the file system itself is out of scope.")

prop("C14", "Pickles written by older versions stay loadable",
     """Every reconstruction function named in existing pickles stays importable under its old location, accepts
     the argument lists earlier versions wrote (new parameters have defaults) and yields the same kind of object. Names written by older
     versions (the former core module, the Python 2 spelling of the main dictionary and of NoneType) keep
     resolving, and every other name resolves exactly as standard pickle resolves it.""",
     ["histories", "inputs"], "every pickle stream written by an earlier dill on any supported Python",
     "The tests load only what the same version has just written.",
     [D, SH, S], [("Unpickler.find_class", D), ("_create_* reconstructors", D), ("shims", SH)],
     "signature compatibility lint over the reconstruction functions plus " + TAB,
     "The table of historical argument lists is confirmed from the released pickles' layout; the "
     "stock unpickler is trusted.")

prop("C15", "Type names in pickles map back to the same type",
     """A built-in type stored by a registry name is found again under exactly that name: the table used when loading is the
     inverse of the one used when saving, and an implementation-specific type is added to
     both. A name lookup never yields a different type, and looking up an unknown name fails.""",
     ["inputs"], "every type in the registries",
     "Tests pickle a handful of built-in types.",
     [D], [("_typemap/_reverse_typemap", D), ("_load_type, save_type T1", D)],
     "abstract interpretation of the module body collecting every update of the two tables",
     "Decides that the save table is derived by inversion from the load table and that no entry is "
     "removed or changed afterwards; the types found at import time are trusted.")

prop("C16", "Registering types never leaks into the standard pickle module",
     """Types registered with dill affect only dill's picklers: the standard pickle dispatch table changes only when the
     user extends pickle explicitly, extending copies every registered type, and reverting removes
     exactly dill's own functions and restores the original entry where one existed. Registering a handler makes it the handler for that
     type and returns the handler unchanged; subclasses of type without their own handler use the class handler.""",
     ["histories"], "every sequence of register, extend and revert calls",
     "Tests run with pickle extended from the start and never revert.",
     [D, "dill/__init__.py"], [("Pickler.dispatch copy", D), ("_extend, _revert_extension, extend", D),
                               ("register, pickle, MetaCatchingDict", D)],
     "ownership lint (who may write which dispatch table) plus " + TAB,
     "Covers writes through dill's own code.")

prop("C17", "Process-wide state is left as it was found",
     """Outside of the documented switches (tracing, extending pickle, difference tracking, the settings), using dill never leaves a changed
     process-wide state behind: warning filters, standard streams, the module table, recursion limits and environment are restored on every exit, normal
     or exceptional, of the call that changed them.""",
     ["inputs", "fault_sequences"], "every call and every exception that can end it",
     "Tests never look at the process state afterwards, in particular not after a failure.",
     [D, S, TP, DT, L], [("warnings.catch_warnings scopes", D), ("try/finally around module table changes", S),
                         ("capture", TP)],
     "resource typestate: every write to process-wide state reachable from a function body must be "
     "dominated by a save and post-dominated by its restore on all normal and exceptional exits",
     "Exceptions are modelled at every call and subscript; asynchronous interrupts are not.")

prop("C18", "Trace output is a balanced tree with correct sizes",
     """With tracing on, every handler that announces an object ends that announcement exactly once on every normal
     path, with the matching label, so the depth returns to where it was. The size reported for an object is the number of bytes
     written between its announcement and its end, depths are those of the nesting, and tracing never consumes,
     reorders or changes what is pickled; with tracing off nothing is counted or logged.""",
     ["inputs"], "every handler path and every nesting of objects",
     "Trace tests compare one tree.",
     [L, D], [("TraceAdapter.trace/trace_setup", L), ("TraceFormatter.format", L), ("trace calls of the handlers", D)],
     "typestate (balanced begin/end events) over every path of every function that traces, plus " + TAB,
     "Exceptional exits of handlers are exempt (the counters are reset at the next dump).")

prop("C19", "The trace context restores the previous tracing state",
     """Leaving a tracing context restores the logging level and the handlers that were in place when it was entered, also after an
     exception, and closes a log file it opened but never a stream it was given. A context that redirects sends the trace
     to the requested target instead of the standard error stream, and nested contexts unwind to the outer state. Called with a
     boolean, tracing is switched on or off and nothing else changes.""",
     ["histories", "fault_sequences"], "every nesting of contexts and every exit from them",
     "Tests use a single context.",
     [L], [("trace, TraceManager", L)], TAB + "; paired-operation typestate of enter and exit",
     "Decides the operations of enter and exit; the logging module is trusted.")

prop("C20", "Loading re-points instances to main's class only when asked to",
     """After loading an object whose class is defined in __main__, its class is replaced by the current class of the same name
     in __main__ exactly when ignore is false; with ignore true, or for an object of any other module, the loaded object is
     returned as it was built. A missing or incompatible class leaves the object unchanged and never fails
     the load.""",
     ["inputs", "configurations"], "every loaded object, with each value of ignore",
     "Tests hardly use ignore and never a missing or incompatible class.",
     [D], [("Unpickler.load", D), ("copy/load/loads option passing", D)], TAB,
     "Decides condition and effect on every path.")

prop("C21", "Modules are stored by reference or with their state as appropriate",
     """A built-in, standard or installed module, and dill itself, is stored as a bare reference to its name; any other module, or the
     module being saved as a session, is stored with its state minus the builtins and the loader. A
     module that is not importable is stored under a runtime name so that it can be told from an imported one. Storing the
     dictionary of a module stores a reference to that module's dictionary only if it is that very dictionary.""",
     ["inputs", "configurations"], "every module object, wherever its file lives",
     "Tests save a few modules.",
     [D], [("save_module, save_module_dict", D), ("_is_builtin_module, _is_imported_module", D)], TAB,
     "Decides the branch conditions and reductions; the file-name test for installed modules is a heuristic "
     "that is taken as it is.")

prop("C22", "Numpy arrays, universal functions and dtypes use numpy's own reduction",
     """A numpy array or array subclass that uses numpy's own reduction is stored as that reduction (constructor, arguments and state) together with
     its instance dictionary if it has one; on loading, state and then dictionary are applied to the constructed array once it is known
     to the memo, so that arrays that contain themselves are restored. Array subclasses that override the reduction are left to it. Universal functions are stored as a
     reference by their qualified name (or name), data type classes by their scalar type. A handler is registered
     only for a type that is of that kind and has no handler yet, and numpy is imported only for a type that descends from one of numpy's.""",
     ["inputs"], "every array, array subclass, universal function and data type class",
     "One or two examples are tested; subclasses with attributes, overridden reductions or cycles are not.",
     [D], [("numpy hack in Pickler.save", D), ("_create_array, _set_array_state, _create_dtypemeta, __hook__", D)], TAB,
     "Decides what is registered, stored and re-applied on each path; numpy's own reduction is trusted.")

prop("C23", "Handlers work under the stock pickler after dill.extend",
     """Once dill's types are registered with the standard pickle module, every handler also works when it is called by the standard library's own
     (Python) pickler. It relies on the additional state of dill's pickler only where the pickler is known to be dill's, or
     has a substitute that can be used the same way, and the assignments a handler defers (globals of a function, attributes of a class) are written for every
     pickler and never dropped.""",
     ["inputs", "configurations"], "every handler, every path on which the pickler is not dill's",
     "The tests of extend pickle one object; the handlers are tested with dill's pickler.",
     [D], [("all registered handlers", D), ("_save_with_postproc, save_function, save_cell", D)],
     "dominance of attribute reads: every read of a dill-only attribute must be dominated by a test of the pickler on every "
     "abstract path; attributes of the stock pickler are taken from the source of the pickle module",
     "Decides which pickler state is read and that deferred assignments are written; recursive classes, which need dill's queues, are out of scope.")

prop("C24", "Deferred calls and shims are stored as the call they stand for",
     """A deferred call (Reduce) is pickled as exactly the reduction it was given, all items included and under every
     protocol, and copying it gives the object itself; when it is declared callable it can be used as a function, which calls
     what the reduction produces with the given arguments. Getattr stands for the attribute access with the default if one is
     given (also when the default is None). A compatibility shim is stored as the look-up of its name in dill's core module
     with the standard implementation as the default, and a function moved to another module is found there under its name.""",
     ["inputs", "configurations"], "every deferred call and shim, every protocol, with and without a default",
     "The tests reach the shims through one or two handlers of one interpreter version only.",
     ["dill/_shims.py"], [("Reduce, _CallableReduce, Getattr, register_shim, move_to", "dill/_shims.py")],
     TAB, "Decides what is stored; that getattr and the stock pickler honour it is trusted.")

prop("S01", "Session files are opened without following symbolic links",
     """Whenever dill opens a session file by name for writing, it creates it exclusively with owner-only permissions, or, if it exists,
     refuses a symbolic link and truncates it, in a single system call that itself does not follow links. When opening one for
     reading, a symbolic link is refused both before and by the opening call itself. No session
     file is ever opened by name in any other way.""",
     ["inputs", "schedules"], "every path and every state of the file system, including races between check and open",
     "Tests check one symlink; flags that close the race window cannot be observed by a test.",
     [S], [("_safe_open_for_writing, _safe_open_for_reading, _check_symlink", S)],
     PV + "flag-constant propagation into every open call and a who-may-open lint over the session module",
     "Decides flags, permissions and call order on every path; the kernel is trusted.")

prop("S02", "Relying on the default session path always warns",
     """Each of the three session operations (saving a module, loading one, loading one as a dictionary) emits the security
     warning if and only if no file was given and it is therefore about to use the file in the temporary
     directory, before opening it. The same default path is used by all three.""",
     ["inputs"], "every call with and without a file, path or stream",
     "Tests check the warning on part of the entry points.",
     [S], [("_warn_if_default_path", S), ("dump_module, load_module, load_module_asdict", S)],
     TAB, "Decides warning and path on every path of the three functions.")

prop("S03", "Session files dill opened are closed, streams it was given are not",
     """Every file opened by name while saving or loading a session is closed on every exit, normal or exceptional, after it was opened. A stream
     passed in by the caller is used as it is and never closed.""",
     ["fault_sequences", "inputs"], "every exception that can end a save or load, for names and for streams",
     "Tests do not fail in the middle of a save or load and do not check the descriptors.",
     [S], [("try/finally in dump_module, load_module, load_module_asdict", S)],
     "resource typestate over all normal and exceptional paths",
     "Exceptions are modelled at every call, subscript and attribute access inside the protected region.")

prop("S04", "Loading a session as a dictionary leaves the original module alone",
     """Loading a saved module as a dictionary never modifies the module of that name: the state is loaded into a temporary
     module, and afterwards, also after a failure, the module table holds exactly what it held before. With the update option the dictionary starts
     from a copy of the current module, without it from an empty module. Loading into a runtime module removes
     its temporary entry from the module table on every exit.""",
     ["inputs", "fault_sequences"], "every saved module (main, package submodule, runtime), every failure during the load",
     "Tests cover main and a successful load.",
     [S, D], [("load_module_asdict, load_module", S), ("_import_module lookup order", D)],
     "resource typestate of the module table over all normal and exceptional paths, plus " + TAB,
     "The effects of executing the pickle itself are not analysed.")

prop("S05", "A session is only loaded into the matching kind of module",
     """Before any state is loaded, the target module is checked against the module named in the session file: a runtime module's state is
     never loaded into an imported module nor the reverse, and names must agree; a mismatch raises a value error and leaves the target
     unchanged. Something that is not a module is refused with a type error, both when saving and when loading. Renamed parameters
     keep working with a warning, and giving both the old and the new name is an error.""",
     ["inputs"], "every combination of target module and session file",
     "Tests cover some of the mismatches.",
     [S], [("load_module checks", S), ("dump_module argument checks", S)], TAB,
     "Decides that each check guards the load on every path.")

prop("S06", "Saving imported objects by reference loses and duplicates nothing",
     """When a module is saved with imported objects by reference, every entry of its namespace goes to exactly one place: kept by value, or recorded as a
     reference under the name it has in its source module together with the name it has here. Constants and references to the module itself
     are never recorded as imports, and the module being saved is never named as the source. On loading, each recorded reference is bound back to its own name, and the
     records are removed from the module.""",
     ["inputs"], "every module namespace and every state of the imported modules",
     "Tests check one namespace.",
     [S], [("_stash_modules, _lookup_module, _module_map, _restore_modules", S)],
     TAB + "; agreement of the record layouts written and read",
     "Decides the partition per entry and the record layouts; whether an import is the one the user meant is a "
     "heuristic and out of scope.")

prop("S07", "Saving a session always uses the session pickling mode",
     """Saving a module pickles the module that was asked for (main by default), with the configured protocol and the
     caller's pickler options, but always by value and without global recursion regardless of the settings, and tells the pickler whether
     the namespace was filtered. The original module is what functions' globals are matched against.""",
     ["configurations", "inputs"], "every setting and every module kind",
     "Tests save with default settings.",
     [S, D], [("dump_module", S), ("_main_modified/_original_main in save_function", D)], TAB,
     "Decides the pickler attributes set before dumping on every path.")

prop("S08", "Identifying a session never consumes the stream",
     """Finding out which module a session file holds reads ahead without consuming: afterwards the stream is at the position it had before, whatever
     kind of stream it is. A stream that cannot be peeked is accepted only if the caller
     named the module, and a file that is not a session raises an unpickling error.""",
     ["inputs"], "every kind of stream: buffered, seekable, raw, and not seekable",
     "Tests use two kinds of stream.",
     [S], [("_identify_module, _make_peekable, _PeekableReader", S)], TAB,
     "Decides stream operations and their order on every path; the io module is trusted.")

prop("D01", "Capturing a stream always gives it back",
     """While output is captured the named stream is replaced by a buffer, and the original stream object is put back on every
     exit from the context, also when the body raises or replaces the stream itself. Only the named
     stream is touched.""",
     ["fault_sequences", "inputs"], "every stream name and every way to leave the body",
     "No test leaves the context with an exception.",
     [TP], [("capture", TP)], "resource typestate over all normal and exceptional paths of the context manager",
     "Decides save and restore on every path.")

prop("D02", "Temporary dump and load helpers are inverses on the same file",
     """An object dumped to a temporary file or buffer is completely written and flushed before the handle is returned, and loading reads exactly that
     file or buffer from its beginning, accepting the handle or its name (or the buffer or its contents). Source dumps append the name marker line that source
     loads read when no alias is given. Options meant for the file are passed to the file.""",
     ["inputs"], "every object and every option accepted by the helpers",
     "Tests use two objects with default options.",
     [TP], [("dump/load, dumpIO/loadIO, dump_source/load_source, dumpIO_source/loadIO_source", TP)], TAB,
     "Decides the file operations, their order and the marker on every path; that importable source runs is out of scope.")

prop("D03", "Global references of a function are found completely",
     """The globals reported for a function include every name that its code refers to (with recursion: also nested code, functions
     it refers to, and functions held in its closure) that exists in its global namespace, and none
     that this code does not name, each with its current value, and builtins are included only on request. Empty cells and self-references are
     skipped without failing, and anything that is not a function, method or code object yields an empty result.""",
     ["inputs"], "every function, closure and code object, with every combination of the options",
     "Tests check a few functions; pickling with recurse depends on this being complete.",
     [DT], [("globalvars, nestedglobals, nestedcode, freevars, code", DT)], TAB,
     "Decides which sources of names and values contribute on each path; the disassembler's text is trusted.")

prop("D04", "Diagnostic helpers agree with an actual pickling attempt",
     """An object is reported as picklable only if a copy was actually made with the given options and compares equal (arrays: in all elements) or, unless an exact
     match is required, has the same type (or a type of the same representation); in safe mode any exception, otherwise only
     pickling-related ones, is turned into a negative answer. The helpers that list bad items, objects, types or errors report exactly
     those members for which that test fails, pass its options on unchanged, and descend one level less each time. At depth 0 they give the object
     or type itself, or the exception raised by copying it or by the copy differing in type (or, if an exact match is required, in value), and None if there is nothing wrong.
     The check in another process dumps the object with the options it is given and loads exactly that pickle with the given interpreter.""",
     ["inputs"], "every object, depth and option combination",
     "Tests use default options.",
     [D, DT], [("pickles, check", D), ("baditems, badobjects, badtypes, errors", DT)], TAB,
     "Decides the decision structure; comparing copies is user code.")

prop("D05", "Reference chains respect type, depth and ignore arguments",
     """Searching for parents (objects the given one refers to) or children (objects that refer to it) follows actual references only and returns the chain to the nearest object of the requested
     type, in the order of the references: each member refers to the next, so a chain of parents starts with the given object and a chain of children ends with it. It stops at the given depth,
     visits each object once, and never passes through an object in the ignore argument, whether that is a single object (without a length) or a collection, nor through the search's own bookkeeping. If nothing is found the chain holds just the
     object itself, and asking for the parent then gives None.""",
     ["inputs"], "every object graph, depth and ignore argument",
     "Tests check two chains.",
     [PT], [("find_chain, parents, children, parent, reference", PT)], TAB,
     "Decides how arguments and the search state are used; the garbage collector's reference lists are trusted.")

prop("D06", "Difference tracking reports exactly what changed",
     """After an object was memorised, asking what changed reports no change if its attributes and items, and those of everything it holds, are the very objects they were. It reports each attribute that
     was added, replaced or whose value itself changed, under its name with its value now, each removed attribute with None, and that the items changed exactly
     if one was added, removed, replaced or itself changed. Objects are compared by identity and cyclic objects are handled. An object never memorised counts as changed in the simple form and is refused with a runtime error
     otherwise. Memorising again leaves what is recorded unless forced. Modules imported later are memorised when they are imported, and the import returns what it would have returned.""",
     ["inputs", "histories"], "every memorised object graph and every later change of it",
     "Tests change four objects; which change on which kind of object is missed is not sampled.",
     ["dill/__diff.py"], [("memorise, get_attrs, get_seq", "dill/__diff.py"), ("whats_changed, has_changed", "dill/__diff.py"),
                          ("_imp", "dill/__diff.py")], TAB,
     "Decides what is recorded and compared on each path; containers that create their items when they are iterated (numpy arrays, ranges) are "
     "out of scope.")

prop("D07", "dill.types holds the types asked for, older names keep their meaning",
     """load_types puts the examples of the pickleable types into dill.objects exactly if pickleable is set, those of the others exactly if unpickleable
     is set, and takes them out otherwise (also if they aren't there); the types that dill itself registers are in it in every case. After that every name
     of a type is removed from dill.types, and the module is loaded again from dill.objects, so that types of earlier calls don't stay. The older functions getimportable, likely_import and _likely_import
     call importable, getimport and _getimport with all their arguments: by name means no source, passive means no verification, explicit means also for builtins.""",
     ["histories", "inputs"], "every sequence of calls and all options",
     "No test calls load_types more than once or uses the older names with options.",
     ["dill/__init__.py", SRC], [("load_types", "dill/__init__.py"), ("getimportable, likely_import", SRC)], TAB,
     "Decides what is changed on each path; what the examples in dill._objects are is not decided.")

prop("D08", "Calls that were possible keep their meaning: names, order and defaults of parameters",
     """Every name that dill and its modules export is defined, and dill.X is the same object as dill._dill.X. Each public function can be called as
     documented: its parameters keep their names and their order, those with a default keep it (an option of None means the global setting), further
     arguments and keywords that were accepted still are, and parameters that are added have a default. The file modes are 0, 1 and 2, as in older pickles.""",
     ["inputs"], "every call of a public function: by position, by keyword, or with options left out",
     "Tests call with few combinations of options, mostly by keyword, and leave most defaults unread.",
     ["dill/__init__.py", "dill/_dill.py", "dill/detect.py", "dill/pointers.py", "dill/session.py", SRC, "dill/temp.py"],
     [("dump, dumps, load, loads", "dill/_dill.py"), ("names exported", "dill/__init__.py"), ("children, parents", "dill/pointers.py")],
     "comparison of the signatures in the syntax tree (names resolved through imports, defaults evaluated as literals) with the documented ones",
     "Decides what is bound when a call leaves options out; what the function does with the values is decided by the other properties.")

prop("E01", "Indenting and outdenting source code moves the lines and changes nothing else",
     """Outdenting removes from each line exactly the number of leading blanks asked for, or as many as the line has if it has
     fewer; by default, or if more blanks than the first line has (or a negative number) are asked for, the number is that of the first line. Only leading spaces, tabs and form feeds are
     ever removed, one character for each, and never a line end: blank lines stay. With all=False only the first line is
     outdented, otherwise every line is. Indenting puts the blanks asked for in front of the lines that are indented at least as far as the first (others are left alone) and only empties a last line that is blank.""",
     ["inputs"], "every text, number of blanks and line",
     "Tests outdent two functions indented with spaces; tabs, blank lines and other numbers are not sampled.",
     [SRC], [("_outdent, outdent, indent", SRC)],
     PV + "decides the amount removed for every order of the numbers involved",
     "Decides what is removed from a line on every path; lines inside of multi-line strings are lines like the others.")

prop("E02", "Inspecting source code never alters the cached lines",
     """The lists of lines that linecache holds are shared by everything in the process that reads source. dill.source never changes one,
     directly or through a function it hands it to, and getblocks, getsourcelines and getsource return lists or text of their own, so
     that asking for the source of the same object again gives the same answer, whatever options were used or whatever the caller did with the result.""",
     ["histories", "inputs"], "every sequence of inspections",
     "Tests look at each object once.",
     [SRC], [("findsource, getblocks, getsourcelines, getsource", SRC)],
     "ownership analysis of the lists obtained from linecache: no path stores into one, passes it to a function that stores into "
     "its parameter, or returns it from getblocks and its callers",
     "findsource itself returns the list linecache holds, as the function of the same name in inspect does.")

prop("E03", "Import lines, names and source text bind the requested name to the requested object",
     """The import found for an object imports the last part of its qualified name (or the name its repr starts with) from the
     module part, or, if that failed, the same name from a parent; builtins are named without an import unless it is forced. If
     an alias is given and differs from the name, the line (or the source text) binds the alias, and it binds no
     other name; without an alias nothing is renamed. An instance gives the import of its class followed by its repr. The line tested (only if verification is asked for) is the line
     returned. getsource reports a source that cannot be found unless forced, and outdents exactly if asked to or if an alias is given. The name of an
     object is its __name__, the pointer of a lambda, or with force its repr unless that has the form <...>.""",
     ["inputs"], "every object, alias and combination of options",
     "Tests compare about sixty strings; the options have more combinations than that.",
     [SRC], [("_getimport, getimport, _importable", SRC), ("getsource, getname", SRC)], TAB,
     "Decides the text as a function of the names found and the options on every path; whether the name found at run time is the "
     "right one is not decided.")

prop("E04", "Only names are executed when imports are looked for",
     """Wherever dill executes text made from the names, the class, the module or the repr of an object in order to find its import or source, every part that comes from the object
     is first known to be a name, or names joined with dots. An object whose repr holds other code never has it executed by getimport, importable or getsource,
     and dill executes text nowhere else, save where its purpose is to evaluate source: comparing a lambda with its source, loading a stored source or repr, and wrapping a function in its source.""",
     ["inputs"], "every object with any repr, class name and module name",
     "Tests use objects with harmless names.",
     [SRC], [("_getimport, getsource", SRC), ("all calls of exec and eval", "dill")],
     "taint analysis: every exec and eval call of the package is enumerated; each non-constant part of the text must be dominated "
     "by an isidentifier test on every path",
     "Decides what is tested before text is executed; importing the module named is intended.")

prop("E05", "Import and source are each tried at most once, for the object asked for",
     """importable looks for the source of objects of __main__ first and for the import of others first, unless told which to prefer;
     builtin functions are imported if builtin is set. If the first way fails the other one is tried once, for the same object and with
     the same alias, and if both fail the error is raised; it never returns nothing and never loops. An import is given only if a single one is found. With the source comes that of the globals the object refers to, in front of it, and no source found is left out. An object counts as built in __main__ exactly if its
     module is __main__, and as dynamic exactly if it also comes from the interpreter's standard input.""",
     ["inputs", "fault_sequences"], "every object and every failure of either way",
     "In the tests the first way works.",
     [SRC], [("importable, isfrommain, isdynamic", SRC)], "state machine of the ways tried, over all paths including every "
     "exception: order, number, arguments and what is returned",
     "Decides which way is tried in which state; what each way finds is E03.")

prop("E06", "Dumped source holds the unaltered pickle of the object and binds the requested name",
     """dumpsource gives code that imports dill and loads the pickle that dumps makes of the very object, byte by byte, bound to the alias
     if there is one. For a new instance (and not enclosed) the source of its class comes first; enclosed, the object is made inside
     a function which is called and deleted, whose result is bound to the alias, and the name it returns is the one assigned inside.""",
     ["inputs"], "every object, alias and combination of options",
     "Tests dump three objects.",
     [SRC], [("dumpsource, _enclose", SRC)], TAB,
     "Decides the text on every path; a pickle whose bytes are edited as text is a recorded finding.")

prop("E07", "Source lines and line numbers go together",
     """getsourcelines gives the last block of code found for an object together with its line number: the number of the line of the file
     (counted from 0) at which that block starts. A module is all lines of its file, from line 0. Otherwise the block starts at the line found for the object;
     if enclosing code is asked for, at that of a function whose code contains it and that isn't indented more. The lines are outdented exactly if
     lstrip is set, and line numbers are given exactly if locate is. The lines are those of the file the object comes from, and never none (that's an error). For code with a file
     the search goes upward from its first line and stops at the first line that starts a function, lambda or decorator; in the interpreter's history it goes upward from the last line
     and stops only at a line that also has the name of the function (or the code of the lambda), or at its first decorator; a class is found at the last definition that isn't indented, else at the one with the least
     indentation.""",
     ["inputs"], "every object, file and history, with every combination of options",
     "Tests compare the lines of a few functions of the test file; no test looks at a line number, or at a history.",
     [SRC], [("findsource, getblocks, getsourcelines", SRC)],
     "paths of each kind of object, with each line number and block as a linear term over the line the search started from; the tests made on the lines passed "
     "are compared with those required",
     "Loops are examined for up to two rounds; what inspect.getblock takes for a block is not decided.")

prop("E08", "Objects are classified and qualified by what they are",
     """An object counts as an instance exactly if it isn't code, a class, a module, a traceback or a frame, comes from a module other than the builtins and isn't an array,
     or if it is a value of numpy. A name is in types exactly if the module types has it (ellipsis as EllipsisType). The qualified name of a module is its name;
     of anything else with a name, its module followed by that name, or types if it's a builtin that is found there; inf and nan belong to numpy;
     of any other object it is that of its class, with the module in front for builtins (types if it's found there).""",
     ["inputs"], "every object",
     "Tests ask for the names of about twenty objects.",
     [SRC], [("_isinstance, _intypes, _namespace", SRC)], TAB,
     "Decides which name is given for which answers of inspect; str(module) and str(class) are taken for what they show.")

prop("E09", "The parts of a closure are found under their own names",
     """For a function with free variables, the source parts given are: once, those of all variables that aren't functions, each bound to the name of the variable; for each
     variable that is a function, the pair of its own code, bound to the name of the variable, and that of the target (the other way round, with what it
     refers to, if it is decorated); the target alone if there is no such function. The import given for a function is that of the name it is given for: the name it is assigned to in the file
     of the module it is imported from, or its own import; the alias and builtin asked for are kept.""",
     ["inputs"], "every function with any free variables, alias and option",
     "Tests use closures over one function or one number.",
     [SRC], [("_closuredsource, _closuredimport", SRC)], "paths of each kind of free variable; dict entries are matched with the calls they come from",
     "Decides what is asked for under which name; the line with the assignment is guessed from the text of the file.")

NA = {
    "N01": ("Loading a pickle reproduces an equivalent object",
            "For every picklable object, loading what was dumped yields an object equal in value and behaviour to the original.",
            ["inputs"], "every object graph",
            "Only samples can be compared.", [D],
            "Quantifies over runtime values of arbitrary user types (equality and behaviour after executing the "
            "pickle); no static argument bounds that. Its structural clauses (what each handler stores and how it is "
            "reapplied) are claimed separately as C03-C13."),
    "N02": ("Extracted source code defines the same object",
            "The source text extracted for an object, when executed, defines an object that behaves as the original.",
            ["inputs", "programs"], "every object and every way its source can be written",
            "Only samples can be compared.", ["dill/source.py"],
            "The extraction is a textual heuristic over arbitrary user source files (line matching, evaluation of candidate "
            "snippets); its truth depends on the text found at run time, not on the shape of dill's code."),
    "N03": ("A pickle loads the same in another process or interpreter",
            "A pickle written in one process loads to an equivalent object in a fresh process, or in any other supported interpreter version.",
            ["configurations", "inputs"], "every pair of processes and interpreters",
            "Tests run one interpreter.", [D],
            "Depends on what the other process can import and on bytecode compatibility between interpreters, which the source "
            "of dill does not determine; layout compatibility is claimed as C04 and C14."),
}

# checks that exist so far (kept in step with dillcheck/rules)
from .rules import RULES  # noqa: E402


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for pid in sorted(P):
            d = {k: v for k, v in P[pid].items() if k not in ("technique", "note")}
            f.write(json.dumps(d) + "\n")
        for pid, (t, s, over, q, why, files, _) in sorted(NA.items()):
            f.write(json.dumps(dict(id=pid, title=t, statement=s,
                                    quantifier={"over": over, "text": q}, why_tests_cant=why,
                                    anchors={"files": files, "mechanism": []})) + "\n")
    checks, na = [], []
    for pid in sorted(P):
        p = P[pid]
        if pid in RULES:
            checks.append(dict(property=pid, quick_cmd="python3 -m dillcheck " + pid,
                               thorough_cmd="python3 -m dillcheck %s --tier thorough" % pid,
                               technique="static analysis: " + p["technique"], level="other",
                               level_note=p["note"]))
        else:
            na.append(dict(property=pid, reason="not armed yet: the rules for this property are still being built"))
    for pid in sorted(NA):
        na.append(dict(property=pid, reason=NA[pid][6]))
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
