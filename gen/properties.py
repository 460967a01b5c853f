#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

VM='src/jnivm/vm.cpp'; ME='src/jnivm/internal/method.cpp'; FI='src/jnivm/internal/field.cpp'
AR='src/jnivm/internal/array.cpp'; ST='src/jnivm/internal/string.cpp'; SU='src/jnivm/internal/stringUtil.cpp'
FC='src/jnivm/internal/findclass.cpp'; JT='include/jnivm/jnitypes.h'; WR='include/jnivm/wrap.h'; HM='include/jnivm/hookManager.h'
FJ='src/fake-jni/fake-jni.cpp'; FV='src/fake-jni/jvm.cpp'; BA='src/baron/jvm.cpp'; EN='src/jnivm/env.cpp'; JM='src/jnivm/method.cpp'

prop('C01', 'Every JNI table entry performs the operation its name states',
 "For every function in the JNI interface tables and every C++ convenience wrapper over them, a call reaches exactly the operation, value type, static/instance/non-virtual form and argument-passing form that the entry's name states. The caller's arguments are forwarded in their order and the operation's result is returned unchanged. This holds for both symbol-creation modes of the VM.",
 ['inputs','configurations'], 'All ~230 table slots times both symbol-creation modes, all C++ wrapper methods, any argument values.',
 'The suite calls a few dozen of the 230 slots, mostly for int/object and mostly through one argument form; most type/form combinations are never executed.',
 ['include/jni.h', VM, ME, FI, AR, ST], [('compile-time table factory', VM), ('inline forwarding wrappers', 'include/jni.h')],
 [('native interface table','slot -> function', 'include/jni.h')], ['every JNIEnv/JavaVM call'])
prop('C02', 'A type descriptor letter denotes the same JNI type everywhere',
 "Everywhere a JNI signature is produced, parsed or executed (hook registration, argument unpacking from variadic calls, typed invocation of methods and natives, default return values, generated stubs), each type letter denotes the same JNI type. A value of that type is always read and written through the matching union member, with that type's width and default argument promotion, and one descriptor is consumed per argument.",
 ['inputs','programs'], 'Every descriptor letter at every signature position, in every table that interprets letters.',
 'Tests use a handful of signatures; a disagreement for one letter in one of the eight independent tables needs exactly that letter in that code path.',
 [JT, 'src/jnivm/internal/jValuesfromValist.cpp', 'src/jnivm/internal/skipJNIType.cpp', JM, 'include/jnivm/method.h', ME, FI, 'src/jnivm/internal/codegen/parseJNIType.cpp'],
 [('per-type traits', JT), ('va_list unpacking switch', 'src/jnivm/internal/jValuesfromValist.cpp'), ('typed invocation switches', JM), ('stub type table', 'src/jnivm/internal/codegen/parseJNIType.cpp')])
prop('C03', 'Hook exceptions become the pending exception and never escape a Call',
 "An exception thrown by a hooked method never propagates out of the Call*Method function that ran it. Whatever the call form, return type and dispatch kind, that very exception becomes the calling thread's pending exception and the call returns the return type's default value.",
 ['inputs','fault_sequences'], 'All return types, dispatch kinds and argument forms; any thrown object at any hook.',
 'Only two or three of the 90 call entry points are exercised with a throwing hook.',
 [ME], [('catch-all in each dispatcher', ME)], [('pending exception','per-thread exception slot','include/jnivm/env.h')], ['Call*Method*, ExceptionCheck, ExceptionOccurred'])
prop('C04', 'VM and class locks are always released and never self-deadlock',
 "Every internal lock a call takes is released on every way out of it, exceptional exits included. A thread never requests a non-recursive internal lock it already holds, and the VM-wide lock and per-class locks are nested in one consistent order, so no call can block forever on the library's own locks.",
 ['schedules','inputs','fault_sequences'], 'Every path, including exceptional ones, through every JNI and host entry point; every pair of threads.',
 'A re-acquisition or leaked lock on a rarely taken path (error, miss, throwing base list) hangs only when that path runs; order inversions need a particular interleaving.',
 [VM, ME, FI, FC, JT, 'include/jnivm/env.h', 'include/jnivm/extends.h'], [('scoped guards on the VM-wide and per-class mutexes', VM)],
 [('VM lock','guards VM-wide tables','include/jnivm/vm.h'), ('class lock','guards member tables','include/jnivm/class.h')])
prop('C05', 'Shared VM and class tables are only touched under their lock',
 "While several threads use JNI, the tables of known classes, global references and attached threads are read and changed by JNI calls only while the VM-wide lock is held, and a class's method, field and native tables only while that class's lock is held.",
 ['schedules'], 'Every JNI entry point and path, any number of threads and any interleaving.',
 'A missing lock shows up as a race only under specific interleavings; the suite is single-threaded apart from two attach tests.',
 [VM, ME, FI, FC, AR], [('lock before table access', VM)],
 [('class registry','name -> class, namespace tree','include/jnivm/vm.h'), ('globals','global reference roots','include/jnivm/vm.h'), ('thread table','thread id -> environment','include/jnivm/vm.h'), ('member tables','methods, fields, natives of a class','include/jnivm/class.h')])
prop('C06', 'Local reference frames form a proper, never-empty stack',
 "PushLocalFrame adds exactly one empty frame and PopLocalFrame removes exactly the newest one, dropping the references it held; new local references always go to the newest frame. The object passed to PopLocalFrame survives and is handed back as a reference owned by the previous frame, and a thread always has at least one frame however often frames are popped.",
 ['histories'], 'All sequences of push, pop, new and delete local reference, including unbalanced pops and frame reuse.',
 'Tests push and pop a few frames in one order; frame recycling, over-popping and result promotion combine over unbounded histories.',
 [VM, JT, 'include/jnivm/env.h','include/fake-jni/fake-jni.h'], [('frame push/pop with recycling', VM), ('reference registration', JT)],
 [('frame stack','frames of strong references','include/jnivm/env.h'), ('recycled frames','cleared frames kept for reuse','include/jnivm/env.h')])
prop('C07', 'Every object handle given to native code is kept alive',
 "Whenever a JNI call, hook return or argument conversion hands an object handle to native code, the object is at that moment strongly held: by the newest local frame, by the global reference table, or by a VM-lifetime owner such as a registered class. No handle is produced from an object whose only owner ends with the call.",
 ['inputs','histories'], 'Every JNI function that returns a handle, every hook return conversion and every converted raw-pointer argument.',
 'A dangling handle frequently still works in a test because freed memory is not reused; only some producers are executed.',
 [JT, VM, FC, ME, AR, ST, 'src/jnivm/internal/bytebuffer.cpp'], [('register strong reference before returning the handle', JT)],
 [('newest frame','roots of local handles','include/jnivm/env.h'), ('globals','roots of global and weak handles','include/jnivm/vm.h')])
prop('C08', 'Global references pin, weak references do not, deletion is exact',
 "A global reference keeps its object alive until it is deleted and a weak global reference never does; a weak reference to a dead object resolves to null. Deleting a reference removes one entry of exactly that reference's own kind and identity, and leaves every other reference to the same object valid.",
 ['histories','inputs'], 'All histories of creating and deleting global, weak and local references to any objects.',
 'Tests create one reference of each kind; ownership mistakes only surface after particular delete orders.',
 [VM, JT, 'include/jnivm/weak.h'], [('wrapper objects in the global table', VM), ('kind-checked unwrapping', JT)],
 [('globals','table of global and weak wrappers','include/jnivm/vm.h')])
prop('C09', 'An object handle is never used as a type it is not',
 "Any object handle passed by native code is resolved through weak and global wrappers and then checked against the C++ class the operation needs; a mismatch raises an error and is never silently reinterpreted. References created by the VM are classified by GetObjectRefType as what they are.",
 ['inputs'], 'Every JNI function taking object handles and every hook parameter, for every dynamic type and reference kind of handle.',
 'Tests pass matching types; a missing check is undefined behaviour only when the wrong kind of handle is passed.',
 [JT, VM, 'include/jnivm/array.h', AR], [('checked unwrapping', JT)])
prop('C10', 'One class object per name; class tables stay consistent',
 "Looking up the same class name always yields the same class object, whether it is found by name, created on demand, named in a signature or registered natively. A class created on demand is recorded under its full name in the VM's class table, carries that full name, and its short name is the last path component.",
 ['histories','inputs'], 'All sequences of lookups and creations over arbitrary class names, nested and array names included.',
 'Tests look up a few fixed names; duplicates appear only for particular combinations of nested, array and namespaced names.',
 [FC, VM, 'include/jnivm/env.h'], [('find-or-create', FC)], [('class table','full name -> class','include/jnivm/vm.h'), ('namespace tree','path -> classes','src/jnivm/internal/codegen')])
prop('C11', 'Members match only on name, full signature and static-ness',
 "A method or field lookup, and the registration of a hook, reuses an existing member only if name, complete signature and static/instance kind are all equal, native methods being distinct from hooked ones. Otherwise the inherited members are consulted before a new member is created or null is returned, and a created member carries exactly the requested name, signature and kind.",
 ['inputs','histories'], 'All combinations of overloads, static/instance twins, native twins and base classes.',
 'Tests contain few overloads; dropping one comparison only matters when two members differ in exactly that attribute.',
 [ME, FI, HM], [('member search predicates', ME), ('find-or-create in hook installation', HM)])
prop('C12', 'Lookup-only queries never create classes or members',
 "In lookup-only mode, and in every query documented as returning null when the symbol is unknown, looking up a class, method or field leaves the set of known classes and members unchanged and yields null for unknown symbols. In creating mode an unknown symbol always yields a usable non-null id.",
 ['inputs','histories'], 'Every lookup entry point in both modes, for arbitrary names and class handles.',
 'Tests check a few unknown names; a side effect on a partially known name (known package, unknown class) needs that exact input.',
 [FC, ME, FI, FJ, 'src/fake-jni/method.cpp'], [('return-null flags', ME), ('return-zero flag', FC)])
prop('C13', 'Modified UTF-8 conversion is lossless for every 16-bit unit',
 "Every UTF-16 code unit is encoded into the one, two or three byte form prescribed by modified UTF-8 (U+0000 as two bytes), never writing beyond the space offered, and decoding that form yields the same unit and the same length. Malformed lead or continuation bytes are rejected with an error instead of being decoded.",
 ['inputs'], 'All 65536 code units and all byte sequences.',
 'Tests convert a few sample strings; a wrong mask or shift is visible only for units in one range.',
 [SU, 'src/jnivm/internal/stringUtil.h', ST], [('bit-pattern encoder/decoder', SU)])
prop('C14', 'String length, region and character functions agree on one traversal',
 "String length, character and region functions step through a string with the same decoder: a unit counted once by the length function is written once by the region functions, to consecutive positions from the requested start. Character buffers handed out are sized by the length function, copies are reported through the copy flag, and buffers are released exactly as they were allocated; a null string yields empty results.",
 ['inputs'], 'All strings, all start/length combinations inside the string.',
 'Tests use short strings, mostly from the start; step and write pointer disagreement needs multi-byte units at particular offsets.',
 [ST, SU], [('decoder-driven loops', ST)])
prop('C15', 'Each attached thread has exactly one environment of its own',
 "Attaching an already attached thread returns its existing environment and attaching a new one creates exactly one; detaching removes only the calling thread's environment. Scoped contexts detach only threads they attached themselves, scoped local frames always pop the frame they pushed, and a thread that ends is detached.",
 ['schedules','histories'], 'Any number of threads and any nesting of attach, detach and scoped contexts.',
 'Tests attach one or two threads; identity mistakes need concurrent or nested attachments.',
 [VM, FJ, FV, 'include/fake-jni/fake-jni.h', BA], [('thread table keyed by the calling thread', VM), ('scoped contexts', FJ)],
 [('thread table','thread id -> environment','include/jnivm/vm.h'), ('thread-local context','current environment','include/fake-jni/fake-jni.h')])
prop('C16', 'An environment or VM pointer always leads back to its own owner',
 "From any JNIEnv or JavaVM the library hands out, the owning environment and VM can always be recovered, also after function tables were overridden, and an override with a foreign owner is refused without changing anything. Every environment of every VM flavour starts from the VM's table with all registered table hooks applied.",
 ['histories','configurations'], 'All VM flavours, all override and hook registrations, all threads.',
 'Tests override once on one VM flavour; the three environment factories are separate code.',
 [EN, VM, FV, BA], [('owner slot preserved on override', EN), ('factory applies hooks', VM)])
prop('C17', 'Native libraries are opened, initialised, finalised and closed in pairs',
 "A library's load hook runs only after it was opened successfully and at most once per opening; its unload hook runs before the library is closed, and every successfully opened library is closed exactly once when it is removed or the VM ends. Only the open, lookup and close functions supplied for that library are used, with statically linked libraries using their name-suffixed hooks in both directions.",
 ['histories','fault_sequences'], 'Any sequence of attach and remove, any failure of open or symbol lookup, any supplied loader functions.',
 'The tests use stub loaders on the success path; failure and statically-linked combinations are barely covered.',
 [FJ, 'include/fake-jni/fake-jni.h'], [('library instance constructor/destructor', FJ)])
prop('C18', 'Denied classes, methods and fields are never fabricated',
 "In a VM with deny filters, a class, method or field that is not already known is created on demand only if no filter denies it; a denied unknown symbol yields null. A filter applies exactly when each of its name, signature and class parts is empty or equals the requested one (a signature or class part left out of the query matches any filter), and this holds for static and instance members and for both the JNI and the host lookup.",
 ['inputs','configurations'], 'All filter sets and all lookups through every entry point of the filtering VM.',
 'Tests register a few filters; wildcards, signatures and class parts multiply.',
 [BA, 'include/baron/baron.h'], [('filtering table overrides', BA), ('filter evaluation', BA)])
prop('C19', 'Monitor enter and exit act once on the same per-object lock',
 "MonitorEnter acquires and MonitorExit releases exactly once the re-entrant lock belonging to the object the handle denotes, whichever kind of reference is used, and both report success only after doing so. Copying an object never copies or shares its monitor, and no other operation of the library acquires or releases monitors.",
 ['schedules','inputs'], 'All reference kinds to an object, all nesting depths, all threads.',
 'Tests lock one object through one reference; mutual exclusion across reference kinds needs threads.',
 [VM, 'include/jnivm/object.h'], [('per-object recursive mutex', 'include/jnivm/object.h')])
prop('C20', 'Native registration binds each name and signature to its function',
 "RegisterNatives records, for each given entry, a native method with exactly that name, signature and function, and nothing else; re-registering a name and signature makes the new function effective. UnregisterNatives removes all native methods of that class, keeps all others, and a failed lookup of a native never invokes anything.",
 ['inputs','histories'], 'All registration arrays, re-registrations and removals on classes with mixed members.',
 'Tests register one or two natives; removal while iterating and re-registration need adjacent entries.',
 [VM, 'include/jnivm/method.h', 'src/fake-jni/method.cpp'], [('registration loop', VM), ('erase loop', VM)])
prop('C21', 'Virtual calls run the most derived hook, non-virtual calls the named one',
 "Through an id that has an implementation, an instance call runs the implementation of that method (same name and signature, instance kind) found first when walking from the object's own class through its base classes; a non-virtual call walks from the class passed to it instead. The walk never stops at a static member or at a member without an implementation, and the given id itself is run only when the walk finds nothing.",
 ['inputs','programs'], 'All class hierarchies, override combinations and call forms.',
 'Tests use two-level hierarchies; intermediate overrides and missing implementations are not covered.',
 [ME], [('overload search', ME)])
prop('C22', 'Null and unresolved ids or null handles never crash a call',
 "Calling a method or accessing a field through a null id, or through an id that has no implementation, does nothing and returns the type's default value. Functions documented to accept a null object, class, string or buffer argument return their neutral result without touching it.",
 ['inputs'], 'All Call*/Get*/Set* entry points with null or unimplemented ids; all null-tolerant parameters.',
 'Tests cover null ids for a few slots only.',
 [ME, FI, AR, ST, VM], [('null guards before each dereference', ME)])
prop('C23', 'Hook parameters receive the caller arguments of their own position',
 "A hooked function receives, after any environment, class or object parameter, the caller's arguments in signature order, each converted from the argument at its own position to the declared parameter type; the hook is registered under a signature that lists those same types in the same order. Its return value is converted to the JNI type of that signature, and setters and getters use the value given or stored, unchanged.",
 ['programs','inputs'], 'All C++ callables: free functions, lambdas, members, const members, properties, with and without leading environment/class/object parameters.',
 'Template code: each callable shape instantiates different code; tests instantiate some shapes.',
 [WR, 'include/jnivm/function.h', HM, JT], [('index-sequence expansion', WR)])
prop('C24', 'The pending exception is exactly the last one raised and not cleared',
 "Throw and ThrowNew make the given throwable the calling thread's pending exception; ExceptionCheck and ExceptionOccurred report exactly whether and which exception is pending, without changing it; only ExceptionClear removes it. An exception pending after an invocation from the C++ side is rethrown to that caller as the original exception.",
 ['histories'], 'All sequences of throwing, checking, clearing and calling on every thread.',
 'Tests check one throw/clear sequence.',
 [VM, ME, 'include/jnivm/method.h'], [('per-thread exception slot','include/jnivm/env.h')])
prop('C25', 'Array memory has one owner and arrays never hold foreign types',
 "The storage of every array is allocated with the element type and length of the array and released exactly once when the array dies, except storage explicitly lent by the host. Element and region access of primitive arrays addresses that storage at the requested element offset with the element's size, and storing an object of an unrelated class into an object array through any of its base-class views is rejected.",
 ['inputs','histories'], 'All element types, lengths, views and stores.',
 'Tests use int and object arrays; leaks are invisible and covariant stores need mixed hierarchies.',
 [AR, 'include/jnivm/array.h'], [('owner flag and typed delete', 'include/jnivm/array.h'), ('checked covariant store', 'include/jnivm/array.h')])
prop('C26', 'All parts of a generated class stub describe the same members',
 "When stubs are generated from the recorded usage, declaration, implementation and binding cover the same classes and members: a class skipped in one part is skipped in all, natively registered methods appear in none, and static-ness, name and signature are taken from the recorded member everywhere.",
 ['histories','configurations'], 'All recorded sets of classes and members, both output flavours.',
 'One sample program is generated and compiled; other combinations are not.',
 ['src/jnivm/internal/codegen/class.cpp','src/jnivm/internal/codegen/method.cpp','src/jnivm/internal/codegen/field.cpp','src/jnivm/internal/codegen/namespace.cpp','src/jnivm/internal/codegen/vm.cpp'], [('sibling generators','src/jnivm/internal/codegen')])
prop('C27', 'Field access uses the right accessor and refuses a wrong id kind',
 "Reading or writing a field through an id runs that field's getter or setter for exactly that object or class with exactly the given value. Using a static id on an instance or an instance id on a class is a fatal error before any accessor runs.",
 ['inputs'], 'All field types, both kinds of id on both kinds of access.',
 'Only a few of the 36 accessors are exercised and none with a mismatched id.',
 [FI], [('kind check before accessor', FI)])
prop('C28', 'Subtype answers follow the declared base classes transitively',
 "IsAssignableFrom and IsInstanceOf answer true exactly when the second class is the first or is reachable from it through declared base classes, at any depth and through any of several bases; GetSuperclass returns the first declared base or null. A null object is an instance of nothing and asking never changes the hierarchy.",
 ['programs','inputs'], 'All class hierarchies.',
 'Tests check one or two levels of single inheritance.',
 [VM, 'include/jnivm/extends.h'], [('recursive base walk', VM)])
prop('C29', 'Concurrent use is linearizable per table operation',
 "Concurrent JNI calls behave as if each lookup, creation, attach or reference operation happened atomically at one moment.",
 ['schedules'], 'All interleavings of all calls.', 'Needs exploration of interleavings and histories.',
 [VM, ME, FI], [('VM and class locks', VM)])
prop('C30', 'Generated stubs compile and rebind every recorded symbol',
 "The stub source generated from any recorded usage compiles and, when linked, hooks every recorded member under the recorded signature.",
 ['histories'], 'All recorded usages.', 'Only one sample is generated and compiled.',
 ['src/jnivm/internal/codegen'], [('text generators','src/jnivm/internal/codegen')])
prop('C31', 'Out-of-range indices and lengths never touch foreign memory',
 "Array element, array region, string region and direct buffer accesses with any start, length or index never read or write outside the object's storage.",
 ['inputs'], 'All indices, starts and lengths.', 'Tests stay in range.',
 [AR, ST], [('none: the library trusts the caller, as JNI without checks does', AR)])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
