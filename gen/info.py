CHECKS = {
 'C01': ('per-entry conformance: abstract interpretation of every table entry and every jni.h wrapper against the operation its name states', 'Static, all paths of all entries of both tables, the invoke interface and 200+ wrappers; the slot prototypes themselves are enforced by the compiler.'),
 'C02': ('partial evaluation per descriptor letter of every place that dispatches on one, compared with a single type table; bit provenance of the unions written', 'Static, all eleven letters in every dispatcher (variadic unpacking, skipping, both invocation switches, natives, defaults, stubs in both syntaxes) and every type trait; va_arg in its x86-64 form.'),
 'C03': ('abstract interpretation of exceptional edges: every dispatch of a method handle reaches a catch-all that stores the exception and returns the default', 'Static, all paths of all Call entries of both tables.'),
 'C04': ('abstract interpretation: lock sets per path and a whole-program lock-order graph', 'Static, path-sensitive over every function using a mutex; calls under a lock contribute what the callee may transitively take.'),
 'C05': ('abstract interpretation: guarded-access analysis with obligations passed to callers', 'Static, path-sensitive; covers every function reachable from a JNI table entry, invocation entry or escaping address.'),
 'C06': ('abstract interpretation: net effect of every path on a symbolic frame stack', 'Static, path-sensitive over all paths of every function touching the frame lists; trusts the C++ standard containers and the models in engine/models.py.'),
 'C07': ('abstract interpretation: origin of every handle on every path, with the pushes and drops of the same path; owner rule for every shared pointer made of a raw one', 'Static, path-sensitive over every handle-returning entry, every instantiation of the registering conversions, hook wrappers, defaults and host-side calls.'),
 'C08': ('abstract interpretation: effect and provenance of every path of the reference functions', 'Static, path-sensitive; who-may-touch rule on the reference tables over the whole call graph.'),
 'C09': ('abstract interpretation: handle provenance and type-check dominance on every path', 'Static, path-sensitive over every function with a handle parameter; every instantiation of the resolving casts is checked on its own.'),
 'C10': ('abstract interpretation: the name walk of the class search judged edge by edge; who-may-touch rules on class tables, class names and the type table', 'Static, path-sensitive over the class search and every function of the tree touching classes, their names or tables.'),
 'C11': ('abstract interpretation: search loops judged edge by edge against the request; provenance of what is returned or created', 'Static, path-sensitive over the id lookups of both tables, their recursion into bases and the hook registration templates.'),
 'C12': ('abstract interpretation with constant mode flags over the call graph of every lookup-only entry: no creating effect on any path', 'Static, all paths of everything reachable from the lookup-only entries.'),
 'C15': ('abstract interpretation: provenance of every thread-table key and entry, effect of every path of attach, detach and the scoped contexts', 'Static, all paths of every user of the thread table, the factories and the scoped contexts (constructors and destructors).'),
 'C16': ('abstract interpretation: the owner slot of every function table followed through constructors, overrides and factories', 'Static, all paths; factory loops judged edge by edge; no other code may make an environment.'),
 'C17': ('abstract interpretation: typestate of every library instance on all paths of its constructor and destructor; ownership rule on the library table', 'Static, path-sensitive; only the supplied loader functions may be called by any function of the library.'),
 'C18': ('abstract interpretation: creation dominated by lookup and deny query; predicate semantics from branch facts per filter', 'Static, path-sensitive over every entry of the filtering VM; the deny predicates are analysed with case splitting on every comparison.'),
 'C19': ('abstract interpretation: lock effect per path plus who-may-touch rule on object monitors', 'Static, path-sensitive over both table slots and every user of an object monitor.'),
 'C20': ('abstract interpretation: effect of every loop iteration of native registration and removal, judged on the established comparisons', 'Static, path-sensitive over RegisterNatives/UnregisterNatives and every function writing or calling a native function.'),
 'C21': ('abstract interpretation: provenance of the dispatched member; search loops and base walk judged edge by edge', 'Static, path-sensitive over all instance and non-virtual Call entries of both tables and every search function they use.'),
 'C22': ('partial evaluation of every tolerant table entry with a null id or handle: no path dereferences the null', 'Static, all paths of every Call/Field/array/string entry that promises tolerance, with the null assumed as a fact and propagated through callees.'),
 'C23': ('per-instantiation analysis of 240 hook wrappers and 150 registrations: each argument of the hook is traced to its slot, each stored wrapper to the signature text it is registered under', 'Static, all paths of every wrapper and registration instantiated by the witness (about 125 callables of every shape and parameter type); other callables instantiate the same templates.'),
 'C24': ('abstract interpretation: last write to the pending exception on every path', 'Static, path-sensitive over every function that touches the pending exception.'),
 'C25': ('abstract interpretation of every array life cycle (allocation, copy, assignment, release) per element type; memory-region terms of the JNI array functions; virtual-table conformance of arrays of classes', 'Static, all paths of witness life cycles for 8 primitive and 6 class element types, all JNI array entries and every array virtual table; index bounds are the caller\'s (C31).'),
 'C27': ('abstract interpretation: which accessor and which receiver every Get/Set field path dispatches to, under which established id kind', 'Static, all paths of the 36 field entries and of the accessor search.'),
 'C28': ('abstract interpretation of the recursive subtype walk, each answer judged on the edges it is returned from; witness instantiations of declared base lists', 'Static, all paths of the subtype functions; loops judged edge by edge.'),
}
NA = {
 'C29': 'Linearizability quantifies over the order of whole histories of concurrent calls; no sound static argument in reach decides it. Its structural part (which table is touched under which lock) is claimed as C05.',
 'C30': 'Whether the text generated at run time for arbitrary recorded symbols compiles is a property of generated programs, not of the shape of the generator; the agreement of the generator parts is claimed as C26.',
 'C31': 'The library performs no bounds checks by design (indices are trusted like in a non-checking JVM); bounds depend on run-time lengths, and a static rule would report every access of the tree.',
}
