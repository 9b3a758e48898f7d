TRUST = ("Decides the rules for every path of the analysed functions of the current source; trusts the abstract interpreter, its model of "
         "Python/sqlite3/pandas/joblib operations, and the assumptions listed in the evidence file.")

prop("C01", "A call's identity is determined by op, versions and every argument",
     "The identity under which a call is recorded and looked up is determined by the op's name, the op's version number, the name and identity of every "
     "argument that is not explicitly ignored (defaults included), and, in a versioned storage, the semantic version of the code that runs; storing and "
     "looking up compute it the same way. Calls that differ in any of these never share a record, and the identity of each output is determined by the "
     "identity of its call and the output's name.",
     ["inputs", "programs", "histories"], "all ops, signatures, argument values, defaults, variadic arguments and code versions",
     "Collisions need a particular pair of calls (same values under different names, variadic positions, versions); the tests store a handful of calls that "
     "differ in several components at once.",
     ["mandala/model.py", "mandala/storage.py"],
     [("call history/content ids", "Op.get_call_history_id, Op.get_call_content_id"), ("output ids", "Op.get_output_history_ids"),
      ("argument parsing", "Storage.parse_args"), ("lookup", "Storage.lookup_call"), ("record construction", "Storage.call_internal")],
     observe=["Storage.lookup_call", "Storage.call_internal", "calls table"],
     technique="value-flow (injectivity) analysis of identity terms; path rule over argument loops",
     note=TRUST)

prop("C02", "Identities of values and collections depend on content and are kept by copies",
     "A value's content identity is a hash of the whole value (of the id, for a ValuePointer) and its default history identity derives from it; a list's "
     "identities determine those of its elements in order, a dict's those of its values under their keys, independent of insertion order. Copying, detaching, "
     "attaching, loading and taking apart a ref keep both identities (and, when loading, those of its elements). A call found by equal content gets the "
     "identities of the call asked for, and so do its inputs and outputs.",
     ["inputs", "histories"], "all values, nested collections, ref copies and content hits",
     "A wrong identity shows only when two particular values, orders or histories meet in one storage; tests compare a few values.",
     ["mandala/model.py", "mandala/storage.py", "mandala/utils.py"],
     [("content hash", "utils.get_content_hash"), ("wrapping", "model.wrap_atom"), ("collections", "model.__make_list__, __make_dict__"),
      ("copies", "Ref.detached, attached, shallow_copy, with_hid, shape; Call.detached"), ("content hits", "Storage.lookup_call")],
     observe=["Ref.cid", "Ref.hid", "Storage.lookup_call"],
     technique="value-flow analysis of identity terms through constructors and copies", note=TRUST)

prop("C03", "Ignored arguments never enter identity or record, yet always reach the function",
     "An argument wrapped in Ignore, named in the op's ignore_args (variadic ones included), or declared with NewArgDefault and left at (or passed equal to, "
     "plain or as a ref) that default is never part of the call's identity or record; all other arguments are. The function receives ignored arguments as plain "
     "values like any other. Equality with a declared default never holds between values of different types.",
     ["inputs", "programs"], "all signatures, ignore lists, defaults and ways of passing arguments",
     "Combinations of variadic arguments, ignore lists, refs and defaults; the tests pass one Ignore and one NewArgDefault positionally.",
     ["mandala/storage.py", "mandala/model.py", "mandala/utils.py"],
     [("splitting arguments", "Storage.parse_args"), ("default equality", "utils._conservative_equality_check"), ("markers", "model.Ignore, model.NewArgDefault"),
      ("ignore list", "model.op, Op.__init__, Storage.call")],
     observe=["Storage.parse_args", "Call.inputs"],
     technique="path-sensitive selection analysis of the argument split; value flow of replaced arguments", note=TRUST)

prop("C04", "The op's function receives exactly the call's arguments, as plain values",
     "However an op is called - recorded, in noop mode, or outside any context - its function receives every argument of the call, defaults filled in, in its "
     "position or under its name, for all parameter kinds, and nothing else. Refs, also inside nested lists, tuples, sets and dicts, arrive as the values they stand for (loaded "
     "if necessary) when called through a storage; Ignore markers and ValuePointers arrive as what they wrap on every route.",
     ["inputs", "programs"], "all signatures, nestings of refs in arguments, and routes",
     "Needs particular parameter kinds (variadic, keyword-only, positional-only) combined with refs nested in collections on each route.",
     ["mandala/storage.py", "mandala/model.py", "mandala/utils.py"],
     [("recording route", "Storage.call_internal"), ("noop route", "Storage.call"), ("outside", "Op.__call__"), ("splitting by parameter kind", "utils.boundargs_to_args_kwargs"),
      ("unwrapping", "Storage.unwrap, model.recurse_on_ref_collections")],
     observe=["arguments of op.f"],
     technique="value-flow analysis of every execution site back to the bound arguments", note=TRUST)

prop("C05", "A recorded call is never executed again; a new one runs once, only if allowed",
     "Calling an op executes its function only when no record is found under the call's own identity (by history or by content), and then exactly once; it is refused with an error, without executing "
     "anything, when new calls are not allowed. A call that is found returns the recorded outputs. All executions of op functions in a storage go through this one decision, and "
     "what an executed function returned is what is recorded and returned.",
     ["histories", "inputs"], "all calls, storages and histories, versioned or not",
     "Quantifies over every path through call, lookup and execution; tests observe a handful of repeated calls.",
     ["mandala/storage.py", "mandala/model.py"],
     [("engine", "Storage.call_internal"), ("lookup", "Storage.lookup_call"), ("route", "Storage.call, Op.__call__"), ("switch", "Storage.allow_new_calls")],
     observe=["executions of op.f", "Storage.call_internal"],
     technique="must-pass (path) analysis between lookup, permission, execution and record; who-calls analysis of op.f", note=TRUST)

prop("C06", "Everything a new call involves is recorded with it",
     "When a call to an op is made in a context, the call is saved with its op, all of its input and output refs, and all structural calls made while taking its inputs and "
     "outputs apart, recursively. A saved ref is saved under its own identities with its value, if it is in memory, and with all of its elements. "
     "Nothing of this is skipped unless that very thing is already stored.",
     ["inputs", "histories"], "all calls, nested collections and states of the storage",
     "A missing element, structural call or value shows only when that very part is loaded or queried later; tests check few shapes.",
     ["mandala/storage.py", "mandala/model.py"],
     [("engine", "Storage.call_internal"), ("collections", "Storage.construct, Storage.destruct"), ("saving", "Storage.save_call, Storage.save_ref"), ("asking", "Op.__call__, Storage.call")],
     observe=["Storage.call", "calls, shapes, atoms and ops stores"],
     technique="must-pass and collection-coverage analysis of the recording chain, per ref class", note=TRUST)

prop("C07", "A commit writes everything pending in one transaction",
     "A commit that returns has handed every pending value, ref, op and call, and in a versioned storage the code history, to the database within one single "
     "transaction. Nothing counts as saved before that transaction has ended: a commit that fails at any write reports the failure and leaves every pending entry "
     "pending, so that nothing of it is lost and nothing of it is half-written.",
     ["histories", "crash_points", "fault_sequences"], "all sets of pending entries, all points of failure within a commit",
     "Needs a failure between two particular writes of a commit and a look at both the database and the pending sets afterwards; no test injects one.",
     ["mandala/storage.py", "mandala/storage_utils.py"],
     [("commit", "Storage.commit"), ("per-store commit", "CachedDictStorage.commit, CachedCallStorage.commit"), ("code history", "Storage.save_versioner")],
     state=[("pending keys", "entries of a cache not yet in the database", "CachedDictStorage, CachedCallStorage")],
     observe=["Storage.commit", "sqlite database"],
     technique="path (must-pass) and ordering analysis over the inlined event graph of commit", note=TRUST)

prop("C08", "What has not reached the database stays marked as pending",
     "Every entry put into one of the storage's in-memory caches is either just read from the database under the same key or marked as pending until it is "
     "written there or dropped. No operation on the caches (saving, dropping, preloading, clearing, detaching, looking up) makes a pending entry disappear "
     "without writing it, unless the caller explicitly allowed the loss; operations that only read mark nothing.",
     ["histories"], "all sequences of cache operations between two commits",
     "Needs a sequence such as save, preload or clear, then commit and a second session; the tests use each operation on clean caches.",
     ["mandala/storage.py", "mandala/storage_utils.py"],
     [("cached stores", "CachedDictStorage, CachedCallStorage"), ("cache operations of the storage", "Storage.preload, Storage.clear_cache, Storage.drop_calls")],
     state=[("pending keys", "entries of a cache not yet in the database", "CachedDictStorage.dirty_keys, CachedCallStorage.dirty_hids")],
     observe=["CachedDictStorage", "CachedCallStorage"],
     technique="effect and typestate analysis (cached / pending / persistent) of every function touching a cache", note=TRUST)

prop("C09", "Database transactions are atomic, released on every exit, never nested",
     "Every database operation runs in a transaction that is either the caller's or one of its own: its own is begun before any statement, committed before a "
     "normal return, rolled back and its connection closed on every failure (lock timeouts and interrupts included); the caller's is neither begun, committed, "
     "rolled back nor closed. While a transaction is open, everything called under it runs on that same connection and opens no other, and every statement that "
     "modifies the database is executed inside a transaction.",
     ["fault_sequences", "schedules", "histories"], "all database operations, all failures of any statement, both connection modes",
     "Needs a failing or locked statement at a particular point, or two connections at once; the tests run single-threaded without faults.",
     ["mandala/db_utils.py", "mandala/storage.py", "mandala/storage_utils.py", "mandala/utils.py"],
     [("transaction decorator", "utils.transaction"), ("connections", "DBAdapter.conn"), ("operations in a transaction", "every @transaction method")],
     observe=["sqlite connection"],
     technique="typestate analysis of connections with exceptional control flow, interprocedural", note=TRUST)

prop("C10", "Cache and database answer as one",
     "Looking up, testing for and loading a value, ref, op or call finds it whether it is only in the cache, only in the database or in both, and what is in "
     "the cache wins; a 'not there' answer is given only after both were asked for that very key. Bulk loads return exactly the requested calls, in the order requested, each from where it is; "
     "dropping removes an entry from both places.",
     ["histories", "inputs"], "all distributions of entries between cache and database, all operations",
     "Needs entries in a mixed state (some committed, some pending, some evicted); the tests look calls up in the state that computing them left behind.",
     ["mandala/storage.py", "mandala/storage_utils.py"],
     [("cached stores", "CachedDictStorage, CachedCallStorage"), ("bulk loading", "Storage.mget_call"), ("loading refs", "Storage.load_ref")],
     observe=["Storage.get_call", "Storage.mget_call", "Storage.load_ref", "CachedDictStorage", "CachedCallStorage"],
     technique="path analysis of lookup decisions (both halves consulted for the same key)", note=TRUST)

prop("C11", "Call records: both stores write and answer every field by its meaning",
     "A saved call record holds, for every input and every output, its name, direction and both identities, with the call's own identities, op, semantic and content "
     "version, and reading it back yields each in the field of the same meaning, from the in-memory and the database store alike. The provenance queries "
     "(creators, consumers, inputs, outputs, existence, lookup by content) of both stores compare and return exactly the columns their name promises.",
     ["inputs", "histories"], "all calls and records, all identity queries, both stores",
     "A swapped column or direction shows only for particular shapes (an input that is also an output, equal content with different histories, several versions).",
     ["mandala/storage_utils.py", "mandala/storage.py"],
     [("in-memory call store", "InMemCallStorage"), ("database call store", "SQLiteCallStorage"), ("record to call", "Storage._get_call_from_data, Storage.mget_call")],
     observe=["InMemCallStorage", "SQLiteCallStorage", "calls table"],
     technique="schema analysis: column-wise value flow of writes, reads and queries", note=TRUST)

prop("C12", "Overflow files are created atomically and listed with the table as one store",
     "A value kept in an overflow file appears under its final name only when it is completely written; a failed write leaves no file that counts as a value. "
     "Writing, reading, testing, dropping and listing agree on the file of a key, a stored value lands in exactly one of table and files under the key given, and no reading operation answers 'missing' without having "
     "consulted both.",
     ["crash_points", "inputs", "histories"], "all values and sizes, all points at which a write can stop",
     "Needs a crash in the middle of writing a file, or a mixture of small and large values with later deletion; no test uses overflow files with faults.",
     ["mandala/storage_utils.py", "mandala/storage.py"],
     [("overflow files", "JoblibDictStorage"), ("table with overflow", "SQLiteDictStorage")],
     observe=["JoblibDictStorage", "SQLiteDictStorage", "overflow directory"],
     technique="path and value-flow analysis of file-creating sinks and of the table/file split", note=TRUST)

prop("C13", "Deletion drops exactly what was asked for and what was computed from it",
     "Dropping calls removes, from cache and database, exactly the given calls and, if asked, all calls that transitively consume one of their outputs, committed or "
     "not; the provenance closures contain what they were given and everything reachable in their direction. Dropping a code version removes all of its calls with their dependents and "
     "the version from the code history in one transaction. Cleaning up refs removes every ref and value that no recorded call and no remaining ref "
     "uses, none that one does, and only outside a context.",
     ["histories", "inputs"], "all provenance graphs, all mixtures of committed and pending calls",
     "Needs deep and branching provenance with part of it uncommitted; tests drop single calls or whole versions of committed chains.",
     ["mandala/storage.py", "mandala/storage_utils.py"],
     [("drop", "Storage.drop_calls, Storage.drop_version"), ("closures", "InMemCallStorage.get_dependents, get_dependencies"), ("clean up", "Storage.cleanup_refs")],
     observe=["Storage.drop_calls", "Storage.drop_version", "Storage.cleanup_refs"],
     technique="fixed-point loop analysis of closures; selection coverage of deletion loops", note=TRUST)

prop("C14", "Outputs keep their order, names and annotations from function to caller",
     "The i-th value a function returned is recorded once, in full, under the name of output i (its given name, else one made from its position), with the annotation of that position, and "
     "reading the position back from the name is exact for any number of outputs; a declared number of outputs is enforced. The caller gets all outputs in the order returned, "
     "a single one by itself. No argument is recorded under a name an output of the op can have: variadic ones are renamed, parameters refused.",
     ["inputs", "programs"], "all ops, numbers and names of outputs, annotations and returned values",
     "Breaks only for particular counts (more than ten outputs), names (unordered, fewer than outputs) or annotations; tests use one to three plain outputs.",
     ["mandala/utils.py", "mandala/model.py", "mandala/storage.py"],
     [("splitting", "utils.parse_returns"), ("names", "utils.dump_output_name, utils.parse_output_name"), ("order", "Op.get_ordered_outputs"), ("hand back", "Storage.call"),
      ("argument names", "Storage.parse_args"), ("refusal", "Op.__init__")],
     observe=["results of op calls", "Call.outputs"],
     technique="value-flow and coverage analysis per case of declaration, annotation and returned value", note=TRUST)

prop("C15", "A list or dict keeps every element, in order or under its key, at every depth",
     "A value annotated as a list or dict becomes a structure of its elements, each with its own declared type at every depth: every element is recorded once as an input of the "
     "structural call that builds it, under a name from which its position or key is recovered exactly, and taken out again by its own position or key. Shapes, saving and loading keep all "
     "elements, in order or under their keys, with their identities. Its content and history identities depend on all elements and their order, or all keys with their values.",
     ["inputs", "programs"], "all lists and dicts with string keys, of any length and nesting",
     "Breaks for particular lengths, repeated elements, particular keys, nesting or orders; tests use short lists of distinct elements.",
     ["mandala/model.py", "mandala/storage.py", "mandala/tps.py"],
     [("annotations", "Type.from_annotation"), ("naming", "Storage.get_struct_inputs, get_struct_tps"), ("building", "__make_list__, __make_dict__"), ("construct, destruct", "Storage.construct, Storage.destruct"),
      ("loading", "Storage.load_ref"), ("shapes", "ListRef.shape, DictRef.shape, Storage.save_ref")],
     observe=["ListRef", "DictRef", "Storage.unwrap", "Storage.load_ref"],
     technique="order-preserving coverage analysis and template comparison of element names along the pipeline", note=TRUST)

prop("C16", "Stored values are cut off from live objects: frozen on saving, fresh on loading",
     "A value is serialized when its ref is saved, only if it is in memory, and stored under its own content id; cached refs and ops hold no values and no functions and are stored under their own ids. "
     "Every load, attach or unwrap of a value that is not in memory deserializes it anew from the bytes of the ref's own content id into a new object; cached refs are never handed out or "
     "modified, and only attaching in place changes a ref given. So changing a value or ref obtained from the storage changes nothing stored and nobody else's copy.",
     ["inputs", "histories"], "all values, all sequences of saving, loading, changing and loading again",
     "Aliasing shows only when a value is mutated after it was obtained and read again elsewhere; tests compare values once.",
     ["mandala/storage.py", "mandala/model.py", "mandala/utils.py"],
     [("saving", "Storage.save_ref, Storage.save_call"), ("loading", "Storage.load_ref, _attach_atom, _unwrap_atom"), ("copies", "Ref.detached, attached, shallow_copy, shape"), ("codec", "utils.serialize, utils.deserialize")],
     observe=["Storage.unwrap", "Storage.attach", "Storage.load_ref"],
     technique="taint analysis of stores: serialization and detachment as sanitizers, freshness of results", note=TRUST)

prop("C17", "A context is left as it was entered; only the outermost exit commits",
     "Leaving a storage context makes the context and mode that were in effect before entering it current again on every exit, whether its block, its commit or an exit hook failed, and swallows no exception; "
     "leaving a storage's outermost context commits even if the block failed, inner ones do not, and a context that fails to be entered leaves no trace. A call goes to the storage of the innermost "
     "context and is saved there in run mode; in noop mode, also by the noop helper, or outside any context, nothing is recorded.",
     ["histories", "fault_sequences", "programs"], "all nestings of contexts of one or several storages and of noop blocks, and all points of failure",
     "Needs nested contexts left by exceptions or failing commits; tests enter contexts one at a time and leave them normally.",
     ["mandala/storage.py", "mandala/model.py"],
     [("enter and leave", "Storage.__enter__, Storage.__exit__"), ("noop helper", "storage.noop"), ("mode", "Storage.mode, Storage.__call__"), ("dispatch", "Op.__call__, Storage.call")],
     observe=["Context.current_context", "Storage.mode", "Storage.in_context"],
     technique="typestate analysis of the context and mode stacks over all normal and exceptional exits", note=TRUST)

prop("C18", "A versioned lookup finds a call only if all it depended on means the same now",
     "In a versioned storage, a lookup finds a call only through a record of the same op and inputs whose semantic version equals the hash of the semantic hashes that the current code and globals give to every "
     "component the recorded version depends on, directly or through memoized calls; a component's semantic hash is the one its history gives to its current content. Every record of these inputs is tried before "
     "the lookup fails. If the current content of a component was never committed, nothing is found.",
     ["inputs", "histories"], "all histories of code and global changes, all dependency structures, all inputs",
     "Needs sequences of semantic and cosmetic changes to functions, helpers, globals and memoized callees; a test changes one function once.",
     ["mandala/deps/versioner.py", "mandala/deps/deep_versions.py", "mandala/deps/utils.py", "mandala/storage.py", "mandala/model.py"],
     [("search among the records", "Versioner.lookup_call"), ("hashes of the current code", "Versioner.get_codestate_semantic_hashes"), ("hash of a mapping", "deps.utils.hash_dict"),
      ("pre-call id", "Op.get_pre_call_id"), ("lookups by version", "Storage.lookup_call, Storage.call_internal")],
     observe=["whether a function runs again", "Versioner.lookup_call"],
     technique="backward value-flow and path analysis of versioned lookups over a heap-aware symbolic event graph", note=TRUST)

prop("C19", "What an execution depended on is recorded with its call",
     "In a versioned storage, the version recorded with an executed call depends on every function and global in its trace, with the content each has in the current code, and on everything that the versions of "
     "all memoized calls made inside it (found or executed) depend on; contradicting semantic hashes, and globals that changed since the context was entered, are refused. A component seen for the first time "
     "starts its history with its content before versions are computed, the call holds the version of its own execution. Each execution adds one record of its pre-call id and version unless the same is "
     "already there, and the earlier records stay.",
     ["inputs", "programs", "histories"], "all programs of tracked functions and memoized calls, all histories of executions",
     "Which dependencies an execution has is a property of programs and inputs (several versions of one callee, cached callees, new globals); a test fixes one program.",
     ["mandala/deps/versioner.py", "mandala/deps/deep_versions.py", "mandala/deps/model.py", "mandala/storage.py"],
     [("version of a trace", "Version.from_trace, Version.sync"), ("records and new components", "Versioner.process_trace"), ("check against the code state", "Versioner.apply_state_hypothesis"),
      ("memoized calls reported to the trace", "Storage.call")],
     observe=["Storage.versions", "whether a function runs again after a change"],
     technique="coverage analysis of dependency collections, value-flow and path analysis over a heap-aware symbolic event graph, per class of trace node", note=TRUST)

prop("C20", "The history of code and globals is faithful and only grows",
     "A component's history holds every content synchronised into it as a commit under its content hash, from which exactly that content can be computed again; commits are never changed or removed and histories never "
     "dropped. New content follows the commit that was current: with a semantic id of its own if the change is semantic (by the caller or the user's answer), with the current commit's otherwise; content committed "
     "before is only checked out. Synchronising the code base brings every known component to its current content, or, if any step is aborted, leaves all histories as they were.",
     ["inputs", "histories"], "all histories of changes and answers of the user, both kinds of content",
     "Needs long histories of changes, returns to earlier code and aborts across several components; tests use one function with two or three contents.",
     ["mandala/deps/shallow_versions.py", "mandala/deps/versioner.py", "mandala/deps/model.py", "mandala/storage.py", "mandala/utils.py"],
     [("commits", "DAG.init, DAG.commit"), ("synchronising one component", "DAG.sync, DAG.checkout"), ("contents from differences", "DAG.get_content, ContentAdapter"), ("synchronising all", "Versioner.sync_codebase")],
     observe=["Storage.versions", "questions asked on entering a context"],
     technique="symbolic path and value-flow analysis of history operations per kind of content and answer, with an effect analysis of who touches commits", note=TRUST)

prop("C21", "A traced execution sees every function run and every global read",
     "While a memoized function executes in versioned mode, every call of a @track-ed function, every read of a global value by tracked code and every memoized call made is recorded in its trace, each as its own node reached by an edge from the innermost open call, the outermost call being the only root. "
     "A tracked function, class or op behaves as before (its arguments, result, defaults, closure and globals are its own); its call is reported before it runs and closed however it ends; tracked classes have all their functions, nested classes, static and class methods tracked; untracked functions and classes of the traced code are refused under an active tracer. "
     "Tracing is on exactly between entering and leaving a tracer, is suspended during memoized calls and resumed however these end, follows the versioner's settings, and covers exactly the main module and the modules in the traced paths.",
     ["programs", "schedules", "fault_sequences"], "every program of tracked functions, classes and globals, every nesting and order of calls and every exception",
     "a test traces a few fixed call trees; a missing edge, node or pop shows only in particular nestings, exceptions or kinds of global, as a stale result much later",
     ["mandala/deps/tracers/dec_impl.py", "mandala/deps/tracers/sys_impl.py", "mandala/deps/tracers/tracer_base.py", "mandala/deps/model.py", "mandala/storage.py"],
     [("track", "mandala/deps/tracers/dec_impl.py:track"), ("TrackedDict", "mandala/deps/tracers/dec_impl.py:TrackedDict"), ("DecTracer", "mandala/deps/tracers/dec_impl.py:DecTracer"), ("SysTracer", "mandala/deps/tracers/sys_impl.py:SysTracer"), ("Storage._suspended_tracing", "mandala/storage.py:Storage._suspended_tracing")],
     [("call_stack", "the open calls, innermost last", "mandala/deps/tracers/dec_impl.py:DecTracer"), ("graph", "what was seen so far", "mandala/deps/model.py:DependencyGraph")],
     ["DependencyGraph.nodes", "DependencyGraph.edges", "recomputation after a change"],
     technique="typestate of the open-call stack and value-flow analysis of trace events over the abstract event graph, with the registered frame function and the tracked wrapper analysed as entries", note=TRUST)

prop("C22", "The code a versioned session works with is the current code",
     "Whenever the state of the code is determined, every function and global known as a dependency is loaded from its module again and every function, and method where methods are tracked, of the main module and the modules below the dependency path is found under its module and full name, except for built-in functions and files called setup.py or console.py. "
     "Each function is described by its own complete source (up to spaces at line ends), its hash and byte code without its decorators, and each global by the hash of its value (the content id of a wrapped one). "
     "What is gone, cannot be imported or cannot be hashed is an error or replaced by a fixed placeholder as the storage is configured, and a source that cannot be read is an error.",
     ["programs", "histories"], "every layout of modules and classes, every function and value, and every change between two sessions",
     "a test uses one module with a few plain functions; what is left out of the state shows only for particular layouts, decorators, classes and values, as a stale result after a change",
     ["mandala/deps/versioner.py", "mandala/deps/crawler.py", "mandala/deps/model.py", "mandala/deps/utils.py", "mandala/utils.py"],
     [("guess_code_state", "mandala/deps/versioner.py:Versioner.guess_code_state"), ("crawler", "mandala/deps/crawler.py"), ("descriptions", "mandala/deps/model.py:CallableNode, GlobalVarNode"), ("loading", "mandala/deps/utils.py:load_obj, mandala/deps/model.py:Node.load_obj")],
     [("CodeState.nodes", "the current description of every component", "mandala/deps/versioner.py:CodeState")],
     ["Versioner.guess_code_state", "recomputation after a change"],
     technique="coverage and value-flow analysis of the code crawler and of the descriptions of components over an abstract event graph, per class of component and kind of dependency path", note=TRUST)

prop("C23", "Operations on a computation frame leave their operands as they were",
     "No operation on a computation frame changes the frame it is called on, or a frame or collection passed to it, unless it is asked to work in place (or is one of the low-level operations that add or drop an element, node or edge); the frame it returns, its copies included, shares no graph, membership or index containers with the operands, so that later changes of one do not reach the other. "
     "Asked to work in place, an operation changes the frame itself and returns nothing; otherwise it returns a frame of its own. "
     "A copy has the same content as the frame in every component.",
     ["inputs", "histories"], "every frame, every operation and every sequence of later in-place changes",
     "sharing one container shows only when a later in-place operation changes exactly that container; a test compares results, not the operands after further operations",
     ["mandala/cf.py", "mandala/utils.py"],
     [("copies", "ComputationFrame.copy"), ("operations with an inplace parameter", "ComputationFrame.drop, rename, drop_var, merge_into, cleanup, expand_back, ..."), ("restrictions and set operations", "ComputationFrame.select_nodes, select_subsets, _binary_union, _binary_intersection, _binary_setwise_difference"),
      ("set operations on mappings", "mandala/utils.py:get_setdict_union, get_adjacency_union, ...")],
     [("vs, fs", "elements per node", "ComputationFrame.__init__"), ("inp, out", "edges", "ComputationFrame.__init__"), ("refinv, callinv, creator, consumers", "indexes", "ComputationFrame.__init__")],
     ["the components of a frame before and after operations on it or on what was derived from it"],
     technique="ownership and alias analysis of mutations and of returned containers over an abstract event graph, per operation and mode", note=TRUST)

prop("C24", "The indexes of a computation frame agree after every change",
     "After every operation that adds, drops, renames, moves or merges elements, nodes or edges of a computation frame, its indexes describe the same frame: every element is named by exactly the nodes that hold it, an element no node holds any more is gone from every index, and creators and consumers name calls of the frame. "
     "Every edge is recorded at both its ends under its label, edges and elements of a dropped node go with it, a renamed or merged node hands on all its edges and elements, and an operation changes nothing else of the frame. "
     "Adding a call adds its inputs and outputs to every variable connected to the function under their name; cleaning up drops exactly the nodes without elements.",
     ["inputs", "histories"], "every frame and every sequence of operations on it",
     "an index left behind shows only when a later operation reads it, for frames with shared values, values in several nodes or nodes connected under several names",
     ["mandala/cf.py"],
     [("elements", "ComputationFrame.add_ref, drop_ref, add_call, drop_call"), ("nodes", "ComputationFrame._add_var, _add_func, drop_var, drop_func, rename_var"), ("edges", "ComputationFrame._add_edge, _drop_edge, edges"),
      ("moves", "ComputationFrame.move_ref, merge_into, cleanup, simplify"), ("constructors", "ComputationFrame.from_refs, from_vars")],
     [("vs, fs / refinv, callinv", "elements per node and nodes per element", "ComputationFrame.__init__"), ("inp, out", "edges at their targets and sources", "ComputationFrame.__init__"), ("creator, consumers", "calls per value", "ComputationFrame.__init__")],
     ["the components of a frame after operations on it", "ComputationFrame._check"],
     technique="path-sensitive analysis of paired container updates over an abstract event graph, per operation and mode: which index each path changes under which decisions", note=TRUST)

prop("C25", "Restrictions and set operations on frames hold exactly what they name",
     "Selecting nodes or subsets of a computation frame, or elements by value, gives a frame with exactly the selected nodes and elements and all that goes with them: the edges between selected nodes, the values and calls themselves, and creators, consumers and node memberships limited to what is left. "
     "The union (intersection) of frames has, node by node, edge by edge and element by element, what any (all) of them have; elements, values and calls sharing no node of both are not in the intersection. "
     "The difference takes the second frame's elements out of the same nodes of the first, then drops what can no longer be computed from the rest and the nodes left empty; the operators |, & and - are these operations in order.",
     ["inputs", "histories"], "all frames, all sets of nodes and elements and any number of operands",
     "each of the twelve components of the result is a filter over several indexes; one wrong filter shows only for frames where values are shared between nodes or where the operands overlap in one component only",
     ["mandala/cf.py", "mandala/utils.py"],
     [("restrictions", "ComputationFrame.select_nodes, select_subsets, __getitem__, isin, __lt__"), ("set operations", "ComputationFrame._binary_union, _binary_intersection, _binary_setwise_difference, union, intersection, __or__, __and__, __sub__"),
      ("operations on mappings", "mandala/utils.py:get_setdict_union, get_adjacency_union, get_adj_from_edges, ...")],
     [("vs, fs", "elements per node", "ComputationFrame.__init__"), ("inp, out", "edges", "ComputationFrame.__init__"), ("refs, calls, refinv, callinv, creator, consumers", "indexes by element", "ComputationFrame.__init__")],
     ["the components of the resulting frames"],
     technique="symbolic membership conditions of every component of the result, derived from an abstract event graph and compared with the stated conditions by truth table under the index invariants", note=TRUST)

prop("C26", "Navigating a frame reaches exactly the elements and nodes along its edges",
     "Stepping along an edge of a computation frame in either direction gives exactly the calls (values) that created, use or give the values (calls) started from under the edge's label, an element of a list going by the label of all elements; source (sink) elements are those no step forward (back) leads to. "
     "Reachability takes such steps over every edge in the direction asked for until nothing new is found; in the strong sense a call is reached only when every value of it that has an edge in the frame is known at the other end of an edge with its label. "
     "downstream, upstream, midstream and drop_unreachable are the part reached so from the nodes or source (sink) elements they name, in the nodes reached from or lying between the given ones.",
     ["inputs"], "all frames, nodes, directions and both senses of reachability",
     "a step taken from the wrong end, or with the wrong label or sense, shows only for frames where values are shared, functions are connected under several names or the graph is not a chain",
     ["mandala/cf.py", "mandala/model.py", "mandala/utils.py"],
     [("steps", "ComputationFrame.get_adj_elts_edge, get_adj_elts, get_source_elts, get_sink_elts"), ("reachability", "ComputationFrame.get_reachable_elts, get_reachable_nodes, get_all_edges_on_paths_between"),
      ("sub-frames", "ComputationFrame.downstream, upstream, midstream, drop_unreachable"), ("labels", "ComputationFrame.get_io_proj, get_names_projecting_to; mandala/model.py:get_name_proj, get_reverse_proj"), ("tables", "ComputationFrame._add_adj_calls")],
     [("out, inp", "edges", "ComputationFrame.__init__"), ("creator, consumers", "calls per value", "ComputationFrame.__init__"), ("result", "elements reached so far per node", "ComputationFrame.get_reachable_elts")],
     ["the elements returned and the components of the sub-frames"],
     technique="symbolic membership conditions of the steps compared by truth table, and path-sensitive analysis of the rounds and decisions of reachability over an abstract event graph, per direction and sense", note=TRUST)

prop("C27", "Expanding a computation frame adds exactly the calls its values are part of",
     "Expanding back (forward) asks the storage for the calls that created (use) exactly the values at the source (sink) end of the variables given, and adds all of them with their values, in place or in a returned copy - except, if asked, those the frame has - to nodes told apart by operation and by which of the variables given hold their values under which label; recursive expansion goes on until neither nodes nor elements are added. "
     "Every group gets an edge, in the direction of the computation, to every variable it is connected to and a variable for each label of its other side. "
     "Existing nodes are reused only if asked for and only when their elements include those to be added or the other way around (or, for functions, the operation is the same), and new nodes get names that no variable and no function has.",
     ["inputs"], "all frames, sets of variables, directions, modes and calls",
     "which nodes are created depends on how calls share values: a lost connection or a round too few shows only for values used under several names, in lists, or in deep histories",
     ["mandala/cf.py", "mandala/storage.py", "mandala/utils.py"],
     [("expansion", "ComputationFrame.expand_back, expand_forward, expand_all, _expand_unidirectional"), ("groups", "ComputationFrame._group_calls, _expand_from_call_groups"),
      ("names", "ComputationFrame.get_new_vname, get_new_fname"), ("construction", "ComputationFrame.from_op"), ("questions to the storage", "Storage.get_creators, get_consumers")],
     [("vs, fs", "elements per node", "ComputationFrame.__init__"), ("inp, out", "edges", "ComputationFrame.__init__"), ("call_groups", "calls per operation and connections", "ComputationFrame._group_calls")],
     ["the nodes, edges and elements of the expanded frame"],
     technique="path-sensitive analysis over an abstract event graph of what is asked for, filtered, grouped and added, per direction and mode, with symbolic membership conditions compared by truth table", note=TRUST)

prop("C28", "Tables show all that led to a frame's final values; only deletion writes",
     "The history of a value consists of the call that made it, in every function node next to its variable that has it, the inputs of that call held by the variables at the other end of those nodes' edges under the edge's label, and their histories; a table has a row for every final value between the nodes given, "
     "all tables are joined on the nodes they share, in the way asked for (keeping rows without a counterpart if nothing is shared), and calls are left out, and values loaded, for exactly the columns asked for. "
     "Attaching loads every value of the frame; deleting calls removes exactly those of the frame (of the table, also those shown together) with all that depends on them; no other operation on frames writes to the storage.",
     ["inputs"], "all frames, variables, values, tables and options",
     "what a history leaves out shows only for values made from several values of one variable, by functions with several connections, or several steps back; the tests look at the size of a few tables",
     ["mandala/cf.py"],
     [("histories", "ComputationFrame.get_direct_history, get_total_history, _unify_subobjects, _is_subobject"), ("rows and joins", "ComputationFrame.get_history_df, get_joint_history_df"), ("tables", "ComputationFrame.df, eval_df"),
      ("storage", "ComputationFrame.attach, delete_calls, delete_calls_from_df")],
     [("creator, callinv", "the call that made a value; the nodes with a call", "ComputationFrame.__init__"), ("vs, fs, inp", "elements per node; edges", "ComputationFrame.__init__")],
     ["the table returned by df()", "the storage after delete_calls"],
     technique="path-sensitive analysis over an abstract event graph of where every entry of a history and table comes from and which options reach which step, symbolic membership conditions of joins and deleted sets, effect analysis of uses of the storage", note=TRUST)

prop("N01", "A value loaded from the storage equals the value that was saved",
     "For every value a memoized function takes or returns, loading it from the storage gives a value equal to the one that was saved.",
     ["inputs"], "all Python values", "equality after a round trip depends on the pickling code of every class; tests try a few",
     ["mandala/utils.py", "mandala/storage_utils.py"], [("serialization", "serialize, deserialize")], [], ["Storage.unwrap"],
     na="Depends on what joblib/pickle and the classes of users' values do at run time, which is not in the source analysed. What mandala itself adds - which bytes are stored under which id, in which file, and that loading reads them with the matching function - is decided by C10, C12 and C16.")
prop("N02", "Equal values have equal content ids, different values different ones",
     "Two values have the same content id exactly if they are equal.",
     ["inputs"], "all Python values", "tests try a few values",
     ["mandala/utils.py"], [("content hashes", "get_content_hash")], [], ["Ref.cid"],
     na="A statement on joblib's hash over runtime values (it is not true of every value, e.g. of sets of strings or objects whose pickles share parts differently). That ids are built from this hash and from nothing that differs between equal structures is decided by C01 and C02.")
prop("N03", "Processes that use one storage at the same time lose nothing",
     "If several processes work on the same database, all calls that any of them committed are found afterwards.",
     ["schedules"], "all interleavings of processes", "the tests use one process",
     ["mandala/storage.py", "mandala/storage_utils.py", "mandala/deps/versioner.py"], [("transactions", "transaction, Storage.commit")], [], ["the database"],
     na="Rests on SQLite's locking and on the isolation of journal modes at run time; and mandala keeps caches that it does not revalidate, so the guarantee is not offered. That every commit is a single transaction that never overwrites other records is decided by C07, C09 and C11.")
prop("N04", "Rows of a joined table are exactly the joint computations of the frame",
     "Every row of the table of a frame is a set of elements that occur in one joint computation, and every joint computation has a row.",
     ["inputs"], "all frames and orders of joins", "tests compare sizes of a few tables",
     ["mandala/cf.py"], [("joins", "ComputationFrame.get_joint_history_df")], [], ["ComputationFrame.df"],
     na="What a sequence of outer joins over tables with missing cells yields is a property of the data and of pandas; the code itself documents that the order of joins matters. That every table takes part in the join, on the shared nodes and with complete rows, is decided by C28.")
prop("N05", "Edges on paths, topological orders and components are those of the graph",
     "The edges between two nodes, the order of columns and the components by which frames are navigated are correct for every graph.",
     ["inputs"], "all graphs", "tests use graphs of a few nodes",
     ["mandala/cf.py", "mandala/utils.py"], [("graph algorithms", "get_edges_in_paths, almost_topological_sort, find_strongly_connected_components")], [], ["ComputationFrame.sort_nodes", "ComputationFrame.midstream"],
     na="Functional correctness of iterative graph algorithms needs loop invariants over runtime graphs (deductive proof or bounded model checking), which no dataflow or effect analysis in reach gives. That navigation asks these algorithms for the right nodes and direction, and uses all of the answer, is decided by C26.")
prop("N06", "Work on the storage takes time in proportion to what is asked for",
     "Retrieving a recorded call takes time independent of how many other calls are recorded.",
     ["histories"], "all storages", "tests use small storages",
     ["mandala/storage.py", "mandala/storage_utils.py"], [("lookups", "Storage.lookup_call, get_call_data")], [], ["running times"],
     na="A bound on running time over SQLite queries and caches, a runtime quantity; no sound static bound is in reach.")
