#!/usr/bin/env python3
# Writes /verif/properties.jsonl. Kept as a script so that the statements stay readable.
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,
          state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
          mechanism=[dict(name=a,where=b) for a,b in mech],
          observe_at=list(observe),hook_needed=hook)))

p("C01","Every value crossing the bridge is owned once and destroyed exactly once",
 "Whatever history of calls a program makes through a bridge, in either direction, nested, and with any of those calls failing, every value and heap block handed over by value (as argument, return value, struct field, callback argument or error text) has exactly one owner at any moment: it is destroyed exactly once, its memory goes back once to the allocator it came from, nothing is leaked, and nothing is read or written after it was destroyed. A failing call destroys the arguments it took and produces no result that anybody would have to destroy. An object that was never constructed is never destroyed.",
 ["histories","fault_sequences","schedules"],
 "all sequences of bridge calls over every kind of bridged type and position, with exceptions, Rust errors, failing C++ allocations and nested re-entrant calls injected at every user-code point",
 "The tests call each function once, mostly on the success path, and never account for the objects and heap blocks that exist afterwards; a leak or double destruction on a failing or nested path is invisible to them.",
 ["macro/src/expand.rs","gen/src/write.rs","gen/src/builtin.rs","src/rust_vec.rs","src/rust_string.rs","src/result.rs","src/exception.rs","src/cxx_string.rs","src/unique_ptr.rs","src/shared_ptr.rs","src/cxx.cc","include/cxx.h"],
 [("by-value arguments are bit-copied or moved and forgotten on the giving side","macro/src/expand.rs expand_cxx_function_shim / expand_rust_function_shim_impl"),("ManuallyDrop / MaybeUninit / unsafe_bitcopy in the generated C++ shims","gen/src/write.rs write_cxx_function_shim / write_rust_function_shim_impl"),("error text copied between allocators","src/result.rs, src/cxx.cc")],
 observe=["constructor/destructor/Drop of user types","operator new/delete","Rust global allocator"])

p("C02","Errors cross the boundary unchanged and exactly when the callee failed",
 "A call declared as returning a Result yields Err if and only if the callee threw a C++ std::exception (or a type handled by the user's trycatch), and its text is exactly the exception's message, with invalid UTF-8 replaced by U+FFFD; a Rust function returning Err surfaces in C++ as a rust::Error whose what() is exactly the error's Display text, and one returning Ok never throws. Successful calls deliver exactly the callee's value. After a failed call both sides remain fully usable and later calls are unaffected.",
 ["histories","fault_sequences","inputs"],
 "all sequences of fallible calls over every kind of return type, with failures of any message injected at any call and at any nesting depth",
 "The tests exercise one or two fixed messages per direction, at depth one, and do not look at the state left behind.",
 ["src/result.rs","src/exception.rs","src/cxx.cc","gen/src/builtin.rs","gen/src/write.rs","macro/src/expand.rs","include/cxx.h"],
 [("Result union and r#try","src/result.rs"),("trycatch behaviour and Fail","gen/src/builtin.rs, src/cxx.cc"),("rust::Error","src/cxx.cc")],
 observe=["returned Result and its text in Rust","caught rust::Error in C++"])

p("C03","No unwinding ever crosses the language boundary",
 "A panic in a Rust function called from C++ and a C++ exception that leaves a function not declared as returning a Result (or one that its trycatch does not handle) end the process by abnormal termination at that boundary. Neither is ever swallowed, turned into a normal return or into an error of the other language, nor does it unwind, run cleanup of, or resume, any frame on the other side of the boundary.",
 ["fault_sequences","histories","schedules"],
 "every function position (free function, method, callback, Drop of a Rust value destroyed by C++, container element operations) and every nesting depth at which a panic or an exception can be raised",
 "Aborting the test process is not something the in-process tests can do; no test panics or throws through a non-Result function.",
 ["src/unwind.rs","macro/src/expand.rs","gen/src/write.rs","gen/src/builtin.rs"],
 [("prevent_unwind guard","src/unwind.rs"),("noexcept on every generated extern \"C\" shim","gen/src/write.rs")],
 observe=["how the process ends","which user code still ran after the fault"])

p("C04","SharedPtr and WeakPtr keep their target alive exactly as long as owners exist",
 "Under every interleaving of threads that clone, move, drop, downgrade, upgrade and dereference shared and weak pointers on either side of the bridge, the target is destroyed exactly once, exactly when its last owner goes away, and never while an owner exists. An upgrade yields an owning pointer to the live target if and only if some owner exists at that instant, and null otherwise; it never fails in any other way.",
 ["schedules","histories"],
 "all interleavings, at the granularity of single memory accesses, of short pointer histories on several threads",
 "The tests use these pointers from one thread only.",
 ["src/shared_ptr.rs","src/weak_ptr.rs","gen/src/write.rs","src/cxx.cc","macro/src/expand.rs"],
 [("all operations delegate to std::shared_ptr / std::weak_ptr","gen/src/write.rs write_shared_ptr / write_weak_ptr, src/cxx.cc SHARED_PTR_OPS")],
 observe=["destructor of the target","return value of upgrade, use_count"])

p("C05","C++ views of Rust containers match their model, also when elements throw",
 "After any history of operations on the C++ views of Rust containers (construction, copy, move, assignment, swap, push, emplace, reserve, truncate, clear, checked and unchecked indexing, iteration, hand-over to and from Rust, from_raw/into_raw) the contents equal those of a plain sequence model, and Rust and C++ see the same contents. If an element's constructor or an allocation throws in the middle of an operation, the exception reaches the caller and every container involved is left valid and destructible, holding only live elements.",
 ["histories","fault_sequences"],
 "all operation histories over several element types, with a throwing element constructor or failing allocation injected at any element operation",
 "The tests cover a handful of single operations on well-behaved elements.",
 ["include/cxx.h","src/rust_vec.rs","src/rust_slice.rs","src/symbols/rust_vec.rs","gen/src/write.rs","src/cxx.cc"],
 [("emplace_back constructs before set_len","include/cxx.h"),("allocation guard in Box","include/cxx.h")],
 observe=["element values seen from both languages","element constructor/destructor balance","thrown exceptions"])

p("C06","CxxString, CxxVector and UniquePtr in Rust behave as their C++ model",
 "After any history of operations issued from Rust and from C++ on one std::string, std::vector or unique_ptr (push, pop, clear, reserve, index, iterate, slice, compare, into_raw/from_raw, replace) both languages observe the contents of a plain model. Iterators report exactly the elements that remain, out-of-range access yields None, popped elements are moved out exactly once, and use of a null smart pointer panics instead of touching memory.",
 ["histories","fault_sequences"],
 "all interleaved histories of operations from both languages over primitive, string, trivial-struct and opaque element types, including panicking callers",
 "The tests perform a few fixed operations per type.",
 ["src/cxx_string.rs","src/cxx_vector.rs","src/unique_ptr.rs","src/cxx.cc","gen/src/write.rs"],
 [("accessors delegate to the C++ container on every call","src/cxx_vector.rs, src/cxx_string.rs"),("let_cxx_string stack slot","src/cxx_string.rs")],
 observe=["values seen from both languages"])

p("C07","rust::String and rust::Str hold valid UTF-8 after every history",
 "After any history of constructions (from UTF-8, UTF-16, lossy, copy, move), assignments, swaps, reservations, c_str calls and hand-overs, every live rust::String and rust::Str holds exactly the text of a plain string model, valid UTF-8 throughout. A construction from text that is not valid throws std::invalid_argument, leaks nothing and leaves every other string unchanged. Iteration, equality and ordering agree with the text and with the order of the same strings in Rust.",
 ["histories","inputs","fault_sequences"],
 "all operation histories, mixing valid and corrupted text of both encodings, with the operations split between both languages",
 "The tests construct a few strings; they do not mix failing constructions into histories or check what is left behind.",
 ["src/cxx.cc","include/cxx.h","src/symbols/rust_string.rs","src/symbols/rust_str.rs","src/rust_string.rs","src/rust_str.rs"],
 [("from_utf8 / from_utf16 validate before initialising","src/symbols/rust_string.rs"),("panic<std::invalid_argument>","src/cxx.cc")],
 observe=["bytes seen from both languages","exceptions"])

p("C08","I/O through bridge types is faithful under short, interrupted and failing I/O",
 "Reading, writing and seeking through a UniquePtr to a C++ stream, and writing through a pinned CxxString, has the same effect and the same result as performing the same calls directly on the underlying object, for every pattern of short transfers, interruptions, end of file and errors of that object. No byte is lost, duplicated or reordered, and no error or count is changed.",
 ["fault_sequences","histories"],
 "all sequences of I/O calls against streams that return short counts, Interrupted, EOF or errors at arbitrary calls",
 "One test reads and writes a well-behaved stream once.",
 ["src/unique_ptr.rs","src/cxx_string.rs"],
 [("method-by-method forwarding to Pin<&mut T>","src/unique_ptr.rs"),("append-only write","src/cxx_string.rs")],
 observe=["call log of the underlying stream","results in Rust"])

p("C09","Formatting through bridge types reports the exact text and every sink failure",
 "Display and Debug of bridged strings, vectors, smart pointers and errors write exactly the documented text (the target's own text, nullptr for null, U+FFFD or escapes for invalid UTF-8). If the sink fails at any byte, formatting returns an error having written only a prefix of that text, and a later attempt is unaffected.",
 ["fault_sequences","inputs"],
 "all contents and all positions at which the output sink fails",
 "Tests format a few values to a String, which never fails.",
 ["src/lossy.rs","src/cxx_string.rs","src/cxx_vector.rs","src/unique_ptr.rs","src/shared_ptr.rs","src/weak_ptr.rs","src/exception.rs","src/fmt.rs"],
 [("errors of the formatter are propagated","src/lossy.rs")],
 observe=["bytes received by the sink","returned fmt::Result"])

p("C10","Concurrent and re-entrant calls do not affect each other",
 "Bridge calls made at the same time from several threads, or re-entered from a callee, behave as if each ran alone: each callee sees exactly its caller's arguments, each caller gets exactly its own callee's value or error text, and process-wide state (caches, counters, scratch buffers) of one call never shows up in another.",
 ["schedules","histories"],
 "all interleavings of several threads' call sequences at the granularity of single memory accesses, and all nestings",
 "The tests are single-threaded per function and never overlap two calls.",
 ["macro/src/expand.rs","gen/src/write.rs","src/result.rs","src/exception.rs","src/cxx.cc"],
 [("all call state lives on the caller's stack","gen/src/write.rs, macro/src/expand.rs")],
 observe=["arguments seen by callees","results and error texts seen by callers"])

p("C11","A build script rerun after a crash or over a stale OUT_DIR builds correctly",
 "Whatever a crashed, killed or older build left in the output directories (missing, truncated or torn files, stale or dangling links, wrong file types), a later run of the build script that reports success leaves all the generated sources, headers and include links that a run in an empty directory leaves, each complete and with the right contents, and adds nothing else to its output directory.",
 ["crash_points","configurations","fault_sequences"],
 "a crash at every file-system call of the build script, any subset of torn writes surviving, and arbitrary prior contents of OUT_DIR and the shared target directory",
 "No test runs the build script twice, crashes it, or starts from a dirty directory.",
 ["gen/build/src/lib.rs","gen/build/src/out.rs","gen/build/src/target.rs","gen/build/src/paths.rs","gen/src/fs.rs"],
 [("compare-then-rewrite and remove-before-create","gen/build/src/out.rs")],
 observe=["file tree after the run"])

p("C12","Build scripts running at the same time do not corrupt each other's outputs",
 "When the build scripts of several crates of one target directory run at the same time, in any interleaving of their file-system operations, each that reports success has its complete, correct outputs, the shared directory ends up with correct complete entries for all of them, and none fails or blocks because of the others.",
 ["schedules","configurations"],
 "all interleavings of the file-system calls of several build scripts sharing OUT_DIR/cxxbridge and the target directory",
 "Cargo runs one cxx-build script in the test workspace; no test overlaps two.",
 ["gen/build/src/lib.rs","gen/build/src/out.rs","gen/build/src/target.rs"],
 [("ignore-NotFound, best-effort shared links","gen/build/src/out.rs, gen/build/src/lib.rs")],
 observe=["file tree","exit status of each script"])

p("C13","Code generation writes only inside its output directories",
 "Whatever the project layout, link structure, stale state and I/O faults, a build script or the command line generator creates, changes or deletes files only in its own output locations: user sources, headers and directories reached through links that earlier runs left in the output directories are never modified, truncated or removed.",
 ["configurations","fault_sequences","crash_points","schedules"],
 "all project layouts, prior states with links into user directories, and I/O faults and crashes at any call",
 "No test has links from the output directory to user files combined with failing or repeated runs.",
 ["gen/build/src/out.rs","gen/build/src/lib.rs","gen/src/fs.rs","gen/cmd/src/main.rs"],
 [("remove the link rather than follow it","gen/build/src/out.rs, gen/src/fs.rs")],
 observe=["every path the simulated file system sees mutated"])

p("C14","A reported success means complete outputs; a failing I/O is reported",
 "If any read, write or directory operation on which the outputs depend fails (missing or unreadable input, full disk, I/O error), the build script either still produces complete correct outputs or reports an error naming the file it failed on and exits unsuccessfully; interrupted and short operations are retried without any visible effect. It never reports success with a missing, empty, truncated or stale output.",
 ["fault_sequences"],
 "an error, short transfer or interruption injected at any system call of the generator",
 "No test injects an I/O failure.",
 ["gen/build/src/out.rs","gen/build/src/error.rs","gen/src/error.rs","gen/src/fs.rs","gen/src/mod.rs"],
 [("errors carried as fs::Error / Error","gen/src/fs.rs, gen/build/src/error.rs")],
 observe=["Result of bridge(), exit status, stderr, file tree"])

p("C15","Rerunning an unchanged build touches nothing",
 "Running a build script again on unchanged inputs leaves contents and modification times of every generated file as they were, so that nothing downstream is rebuilt; after a change to one bridge exactly the outputs that depend on it change. This holds after any sequence of earlier runs, edits and failed runs.",
 ["histories","fault_sequences"],
 "all sequences of runs, edits, failed runs and clock jumps",
 "No test runs the build script twice.",
 ["gen/build/src/out.rs","gen/build/src/lib.rs"],
 [("existing content compared before writing","gen/build/src/out.rs")],
 observe=["modification times and mutating calls in the simulated file system"])

p("C16","Generated output is a function of the inputs only",
 "For the same bridge source and options, the generated code, the files written, the printed cargo directives and the include paths handed to the compiler are the same whatever the hash seeds, thread schedule, directory listing order, environment order, clock, process id and prior runs in the same process.",
 ["schedules","configurations","histories"],
 "all values of the nondeterminism sources a build process reads",
 "Tests run once per process with one hash seed and compare a few substrings.",
 ["gen/build/src/lib.rs","gen/build/src/deps.rs","gen/build/src/cargo.rs","gen/src/write.rs","syntax/types.rs","syntax/set.rs","syntax/map.rs"],
 [("ordered sets in syntax/","syntax/set.rs, syntax/map.rs"),("sorted header directories","gen/build/src/lib.rs")],
 observe=["bytes of all outputs under different simulated environments"])

p("C17","The command line generator's exit status tells the truth",
 "If the command line generator exits successfully, every requested output (files and standard output) received its complete contents, equal to what the library generates for that input; if reading an input or writing any output fails, at any byte, it exits unsuccessfully with a diagnostic.",
 ["fault_sequences","configurations","histories"],
 "all combinations of input and output options with an error, short transfer or interruption at any system call",
 "Tests only cover argument parsing and help text.",
 ["gen/cmd/src/main.rs","gen/cmd/src/app.rs","gen/cmd/src/output.rs","gen/src/fs.rs","gen/src/error.rs"],
 [("try_main collects outputs before writing","gen/cmd/src/main.rs")],
 observe=["exit status, stdout, stderr, file tree"])

p("C18","Include directories of dependencies reach the compiler exactly as exported",
 "For every dependency graph and every configuration of CFG (exported header dirs, prefixes and links, include prefix), each crate's compiler invocation receives the include directories of itself and of exactly those dependencies whose headers are exported or re-exported to it, in the documented order and with directories reachable through several dependencies listed once, independent of environment order, of the order in which scripts run, and of earlier or failed runs.",
 ["configurations","schedules","histories"],
 "all small dependency graphs and CFG settings, environment orders and build orders",
 "The test workspace has one fixed graph.",
 ["gen/build/src/deps.rs","gen/build/src/cfg.rs","gen/build/src/cargo.rs","gen/build/src/lib.rs"],
 [("DEP_*_CXXBRIDGE_* metadata","gen/build/src/deps.rs, gen/build/src/lib.rs")],
 observe=["cc::Build include list, printed cargo metadata"])

p("C19","CFG changes are per process, visible everywhere, and atomic across threads",
 "A value assigned to a CFG field is what every later read and every later bridge call in the process sees, on any thread, until the next assignment; concurrent readers always see a whole old or a whole new value, assignments of different threads to different fields do not undo each other, what is seen through one handle is a configuration that existed at some moment, and reading before any assignment gives the documented default.",
 ["schedules","histories"],
 "all interleavings of threads reading and assigning CFG fields and running bridges",
 "The single CFG test is one-threaded.",
 ["gen/build/src/cfg.rs","gen/build/src/intern.rs","gen/build/src/vec.rs"],
 [("interned strings and RwLock'd current configuration","gen/build/src/cfg.rs, gen/build/src/intern.rs")],
 observe=["values read on each thread"])

p("C24","cfg attributes in a bridge are decided as Cargo, or the --cfg flags, decided them",
 "For every cfg expression on any item of a bridge (the bridge itself, extern blocks, includes, types, functions, impls, struct fields, enum variants), and for whatever features and cfgs Cargo set in the environment of a build script or --cfg flags gave to the command line generator, the generated code is that of the bridge with exactly the items whose conditions hold; a condition the command line flags do not determine is an error. The outcome depends on nothing else: not on environment order, other variables, earlier runs or faults.",
 ["configurations","inputs","histories"],
 "all cfg expressions, placements, feature sets, cfg values and flag combinations, over histories in which they change",
 "A handful of fixed cfg expressions is tested, none through Cargo's environment variables.",
 ["gen/build/src/cargo.rs","gen/cmd/src/cfg.rs","gen/src/cfg.rs","syntax/cfg.rs","syntax/parse.rs","syntax/attrs.rs"],
 [("three-valued evaluation","gen/src/cfg.rs"),("names compared as Cargo spells them in variables","gen/build/src/cargo.rs")],
 observe=["bytes of the generated code","exit status and diagnostics"])

p("C25","A bridge source that cannot be accepted is reported: every error, at its place, and nothing is written for it",
 "When cxx-build or cxxbridge is given a source file that is not valid UTF-8, is not Rust, has no bridge, or whose bridge contains declarations CXX rejects, the process ends with exit status 1 (it does not panic, abort or hang, and does not accept it), with nothing on standard output and no output file of that source written or changed. The diagnostics on stderr are all of the errors, ordered by their place in the file, each with its message, the path, line and column where the offending tokens stand, the text of that line, a mark under exactly those columns whatever characters (multi-byte, wide, CRLF) come before, and the hint that goes with it. An error without a place of its own is placed at the start of the file.",
 ["inputs","histories","configurations"],
 "all rejected or damaged sources, by every route (build script, command, standard input), with any options, in any position among other sources",
 "The UI tests check a fixed list of errors through rustc's own reporting; the code generator's reporting (offsets, sorting, exit status, what is left on disk) is never run by a test.",
 ["gen/src/error.rs", "gen/src/mod.rs", "syntax/report.rs", "syntax/check.rs"],
 [("format_err, display_syn_error, sort_syn_errors","gen/src/error.rs"),("generate_from_path","gen/src/mod.rs"),("Errors","syntax/report.rs")],
 state=[("errors","the errors collected so far","syntax/report.rs")],
 observe=["stderr, exit status and files written by a build script or cxxbridge"])

# --- not addressed by this family ---
p("C20","Macro and generator agree on every symbol name",
 "For every bridge accepted by both, the symbols declared by the macro's expansion and those defined or used by the generated C++ agree in name and signature, including namespaces, renamings, overloads and generic instantiations.",
 ["programs"],"all accepted bridge programs","The tests link one large fixed bridge.",
 ["syntax/mangle.rs","syntax/symbol.rs","macro/src/expand.rs","gen/src/write.rs"],[("shared mangling","syntax/mangle.rs")])
p("C21","Shared structs and enums have the same layout on both sides",
 "For every accepted bridge, each shared struct, enum and type alias has the same size, alignment, field offsets and discriminants in Rust and in C++.",
 ["programs"],"all accepted bridge programs","One fixed bridge is tested.",
 ["macro/src/expand.rs","gen/src/write.rs","syntax/discriminant.rs","syntax/pod.rs"],[("repr(C) and static assertions","macro/src/expand.rs, gen/src/write.rs")])
p("C22","Unsound bridge declarations are rejected",
 "Every bridge declaration that would allow undefined behaviour from safe Rust (opaque C++ types by value, unpinned mutable references, non-relocatable types by value, unsupported element types) is rejected with an error, and no accepted bridge allows it.",
 ["programs"],"all bridge programs","UI tests sample a fixed list of rejected programs.",
 ["syntax/check.rs","syntax/parse.rs","syntax/trivial.rs","syntax/improper.rs"],[("check pass","syntax/check.rs")])
p("C23","Enum discriminant inference equals the compilers'",
 "For every enum declaration the inferred discriminants and repr equal those rustc assigns, and out-of-range or duplicate discriminants are rejected.",
 ["inputs"],"all sequences of explicit and implicit discriminants","A few fixed enums are tested.",
 ["syntax/discriminant.rs"],[("DiscriminantSet","syntax/discriminant.rs")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
