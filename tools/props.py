def P(id, title, statement, over, qtext, why, files, mech, technique, note):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]),
                technique=technique, note=note)


def N(id, title, statement, over, qtext, why, files, mech, reason):
    d = P(id, title, statement, over, qtext, why, files, mech, "", "")
    d["reason"] = reason
    return d


CLAIMED = [
    P("R01", "A failed operating-system call surfaces as SysErr with that failure's errno",
      "Whenever an operating-system call made on behalf of a Posix, OS, Socket, Date, Time or Signals operation fails, "
      "the operation raises SysErr carrying the errno of exactly that failure; it never returns an ordinary value as if "
      "it had succeeded and never reports another call's error. The only exceptions are operations documented to answer "
      "a failure with NONE, false or a message of their own.",
      ["fault_sequences", "inputs"], "every operation, every OS call it makes, every failure of that call",
      "The suite never makes an OS call fail on purpose; most failures cannot be provoked from a test.",
      ["base/runtime/c-libs/"], [("RAISE_SYSERR / CHK_RETURN discipline in every primitive", "base/runtime/c-libs/ml-c.h"),
                                 ("errno to exception conversion", "base/runtime/c-libs/unix-raise-syserr.c")],
      "assume-failure interprocedural value-provenance dataflow over the clang AST of every C primitive",
      "Every primitive in the binding tables and every failing call site reachable from it is analysed on all paths "
      "(paths merged, loops widened). Trusts the documented failure values of the OS calls and the reviewed list of "
      "operations that answer failure with a value."),
    P("R02", "A runtime service never uses a heap object that a collection has moved",
      "While a runtime service written in C works on program values, no value it holds is used after a garbage collection "
      "may have moved it, unless the collector was told to update it: whatever the heap occupancy and object sizes, the "
      "service sees and returns the current objects.",
      ["inputs", "histories"], "every runtime service, every point at which a collection can happen, every heap state",
      "A collection inside a service needs a nearly full arena or an object above 4 KB at that very moment; the tests "
      "never arrange it.",
      ["base/runtime/c-libs/", "base/runtime/gc/ml-objects.c", "base/runtime/gc/build-literals.c", "base/runtime/kernel/"],
      [("collections triggered by the allocators", "base/runtime/gc/ml-objects.c"),
       ("explicit roots", "base/runtime/gc/call-gc.c")],
      "stale-reference dataflow (typestate live/stale) over the clang AST, interprocedural, all C functions that touch "
      "ML values",
      "Decides use-after-move for all paths of all functions outside the collector itself. Assumes system data-base "
      "strings fit a small object and that the collector updates the roots it is given."),
    P("R03", "Runtime services build only well-formed heap objects in space they checked for",
      "Every object a runtime service written in C builds on the program's heap is one the rest of the system can trust: "
      "its descriptor's kind and length match the words actually written, every field holds a tagged integer or a live "
      "object (never a raw C integer or pointer), a string is zero terminated and its recorded length fits its data, and "
      "the allocation stays within space that was checked or ensured beforehand, for every size and number of elements.",
      ["inputs", "histories"], "every allocation in every runtime service, every argument size, every heap occupancy",
      "A malformed object does harm only at a later collection, and an unchecked allocation only when the arena is nearly "
      "full at that moment.",
      ["base/runtime/c-libs/", "base/runtime/gc/ml-objects.c", "base/runtime/kernel/"],
      [("allocation macros", "base/runtime/include/ml-objects.h"), ("NeedGC space checks", "base/runtime/gc/call-gc.c")],
      "shape and space abstract interpretation over the clang AST: symbolic allocation-pointer offsets, per-path space "
      "budget between checks, field taint (tagged / raw)",
      "All allocations on all paths of all C services, with loops widened. Trusts the 4 KB slack between the limit pointer "
      "and the end of the arena and that system data-base strings fit a small object; a few services with their own "
      "accounting are on a reviewed list."),
    P("R04", "Runtime services release what they acquire exactly once, on every path",
      "Every block of C memory, open stream, directory handle and file descriptor that a runtime service written in C "
      "obtains for its own use is given back exactly once on every path out of the service, error paths included, unless "
      "it is handed to the program or stored in a structure that outlives the call. Nothing is used after it has been "
      "released, released twice, or released without having been obtained; a failed acquisition is never released.",
      ["inputs", "fault_sequences", "histories"],
      "every service, every acquisition in it, every path (success or failure of each later step) out of it",
      "A leak on an error path shows only after that step has failed thousands of times, a double release only in a later "
      "allocation; the tests take the success path once.",
      ["base/runtime/c-libs/", "base/runtime/gc/", "base/runtime/kernel/"],
      [("scratch buffers of the POSIX services", "base/runtime/c-libs/posix-procenv/getgroups.c"),
       ("image files", "base/runtime/c-libs/smlnj-runtime/export-heap.c"),
       ("image writers", "base/runtime/gc/export-heap.c")],
      "resource typestate analysis (unheld / held / released, with escape and may-alias tracking) over the clang AST, "
      "interprocedural, one acquisition site at a time",
      "Every acquisition site in the compiled runtime on all paths of each entry function. Repeated tests of one "
      "condition are correlated, other path conditions are not. A resource stored in a longer-lived structure is taken as handed "
      "over; start-up code that ends in process exit is exempt, as is dtoa.c's own free list."),
    P("R05", "No runtime service writes past the end of a buffer",
      "Whatever strings, sizes, descriptors, option values and environment a program passes, and whatever the operating "
      "system or its data bases answer, a runtime service written in C writes only inside the C array, structure, "
      "allocated block or heap object it was given: every copy, fill, format, index and OS call that stores into memory "
      "is bounded by that memory's size, terminators included.",
      ["inputs", "environment"], "every service, every store into a C array, structure, malloc'ed block or heap data, every length",
      "Overruns need names, vectors or OS answers of unusual length, and usually show as silent corruption far away.",
      ["base/runtime/c-libs/", "base/runtime/kernel/", "base/runtime/gc/ml-objects.c", "base/runtime/gc/export-heap.c"],
      [("buffer sizes next to each OS call", "base/runtime/c-libs/*/"), ("copying into heap strings", "base/runtime/gc/ml-objects.c")],
      "object-size dataflow over the clang AST: symbolic sizes of every object, linear bounds on every write length",
      "Every call or store that writes memory in the services and the boot/export code outside the collector proper, on all "
      "paths. Sizes are symbolic linear terms; a write is accepted only with a derived bound. Trusts documented bounds on "
      "what each OS call stores."),
    P("R06", "Every named system constant has the value the system headers give that name",
      "Each name of a system constant that programs can ask for or are shown (error names, signals, open flags, file "
      "mode bits, access modes, terminal flags and control characters, wait options, sysconf and pathconf names, address "
      "families, socket types) stands for exactly the value the operating system's headers define for it. Every name in "
      "the runtime's tables is found when it is looked up, and a listing or a lookup by number covers all entries of its "
      "table and nothing beyond.",
      ["inputs"], "every entry of every name table, every lookup and listing loop over them",
      "There are over 400 names; the tests ask for a handful, and a misplaced entry only breaks lookups whose binary "
      "search happens to cross it.",
      ["base/runtime/c-libs/posix-error/tbl-errno.c", "base/runtime/c-libs/posix-filesys/osval.c",
       "base/runtime/c-libs/posix-io/osval.c", "base/runtime/c-libs/posix-tty/osval.c",
       "base/runtime/c-libs/posix-signal/osval.c", "base/runtime/c-libs/posix-procenv/sysconf.c",
       "base/runtime/c-libs/posix-filesys/pathconf.c", "base/runtime/c-libs/smlnj-sockets/", "base/runtime/gc/ml-objects.c"],
      [("name to value lookup", "base/runtime/c-libs/posix-os/osval.c"), ("listing", "base/runtime/gc/ml-objects.c")],
      "constant evaluation of every table initialiser in the clang AST against the system headers, order and length "
      "obligations on searched tables, induction-variable analysis of the loops over them",
      "All tables, including those the build generates. The headers of this system are the reference; only the names "
      "themselves are listed in the check."),
    P("R07", "System primitives pass on exactly what was asked and return what the OS answered",
      "For every primitive of the Posix, Socket, NetDB, OS, Time, Date and Signals interfaces, and every combination of "
      "arguments and OS answers it distinguishes, each argument, flag and structure field handed to the operating system "
      "is the one the caller supplied in that position, and each component of the result is the documented component of "
      "the OS's answer - in the right order, polarity, byte order, unit and width, with nothing truncated, defaulted, "
      "dropped or left uninitialised - and no other system call is made.",
      ["inputs"], "every primitive, every class of arguments and of OS results",
      "Most options, flags and rare results are never exercised by the suite, and many need particular OS state.",
      ["base/runtime/c-libs/"], [("argument decoding and result construction in each primitive", "base/runtime/c-libs/*/"),
                                 ("conversion macros", "base/runtime/include/ml-values.h, ml-objects.h")],
      "guarded value-provenance dataflow over the clang AST compared with a reviewed contract of sources and sinks",
      "Every primitive in the binding tables except a short list is analysed for each class of its inputs; components "
      "built by unbounded loops (list elements) are not compared. The oracle is a contract table extracted once and "
      "reviewed against POSIX and the SML side."),
    P("R10", "Every collection starts from every root the program state has",
      "Whenever a garbage collection runs, whatever triggered it, the collector is given every root: each ML register of "
      "the running state (argument, continuation, closure, exception handler, var register, callee-save registers, link "
      "register), every C global that holds an ML value, and every extra root its caller names, and nothing but roots; "
      "afterwards allocation resumes at the base of the emptied allocation arena with a limit that leaves the reserved slack.",
      ["histories", "inputs"], "every collection, every register and registered global, every number of extra roots",
      "A missing root does harm only if it holds the last reference to a young object at the moment of a collection.",
      ["base/runtime/gc/call-gc.c", "base/runtime/kernel/globals.c", "base/runtime/c-libs/smlnj-prof/setpref.c"],
      [("root vector construction", "base/runtime/gc/call-gc.c"), ("table of C roots", "base/runtime/kernel/globals.c")],
      "must-contents array analysis with symbolic positions and loop-quantified facts over the clang AST, interprocedural",
      "Both collection entry points, all paths; loops are summarised by a facts-for-all-iterations domain. Covers the "
      "collection of roots, not what the collector does with them."),
    P("R11", "A collection moves each object whole, once, and follows every reference in it",
      "In every minor and major collection: an object that is reached is copied word for word with its descriptor to the free "
      "end of the to-space arena for its kind (of the next generation if it survived before), the free pointer ends behind the "
      "copy, the old object leads to the copy, and an object met again is not copied again; every root, every updated word and "
      "every dirty card is looked at, and every word that was moved is examined before the sweep ends, whichever arena it lies in "
      "and whenever it arrived there; raw data and references to what is not collected stay as they are; cards keep being "
      "remembered while they hold references to a younger generation; big objects that were reached are kept in or promoted to "
      "the right generation and only the others are freed; weak pointers end with the new address of their target or dead.",
      ["histories", "inputs"], "every kind and size class of object, every arena and generation, every collection level",
      "A mistake here shows only when an object of the affected kind survives in the affected arena at the moment of a collection "
      "of the affected generation.",
      ["base/runtime/gc/minor-gc.c", "base/runtime/gc/major-gc.c", "base/runtime/gc/gc-util.c"],
      [("forwarding and sweeping of the allocation space", "base/runtime/gc/minor-gc.c"),
       ("forwarding, sweeping, dirty cards and big objects of the generations", "base/runtime/gc/major-gc.c"),
       ("weak pointers", "base/runtime/gc/gc-util.c (ScanWeakPtrs)")],
      "abstract interpretation of the collector's routines over the clang AST, per object shape and arena state, with symbolic contents",
      "Object contents, addresses and arenas are symbolic; descriptors, page classes and the number of waiting words are enumerated by "
      "class (sizes up to 8 words, two words waiting per arena, two or three generations). The size of to-space, the flip and the page "
      "table are not covered (see N02)."),
    P("R12", "Each signal is handled once, and the interrupted state resumes intact",
      "Whenever signals arrive, including while C code or a signal handler runs: every signal received is counted once under "
      "its own number, per-signal and total counters of received and handled signals stay in step, each pending signal is found "
      "and handed to the ML handler exactly once as (code, number outstanding, resumption), a handler is requested exactly "
      "when ML code is running and none is pending or active, a garbage-collection signal is raised only when enabled and the "
      "collection reached its threshold, and resuming restores every register to its value at the interruption.",
      ["schedules", "histories"], "every arrival time and number of signals, every flag combination, every table position",
      "What happens depends on when signals arrive relative to ML code, C code, other signals and running handlers.",
      ["base/runtime/mach-dep/signal-util.c", "base/runtime/mach-dep/unix-signal.c", "base/runtime/kernel/run-ml.c"],
      [("signal bookkeeping and resume state", "base/runtime/mach-dep/signal-util.c"), ("C signal handler", "base/runtime/mach-dep/unix-signal.c"),
       ("dispatch to ML", "base/runtime/kernel/run-ml.c")],
      "path-sensitive value-numbering analysis of the signal state over the clang AST; save/restore slot agreement; truth "
      "table of the request condition; event-order typestate of RunML",
      "All paths of the bookkeeping functions and of RunML's signal requests. Atomicity of a counter update against a signal "
      "arriving in the middle of it is not covered."),
    P("R09", "Heap images restore what was saved, and failed image I/O is never a success",
      "For every heap and at every point where image I/O can fail: exporting saves each ML register and runtime root (pc, standard "
      "argument, closure, continuation, exception continuation, variable register, callee-save registers, signal handler, pervasive "
      "structure, run-time compilation unit), importing restores each from the field it was saved in, relocated; "
      "replacing references to C symbols covers every record, pair and array arena and is undone, on every path and over the same "
      "arenas, before the exporting program continues; the reader takes the blocks of an image in the order and sizes the writer "
      "put them; and a failed write, close or read of an image (exportML, exportFn, blastOut, blastIn, loading) is never "
      "reported as success.",
      ["inputs", "crash_points"], "every image operation assumed to fail in turn; every arena, register and block",
      "A full disk or a truncated image at one particular block is never sampled, and a register lost or not relocated shows "
      "only in programs that happen to need it after a reload.",
      ["base/runtime/gc/export-heap.c", "base/runtime/gc/import-heap.c", "base/runtime/gc/blast-out.c", "base/runtime/gc/blast-in.c",
       "base/runtime/gc/writer.c", "base/runtime/gc/heap-in-util.c"],
      [("writing images", "base/runtime/gc/export-heap.c"), ("reading images", "base/runtime/gc/import-heap.c"),
       ("blasting objects", "base/runtime/gc/blast-out.c")],
      "path-sensitive value-numbering analysis over the clang AST with one image operation assumed to fail at a time; save/restore "
      "field agreement; arena coverage; writer/reader block-sequence agreement",
      "All paths of the image code, each image operation in turn assumed to fail. The addresses computed while relocating a single word "
      "(RepairWord) and the contents of the export table are not modelled."),
    P("R08", "Basis system functions call the right primitive and decode its answer faithfully",
      "For every function exported by the Basis structures Posix, OS.FileSys, OS.Process, OS.IO, Unix, Socket, INetSock, "
      "UnixSock, the network data bases, Time, Date and Timer, and every case it distinguishes, the runtime primitive invoked is "
      "the one the operation is documented to perform, each component of the caller's argument reaches its documented position "
      "in the documented unit and encoding, and the SML result is assembled from the documented components of the primitive's "
      "answer (or the documented exception is raised); nothing is swapped, dropped, doubled or invented on the way.",
      ["inputs"], "every exported function, every case of its arguments, refs and primitive answers",
      "Most options, flags, whence values, signals, socket modes and exit statuses are never exercised by the suite.",
      ["base/system/Basis/Implementation/Posix/", "base/system/Basis/Implementation/Unix/", "base/system/Basis/Implementation/Sockets/"],
      [("primitive bindings and conversions", "base/system/Basis/Implementation/Posix/*.sml"),
       ("socket operations", "base/system/Basis/Implementation/Sockets/socket.sml")],
      "path-sensitive value-provenance normal form of the elaborated SML (helpers inlined, functors resolved) compared with a "
      "reviewed contract",
      "All paths of 629 exported functions, taken from the type-checked abstract syntax of the current sources. Bodies of "
      "local recursive loops are compared only by the operations they use. The contract was extracted once and reviewed."),
]

NOT_APPLICABLE = [
    N("N01", "Compiled programs behave as the Definition of Standard ML says",
      "For every well-typed source program, the generated machine code has the behaviour the language definition gives "
      "the source.", ["programs", "inputs"], "all programs and inputs",
      "The suite compiles a fixed set of programs.", ["base/compiler/"], [("the optimiser and code generator", "base/compiler/FLINT, base/compiler/CPS")],
      "semantic preservation of an optimising compiler is a statement about the meaning of all its outputs; no static "
      "rule over the compiler's own source decides it"),
    N("N02", "The garbage collector preserves the reachable heap",
      "After any collection the object graph reachable from the program is isomorphic to the one before it.",
      ["histories"], "all heap graphs", "Collections in tests are few and small.", ["base/runtime/gc/"],
      [("generational copying", "base/runtime/gc/minor-gc.c, major-gc.c")],
      "graph isomorphism across a copying collection is a heap-shape invariant over unbounded runtime data; the single steps it is made of "
      "are decided by R10 (roots) and R11 (moving and following)"),
    N("N03", "A program accepted by the type checker does not go wrong",
      "No well-typed program without Unsafe can corrupt memory, confuse representations or reach an unhandled case other than Match/Bind.",
      ["programs"], "all programs", "The suite type-checks a fixed set of programs.",
      ["base/compiler/ElabData/", "base/compiler/Elaborator/"], [("elaborator", "base/compiler/Elaborator/")],
      "soundness of the type system as implemented is a metatheorem about all inputs of the elaborator"),
    N("N04", "Basis arithmetic returns the mathematically right value or Overflow",
      "Int, Word, IntInf and Real operations and their conversions from and to strings give the exact or correctly rounded result.",
      ["inputs"], "all operands", "Tests sample operands.", ["base/system/Basis/Implementation/"],
      [("IntInf and Real conversions", "base/system/Basis/Implementation/core-intinf.sml, real64.sml")],
      "numeric results over unbounded operands need a proof of the algorithms, not a dataflow fact"),
    N("N05", "CML synchronisation is atomic, fair and loses no message",
      "Each send is matched with exactly one receive, a choice commits to exactly one branch, and no ready thread starves.",
      ["schedules"], "all schedules and thread histories", "Tests run one schedule.", ["cml/src/core-cml/"],
      [("channels and the scheduler", "cml/src/core-cml/channel.sml, scheduler.sml")],
      "matching and fairness depend on queue contents along unbounded schedules; only lock discipline would be static, and it "
      "does not imply them"),
    N("N06", "CM recompiles exactly what a change requires",
      "After any edit, the units recompiled are those whose imports changed, and the result equals a full rebuild.",
      ["histories"], "all edit histories", "Tests build once.", ["base/cm/"], [("dependency analysis", "base/cm/compile/compile.sml")],
      "it relates the contents of file systems and pickles across runs"),
    N("N07", "Parser and lexer generators accept the language of their grammar",
      "The generated parser accepts exactly the sentences of the grammar after the documented conflict resolution.",
      ["programs", "inputs"], "all grammars and inputs", "Tests have a few grammars.", ["ml-yacc/", "ml-lpt/", "ml-lex/"],
      [("LALR construction", "ml-yacc/src/lalr.sml")], "language equality of generated automata is not a property of the generator's control or data flow"),
    N("N08", "Regular-expression matching finds the documented match",
      "Every matcher back end finds a match iff one exists and reports the documented one.",
      ["inputs"], "all expressions and strings", "Tests sample expressions.", ["smlnj-lib/RegExp/"],
      [("back ends", "smlnj-lib/RegExp/BackEnd/")], "requires reasoning about values of recursive matching, not about program structure"),
    N("N09", "Collections in the library keep their invariants",
      "Maps, sets, queues, hash tables and arrays behave as their abstract specification for every sequence of operations.",
      ["histories", "inputs"], "all operation sequences", "Tests run short sequences.", ["smlnj-lib/Util/"],
      [("balanced trees and hash tables", "smlnj-lib/Util/")], "data-structure invariants over unbounded heaps need functional-correctness proofs"),
]
