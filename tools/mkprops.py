import json
P=[]
def prop(id,title,statement,over,qt,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    assert len(title)<=80,title
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

prop("C01","Errors reported by kernels always surface as exceptions",
 "Whenever a compute kernel reports a failure, the operation that ran it raises an exception carrying that failure; no operation continues with, or returns, results of a failed kernel. This holds on every control path of every operation, including rarely taken branches, and no intermediate layer swallows the failure.",
 ["inputs","fault_sequences"],"every kernel call site, every input on which the kernel fails, every path from the call to the operation's return",
 "Tests trigger a few dozen of the ~1000 kernel call sites in their failing state; most error branches are never taken by any test.",
 ["src/libawkward/util.cpp","src/libawkward/array/*.cpp","src/libawkward/*.cpp","src/libawkward/kernel-dispatch.cpp","src/cpu-kernels/*.cpp","src/python/*.cpp","include/awkward/common.h"],
 [("kernels return a result struct; every caller hands it to the raising handler","src/libawkward/util.cpp handle_error"),("result constructors","include/awkward/common.h success/failure")],
 [("result text","null means success; non-null is the failure message","include/awkward/common.h")],["exception type and message in C++ and Python"])

prop("C02","Existing arrays are never modified by operations on them",
 "Arrays are immutable: no slicing, reduction, sorting, merging, conversion or other operation changes a buffer, index, parameter set or child of an array that already existed before the operation, whether or not the result shares memory with it. Data is only ever written into storage that the operation itself has just allocated. The documented explicit setters are the only exception.",
 ["inputs","histories"],"every operation, every array layout and every later use of the inputs, views and copies sharing the same buffers",
 "Tests look at results, hardly ever at the inputs after the call, and only for a few layouts; a write through a shared buffer shows only when an alias is read later.",
 ["src/cpu-kernels/*.cpp","src/libawkward/array/*.cpp","src/libawkward/*.cpp","kernel-specification.yml","src/awkward/operations/*.py","src/awkward/highlevel.py"],
 [("kernels write only through their output arguments","kernel-specification.yml dir: out"),("callers pass freshly allocated buffers as outputs","src/libawkward/array/*.cpp"),("nodes are const after construction","include/awkward/Content.h")],
 None,["buffers of the inputs after any call"])

prop("C03","Kernel dispatch runs the named kernel with the caller's arguments",
 "For every kernel and every supported combination of element types, requesting it through the library runs exactly the implementation of that name for those types, with the caller's arguments unchanged and in order. A request for a backend that is unknown or that does not provide the kernel raises an error instead of returning as if it had succeeded.",
 ["programs","configurations"],"all ~730 dispatch entry points and all ~900 exported kernel specialisations, for each backend value",
 "Most type specialisations (unsigned 32-bit, 8/16-bit, complex) are never exercised through the dispatch layer; same-typed arguments can be exchanged without a compile error.",
 ["src/libawkward/kernel-dispatch.cpp","src/cpu-kernels/*.cpp","include/awkward/kernels.h","kernel-specification.yml"],
 [("three-way dispatch on the backend","src/libawkward/kernel-dispatch.cpp"),("exported specialisations forward to one template","src/cpu-kernels/*.cpp"),("kernel specification","kernel-specification.yml")])

prop("C04","Integers read from array data are range-checked before being followed",
 "Each kernel that validates an integer read from array data or supplied by the user (a slice item, an index, a list start, stop or offset, a union tag) accepts exactly the in-range values, with both bounds exact and negative positions counted from the end where slices allow them, for every element it processes and before that position is read or recorded, and reports an error for all others. The lengths it compares with are the true lengths of the buffers and contents concerned.",
 ["inputs"],"every kernel that validates user-supplied integers and every value of those integers, including the boundary values",
 "Boundary values (exactly the length, one below zero after wrap-around, empty lists) are sampled for few kernels and few integer widths.",
 ["src/cpu-kernels/*.cpp","src/libawkward/array/*.cpp"],
 [("bounds tests followed by a failure return","src/cpu-kernels/*.cpp")],None,["exceptions from slicing, carrying and validity checks"])

prop("C05","No Forth program or input can corrupt memory or crash the process",
 "Whatever source code is compiled and whatever bytes and sizes its inputs have, the AwkwardForth virtual machine reads and writes only inside its stack, return stack, loop stack, inputs and outputs (memory exhaustion aside). Running out of stack or depth, reading, seeking or skipping outside of an input, rewinding an output too far and dividing by zero stop the program with the documented error, and nothing else stops it.",
 ["programs","inputs"],"every program, every input content and length, every pause/resume/call history, both integer widths",
 "Tests run a few hundred hand-written programs with well-formed inputs; each instruction is tried in at most one failing state.",
 ["src/libawkward/forth/ForthMachine.cpp","src/libawkward/forth/ForthInputBuffer.cpp","src/libawkward/forth/ForthOutputBuffer.cpp","include/awkward/forth/*.h"],
 [("depth tests before every push and pop","include/awkward/forth/ForthMachine.h"),("position tests in the input buffer","src/libawkward/forth/ForthInputBuffer.cpp"),("growth before output writes","src/libawkward/forth/ForthOutputBuffer.cpp")],
 [("stack depth","number of valid stack cells, 0..max","include/awkward/forth/ForthMachine.h"),("input position","0..length","include/awkward/forth/ForthInputBuffer.h")])

prop("C06","Forth words mean the same when compiled, run, skipped and decompiled",
 "Every built-in word of the AwkwardForth language is reserved, compiles to its own instruction, is executed by that instruction's semantics, occupies the number of instruction slots that branching and stepping assume, and decompiles to the same word. Values read from inputs and written to outputs keep their bytes, order and number for every item type and byte order, inputs are left as they were, and an input whose bytes a program swaps in place is required to be writable. Every error the machine can enter is reported with its own message and can be suppressed or raised only through its own flag.",
 ["programs"],"all words, parser words, number formats, instructions and error kinds",
 "Tests cover most words in isolation, but rarely decompilation, instruction width inside conditionals, or each error's flag; a new or changed instruction needs agreement in five places.",
 ["src/libawkward/forth/ForthMachine.cpp","src/python/forth.cpp","include/awkward/util.h","src/awkward/forth.py"],
 [("word tables, compiler, interpreter switch, decompiler switch, instruction-width switch","src/libawkward/forth/ForthMachine.cpp"),("error reporting in C++ and Python","src/python/forth.cpp maybe_throw")])

prop("C07","No C++ exception escapes the C interface, and its callers see failures",
 "Every function exported with C linkage for compiled (Numba) code returns normally whatever happens inside: a C++ exception becomes a nonzero status. The foreign-function declarations agree with the exported functions in number, order and type of arguments and result, and every compiled call checks the status and raises on nonzero. Functions declared noexcept raise nothing themselves.",
 ["fault_sequences","programs"],"every exported builder function, every exception its body can raise, every compiled call site",
 "Only a few exported functions are driven into their failing state, and a signature mismatch often works by accident of the calling convention.",
 ["src/libawkward/builder/ArrayBuilder.cpp","include/awkward/builder/ArrayBuilder.h","src/awkward/_libawkward.py","src/awkward/_connect/_numba/builder.py"],
 [("catch-all around every body","src/libawkward/builder/ArrayBuilder.cpp"),("argtypes/restype","src/awkward/_libawkward.py"),("status test after each call","src/awkward/_connect/_numba/builder.py call")])

prop("C08","A form survives JSON serialisation, copying and comparison unchanged",
 "For every kind of form, every attribute that the form carries is written to its JSON, read back from that JSON into the same attribute, taken into account when two forms are compared, and kept when the form is copied or re-keyed. No attribute is silently dropped, defaulted or exchanged with another.",
 ["inputs"],"every form class, every attribute and every nesting",
 "Round-trip tests use a handful of forms, mostly with default attributes (no parameters, no identities flag, no form key), in which a dropped attribute is invisible.",
 ["src/libawkward/Content.cpp","src/libawkward/array/*.cpp","include/awkward/array/*.h","src/python/forms.cpp"],
 [("writer","Form::tojson_part"),("reader","src/libawkward/Content.cpp Form::fromjson"),("comparison","Form::equal"),("copies","Form::shallow_copy, with_form_key")])

prop("C09","Views, copies and selections keep an array's parameters and identities",
 "Taking a range, copying, rearranging or otherwise re-wrapping an array node of the same kind yields a node with the same parameters and with identities derived from the original's (same, sliced or rearranged alike), so string-ness, record names and other behaviours never disappear. No attribute of the node (sizes, bit order, mask polarity, field names, caches) is lost or replaced on the way. Operations that make a different kind of node or new contents (projecting fields, padding, sorting, reducing, simplifying across kinds) may start from fresh attributes.",
 ["inputs"],"every array class, every structure-preserving operation, every parameter set",
 "Tests mostly use arrays without parameters or identities, where losing them is invisible.",
 ["src/libawkward/array/*.cpp","src/python/content.cpp","src/awkward/_util.py","src/awkward/operations/structure.py"],
 [("constructors of every result take the original's identities and parameters","src/libawkward/array/*.cpp")])

prop("C10","Every element type is handled with its own type in every table and branch",
 "Wherever behaviour depends on the element type, the branch for a type reads and writes the buffers with exactly that type, calls the kernel or reducer for exactly that type and passes the same lengths as the branches for other types; a type that is not supported raises. Buffers are allocated in items of their own type and minima and maxima start from the neutral element of the type. The tables relating type names, format codes, item sizes, kinds, promotions on merging, DLPack, NumPy and builder codes agree with each other for every type.",
 ["inputs","configurations"],"every element type known to the library in every type-dependent branch and table",
 "The tests cover int64 and float64 thoroughly but many type/operation pairs (unsigned, 8/16-bit, complex, datetime) never.",
 ["src/libawkward/util.cpp","src/libawkward/array/NumpyArray.cpp","src/libawkward/Reducer.cpp","src/python/content.cpp","src/libawkward/layoutbuilder/NumpyArrayBuilder.cpp"],
 [("dtype tables","src/libawkward/util.cpp"),("dtype switches","src/libawkward/array/NumpyArray.cpp")])

prop("C11","Snapshots of an array builder are not affected by later building",
 "An array taken from a builder keeps its contents forever, whatever is appended, cleared or nested afterwards, even though it shares storage with the builder. Appending writes only beyond the end of what has been handed out and within the allocated capacity; growing or clearing moves to new storage.",
 ["histories"],"every sequence of append, snapshot and clear calls and every builder option",
 "Needs a snapshot followed by specific later calls (growth at the capacity boundary, clear, reuse); tests take one snapshot at the end.",
 ["src/libawkward/builder/*.cpp","include/awkward/builder/*.h"],
 [("append-only buffer with copy on growth","src/libawkward/builder/GrowableBuffer.cpp")],
 [("length, capacity, storage","filled cells, allocated cells, shared storage","include/awkward/builder/GrowableBuffer.h")])

prop("C12","Memory shared with Python lives as long as any array using it",
 "An array made from a NumPy array, buffer or capsule keeps the owning Python object alive for as long as any array shares its memory, and every NumPy array or buffer handed to Python keeps the library's storage alive. Python objects are created, inspected and released only while holding the interpreter lock.",
 ["histories","schedules"],"every import/export path, every order of destruction, every thread that may run the destructor or a released region",
 "A dangling buffer shows only when the owner is collected first and the memory reused; tests keep their inputs alive and run single-threaded.",
 ["src/python/*.cpp","include/awkward/python/*.h"],
 [("deleter holding a reference to the Python owner","include/awkward/python/util.h pyobject_deleter"),("base object on exported NumPy arrays","src/python/content.cpp"),("lock released only around pure C++ regions","src/python/forth.cpp")])

prop("C13","Every kind of array node is accepted at every boundary",
 "Every concrete array, form, slice and builder class that the library can produce is converted to and from Python, serialised and deserialised, viewed from compiled code and traversed by the high-level operations; none falls through to a wrong class or to a silent no-op. A value of an unknown kind raises an error.",
 ["inputs","programs"],"every concrete node class at every conversion or traversal point",
 "Tests rarely use the less common classes (unsigned 32-bit variants, bit masks, unmasked options) at each boundary.",
 ["src/python/content.cpp","src/python/forms.cpp","src/libawkward/Content.cpp","src/awkward/_util.py","src/awkward/operations/convert.py","src/awkward/_connect/_numba/layout.py","src/awkward/_connect/_numba/arrayview.py"],
 [("box/unbox chains","src/python/content.cpp"),("class tuples and isinstance chains","src/awkward/_util.py")])

prop("C14","Virtual arrays are checked against their declared form and length",
 "A lazily generated array is used, returned or cached only after its form and length have been compared with the declared ones, and generated data that is too short or of another form raises; data that passed is what the cache and later accesses return. Slices, fields and copies of a virtual array stay bound to the same generator, declared length, depths and cache, and every array that contains a virtual array keeps its cache alive.",
 ["inputs","histories"],"every generator (including misbehaving ones), every cache state, every access path",
 "Tests use well-behaved generators; the checks matter only for generators that return something else than declared, on each of the access paths.",
 ["src/libawkward/virtual/*.cpp","src/libawkward/array/VirtualArray.cpp","src/python/virtual.cpp"],
 [("generate_and_check","src/libawkward/virtual/ArrayGenerator.cpp"),("caches of every class","src/libawkward/array/*.cpp caches"),("caches kept by the high-level objects","src/awkward/highlevel.py")])

prop("C15","Validity checking examines every index and every child",
 "The validity check of an array reports an error if any list boundary, index, tag, mask length or child length anywhere in the (possibly deeply nested) structure is out of range, for every node class. It never stops early at a node whose children have not been examined.",
 ["inputs"],"every node class, every kind of invalidity at every depth",
 "Tests check a few invalid arrays; each (class, kind of invalidity, depth) combination is a separate branch.",
 ["src/libawkward/array/*.cpp","src/cpu-kernels/*validity*.cpp"],
 [("validityerror of every class","src/libawkward/array/*.cpp"),("validity kernels","src/cpu-kernels/")])

prop("C16","User-given positions are bounds-checked exactly and lead to that element",
 "Asking any array, index, partitioned array, builder or iterator for the element at an integer position accepts exactly -length..length-1, counts negative positions from the end and raises otherwise; asking for a range clips to the array. The element or range that results is the one at that position: offsets, indexes and tags are checked against the child before it is entered, mask bits are read at that position, and every buffer of a node is cut at the same place.",
 ["inputs"],"every array class, every length (including empty) and every integer",
 "Tests try a few in-range and out-of-range positions on a few classes.",
 ["src/libawkward/array/*.cpp","src/libawkward/Index.cpp","src/libawkward/Identities.cpp","src/libawkward/partition/*.cpp","src/python/*.cpp"],
 [("getitem_at wraps and tests before getitem_at_nowrap","src/libawkward/array/*.cpp")])

prop("C17","Operations leave no shared mutable state behind: concurrent use is safe",
 "Array operations are pure with respect to the process: they keep no hidden mutable state in globals, function-local statics or array nodes, so the same arrays can be used from several threads at once and results never depend on earlier calls. The only state that changes is that of objects documented as mutable (builders, caches, virtual generators, the Forth machine, library registration).",
 ["schedules","histories"],"every pair of concurrent operations on shared arrays and every history of earlier calls",
 "Single-threaded tests with independent inputs cannot see hidden state.",
 ["src/libawkward/**/*.cpp","src/cpu-kernels/*.cpp","include/awkward/**/*.h"],
 [("const methods, no mutable fields, no mutable statics","include/awkward/**/*.h")])

prop("C18","Compiled-code views read exactly the slots that the array provides",
 "When an array enters compiled (Numba) code, the table of buffer addresses and lengths written for it has exactly the layout that the compiled accessors of its type read: every accessor reads the slot that was written for that purpose, for every node class and nesting. Elements read in compiled code are bounds-checked like in the interpreter unless they were already checked.",
 ["programs","inputs"],"every node class, every nesting, every accessor",
 "Tests compile a few dozen functions on a few layouts; a slot mismatch in a rare class reads a wrong address.",
 ["src/awkward/_connect/_numba/layout.py","src/awkward/_connect/_numba/arrayview.py"],
 [("tolookup / form_fill writers and slot-number constants","src/awkward/_connect/_numba/layout.py"),("Lookup","src/awkward/_connect/_numba/arrayview.py")])

prop("C19","High-level operations honour highlevel and behavior on every path",
 "Every high-level function that accepts the highlevel and behavior options returns on every path a high-level array built with the caller's (or the inputs') behavior when highlevel is true, and the bare layout when it is false. No path returns the wrong kind of object or drops the behavior.",
 ["inputs"],"every function with these options, every return path, every input kind",
 "Tests almost always use the defaults and results whose behaviors are global.",
 ["src/awkward/operations/*.py","src/awkward/_util.py"],
 [("wrap / maybe_wrap helpers","src/awkward/_util.py")])

# not decidable by this family
prop("C30","Slicing, broadcasting and reducing agree with NumPy semantics",
 "On regular data, slices, broadcasting, ufuncs and reducers give element-for-element the same values as NumPy; on ragged data they follow the documented generalisation. This includes axis handling, negative axes and keepdims.",
 ["inputs"],"every array, slice tuple, axis and ufunc","Only sampled arrays are compared with NumPy.",
 ["src/libawkward/array/*.cpp","src/awkward/_connect/_numpy.py","src/awkward/operations/reducers.py"],[("getitem_next / reduce_next recursion","src/libawkward/array/*.cpp")])
prop("C31","Values survive conversion to buffers, JSON, Arrow and Python and back",
 "Converting an array to any supported external representation and back yields equal values, missing-value positions and nesting.",
 ["inputs"],"every array and every representation","Round trips are sampled.",
 ["src/awkward/operations/convert.py","src/libawkward/io/json.cpp"],[("to_*/from_* pairs","src/awkward/operations/convert.py")])
prop("C32","Sorting and uniqueness kernels produce correctly ordered permutations",
 "Sort, argsort, rank and unique results are ordered, stable where promised, and permutations of their input within each list.",
 ["inputs"],"every list content","Sampled lists only.",
 ["src/cpu-kernels/awkward_sort.cpp","src/cpu-kernels/awkward_argsort.cpp"],[("sort kernels","src/cpu-kernels")])
prop("C33","Kernels compute what their reference definitions compute",
 "For all inputs, each compiled kernel produces the same outputs as its reference definition in the kernel specification.",
 ["inputs"],"every kernel and every input","Generated tests sample small inputs.",
 ["src/cpu-kernels/*.cpp","kernel-specification.yml"],[("reference definitions","kernel-specification.yml")])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P: jsonschema.validate(p,s)
print(len(P))
