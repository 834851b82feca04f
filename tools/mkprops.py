import json
import os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A lazy array always equals its eager counterpart, whatever the cache does",
"An array whose parts (whole array, record columns, list contents, partitions) are generated on demand gives, for every sequence of operations a user applies to it, the same values, lengths, types and errors as the array built eagerly from the same data. This must not depend on when, whether or for how long the cache keeps a generated part: entries may be evicted, lost or expire between any two accesses, including while an operation is running, or there may be no cache at all.",
["histories","fault_sequences","configurations"],
"Every generated data structure with on-demand parts at any nesting level, every program of slicing/field/reduce/join/option/copy/pickle/convert operations over it, and every schedule of cache evictions, forgotten writes and lost lookups before and during each operation.",
"The tests exercise a few hand-written lazy arrays with a dict cache that never evicts, or is cleared by hand once; the lazy code takes different branches depending on whether the part happens to be cached at that instant, and the number of eviction points grows with every operation.",
["src/libawkward/array/VirtualArray.cpp","src/libawkward/virtual/ArrayGenerator.cpp","src/libawkward/virtual/ArrayCache.cpp","src/python/virtual.cpp","src/awkward/operations/structure.py","src/awkward/_util.py"],
[("peek / materialise branches in every getitem and carry","src/libawkward/array/VirtualArray.cpp"),("generated-part lookup and store","src/libawkward/virtual/ArrayCache.cpp"),("deferred slices of a lazy array","src/libawkward/virtual/ArrayGenerator.cpp SliceGenerator"),("python cache adaptor: any lookup exception is a miss","src/python/virtual.cpp PyArrayCache"),("ak.virtual, ak.materialized, ak.with_cache","src/awkward/operations/structure.py")],
state=[("cache mapping","user-supplied MutableMapping held by weak reference; the simulator's storage seam","src/python/virtual.cpp")],
observe=["ak.to_list / ak.type / len of every result","exception class of failing operations"])

p("C02","A failed on-demand read is reported, leaves nothing behind, and is retryable",
"When generating a part of a lazy array raises, or yields data that contradicts the declared length or form, the operation that needed it raises instead of returning; the failed or contradictory part is never stored in the cache and never influences other arrays that share the cache. Once the source works again the very same operation on the same array succeeds with the correct result.",
["fault_sequences","histories"],
"Every placement of failing generator calls (exceptions, too-short data, data of another form, wrong kind of object), of failing cache stores, and of recoveries, within every program over lazy arrays.",
"Tests check one short generator and one wrong form at a time, on a fresh array, without a retry afterwards; they never fail the n-th generator call inside a multi-part operation nor look at what the cache holds afterwards.",
["src/libawkward/virtual/ArrayGenerator.cpp","src/libawkward/array/VirtualArray.cpp","src/python/virtual.cpp"],
[("length and form check after generation","src/libawkward/virtual/ArrayGenerator.cpp generate_and_check"),("generate, then store","src/libawkward/array/VirtualArray.cpp array()")],
observe=["the exception seen by the caller","the cache's contents after each operation","the retried result"])

p("C03","Lazy data are read only when needed, and only once while cached",
"Building a lazy array with a declared form and length, selecting its fields, range-slicing it and asking for its type or length read no data; an operation on some columns reads only those columns. While the cache still holds a generated part, no operation generates that part again.",
["histories","configurations"],
"Every history of operations over lazy record/list/partitioned arrays with any interleaving of cache retention and eviction.",
"Tests count generator calls for a couple of fixed arrays and one operation; whether a part is re-read depends on the history of earlier operations and cache keys derived for slices, fields and copies.",
["src/libawkward/array/VirtualArray.cpp","src/libawkward/virtual/ArrayGenerator.cpp","src/awkward/operations/convert.py","src/awkward/operations/structure.py"],
[("lookup before generate","src/libawkward/array/VirtualArray.cpp array()"),("field/range slices stay lazy","src/libawkward/array/VirtualArray.cpp getitem_field, getitem_range"),("lazy from_buffers recursion","src/awkward/operations/convert.py")],
observe=["sequence of generator / container reads between operations"])

p("C04","Lazy arrays sharing one cache never get each other's data",
"Any number of lazy arrays, created by any mix of constructors, copies, slices, pickles and threads, can share one cache: each always yields its own data. Automatically assigned cache identities are never handed out twice in a process, however calls from concurrent threads interleave.",
["schedules","histories"],
"All interleavings of native threads creating lazy arrays and all histories of creating, slicing, copying, unpickling and dropping arrays that share one cache.",
"A collision needs two threads inside the key generator at the same time or a rare combination of derived arrays; single-threaded tests with two or three arrays cannot produce either.",
["src/libawkward/virtual/ArrayCache.cpp","src/libawkward/array/VirtualArray.cpp","src/awkward/operations/convert.py","src/libawkward/Identities.cpp"],
[("process-wide key counter","src/libawkward/virtual/ArrayCache.cpp newkey"),("from_buffers key counter and per-node key suffixes","src/awkward/operations/convert.py _from_buffers_key"),("process-wide reference counter","src/libawkward/Identities.cpp newref")],
state=[("numkeys","next automatically assigned key","src/libawkward/virtual/ArrayCache.cpp")],
observe=["keys of all arrays created","data read through a shared cache"])

p("C05","ArrayBuilder holds exactly the history appended to it; snapshots never change",
"After any sequence of append commands (missing values, booleans, numbers, dates, strings, lists, tuples, records, values copied from existing arrays), a snapshot equals the data those commands describe, regardless of the buffer-growth settings and of how types had to be widened along the way. A snapshot taken earlier never changes, whatever is appended, cleared or dropped later; a command that is illegal at that point raises and leaves the accumulated data as they were.",
["histories","configurations"],
"Every command history (legal and illegal), every initial-size and growth-factor setting, and every set of instants at which snapshots are taken and re-read.",
"Type promotion (unknown to number to option to union), growth boundaries and snapshot instants multiply; tests build a few fixed sequences with the default settings and rarely re-read an old snapshot after later appends.",
["src/libawkward/builder/ArrayBuilder.cpp","src/libawkward/builder/UnionBuilder.cpp","src/libawkward/builder/OptionBuilder.cpp","src/libawkward/builder/RecordBuilder.cpp","src/libawkward/builder/TupleBuilder.cpp","src/libawkward/builder/ListBuilder.cpp","src/libawkward/builder/UnknownBuilder.cpp","src/libawkward/builder/GrowableBuffer.cpp","src/libawkward/builder/IndexedBuilder.cpp","src/awkward/highlevel.py"],
[("append-only buffers, reallocated on growth","src/libawkward/builder/GrowableBuffer.cpp"),("builder replacement on type promotion","src/libawkward/builder/*Builder.cpp maybeupdate"),("snapshot views","src/libawkward/builder/*Builder.cpp snapshot")],
observe=["to_list of all snapshots, after every later command"])

p("C06","A failed allocation while building loses nothing already built",
"If memory runs out while a value is being appended to an array under construction, the call raises an ordinary exception and the process survives; snapshots taken before stay intact, and data completed before the failing call can still be obtained correctly from the builder (or the builder reports an error), never altered or garbage.",
["fault_sequences","histories"],
"Every allocation that an append, growth, type promotion or snapshot performs, at any point of any command history.",
"No test makes an allocation fail; growth and type-promotion code replaces buffers in several steps and each step is a possible failure point.",
["src/libawkward/builder/GrowableBuffer.cpp","src/libawkward/builder/UnionBuilder.cpp","src/libawkward/builder/OptionBuilder.cpp","src/libawkward/builder/RecordBuilder.cpp","src/libawkward/kernel-dispatch.cpp"],
[("grow: allocate, copy, swap","src/libawkward/builder/GrowableBuffer.cpp set_reserved"),("promotion builds the replacement before it is installed","src/libawkward/builder/UnionBuilder.cpp fromsingle, OptionBuilder.cpp fromvalids")],
observe=["exception or survival of the process","snapshots before/after"])

p("C07","Running out of memory in an array operation is an exception, never bad data",
"If an allocation fails at any point inside an array operation, the operation raises an ordinary exception and the process survives; the operands, every other live array and the caches are unchanged. Repeating the operation once memory is available gives exactly the result it would have given without the failure.",
["fault_sequences","programs"],
"Every n-th allocation of every operation in any program over arrays of every layout class.",
"No test makes an allocation fail; each operation allocates several intermediate index and content buffers, so the number of (operation, failing allocation) pairs is far beyond what is written by hand.",
["src/libawkward/kernel-dispatch.cpp","src/cpu-kernels/malloc.cpp","src/libawkward/Index.cpp","src/libawkward/Content.cpp","src/libawkward/array","src/python/content.cpp"],
[("owning pointers around every buffer","src/libawkward/kernel-dispatch.cpp malloc/ptr_alloc"),("exception translation to Python","src/python/content.cpp")],
observe=["exception / result of the failing call","values of all live arrays afterwards","result of the retry"])

p("C08","Reading JSON from a file never yields silently wrong or partial data",
"Reading a JSON file gives the same array for every read-buffer size and however the operating system splits the file into partial reads, and equals parsing the same text from memory. If the file is truncated, torn, damaged so that it is no longer valid JSON, or a read fails part-way, the call raises; it never returns an array missing data that is in the file.",
["fault_sequences","configurations","inputs"],
"Every JSON document, buffer size, sequence of partial reads, interrupted calls, read errors at any offset, truncation at any byte and changed byte.",
"Tests read three small files with the default buffer from a healthy disk; a chunk boundary inside a token, an I/O error in the middle and a truncated file never occur.",
["src/libawkward/io/json.cpp","src/python/io.cpp","src/awkward/operations/convert.py"],
[("streaming file reader","src/libawkward/io/json.cpp FromJsonFile"),("parse error reporting","src/libawkward/io/json.cpp do_parse")],
observe=["result or exception of from_json on a simulated file"])

p("C09","Writing JSON to a file either completes or raises",
"When writing an array as JSON to a file returns normally, the file holds the complete document, byte for byte the text that would be produced in memory, for every buffer size and however writes are split. If the disk fills up, a write or the final flush fails, or the file cannot be opened, the call raises.",
["fault_sequences","configurations"],
"Every array, output option, buffer size, and every short write, interrupted call, full disk or write error at any byte including the final flush.",
"Tests only write small files to a healthy disk.",
["src/libawkward/io/json.cpp","src/python/content.cpp","src/python/partition.cpp","src/awkward/operations/convert.py"],
[("streaming file writer","src/libawkward/io/json.cpp ToJsonFile / ToJsonPrettyFile"),("open/close around the writer","src/python/content.cpp tojson_file")],
observe=["exception or bytes on the simulated disk"])

p("C10","Arrays stored as buffers come back intact or not at all",
"Decomposing any array into named buffers in a user-supplied store, and rebuilding it eagerly, lazily, by partition or by pickling, gives an equal array. If the store has lost or truncated buffers, or fails or is interrupted during any read or write, rebuilding or first use raises rather than yielding values that are not in the stored data, and succeeds after the store recovers.",
["fault_sequences","histories","configurations"],
"Every array layout, naming configuration, eager/lazy mode and partitioning, with any subset of stores lost, reads failing, buffers missing or cut short, and crash points during decomposition.",
"Tests round-trip fixed arrays through a healthy dict.",
["src/awkward/operations/convert.py","src/awkward/highlevel.py","src/python/forms.cpp"],
[("decompose","src/awkward/operations/convert.py to_buffers"),("rebuild and length checks","src/awkward/operations/convert.py _form_to_layout"),("pickle","src/awkward/highlevel.py __getstate__/__setstate__")],
observe=["rebuilt values / exceptions","stored buffers"])

p("C11","Stepping, pausing and resuming a Forth program changes nothing",
"A Forth program gives the same stack, variables, outputs, input positions and error outcome whether it is run at once, single-stepped, paused and resumed, or called word by word, in any mixture; and these equal what the words of the language mean, in Forth and here. A machine that is reset or re-run on new inputs behaves like a fresh one.",
["schedules","programs","histories"],
"Every program, input and schedule of run/step/resume/call/pause/reset.",
"Tests step or resume a few hand-written programs; the machine's saved position inside nested loops, branches and words differs at each of the possible interruption points.",
["src/libawkward/forth/ForthMachine.cpp","src/libawkward/forth/ForthInputBuffer.cpp","src/libawkward/forth/ForthOutputBuffer.cpp","src/python/forth.cpp"],
[("bytecode loop with explicit recursion stacks","src/libawkward/forth/ForthMachine.cpp internal_run"),("single-step and resume","src/libawkward/forth/ForthMachine.cpp step, resume")],
observe=["stack, variables, outputs, input positions, error after each scheduling step"])

p("C12","Malformed or truncated input to a Forth program is an error, never garbage",
"When input data end early or are corrupted, counts and positions are out of range, or a stack, recursion or output limit is hit, the program stops with the documented error (or raises); it never reads or writes outside the given data, never modifies its inputs, never corrupts outputs already written, and the same machine then processes good input correctly.",
["fault_sequences","inputs","programs"],
"Every truncation point and byte corruption of the input of every program, and every placement of the failing access relative to loops and words.",
"Tests try a few error codes with one program each; the values that reach positions and counts come from the (corrupted) data.",
["src/libawkward/forth/ForthMachine.cpp","src/libawkward/forth/ForthInputBuffer.cpp","src/libawkward/forth/ForthOutputBuffer.cpp","src/python/forth.cpp"],
[("bounds check on every read/seek/skip","src/libawkward/forth/ForthInputBuffer.cpp"),("stack and recursion limits","src/libawkward/forth/ForthMachine.cpp")],
observe=["error code / exception","input bytes and guard bytes around them","outputs"])

p("C13","Concurrently running Forth machines do not disturb each other",
"Programs running at the same time in different threads, including on the same input buffers, give exactly the results they give when run alone, for every interleaving of the threads.",
["schedules"],
"All interleavings, at memory-access granularity, of machines running in different threads with shared read-only input buffers.",
"The interpreter lock is released while a program runs, so interleavings are arbitrary; the tests run concurrent machines a few times on whatever schedule the OS picks, each on its own data.",
["src/libawkward/forth/ForthMachine.cpp","src/libawkward/forth/ForthInputBuffer.cpp","src/libawkward/forth/ForthOutputBuffer.cpp","src/python/forth.cpp"],
[("all mutable state is per machine","src/libawkward/forth/ForthMachine.cpp"),("GIL released in run/resume/call","src/python/forth.cpp")],
observe=["results per machine","conflicting accesses to shared memory"])

p("C14","Splitting an array into partitions is invisible",
"Every operation on an array that is split into partitions gives the same values, types and errors as on the unsplit array, for every choice of split points (including empty partitions) and also when partitions are generated on demand, fail, and are retried. The operation may refuse, with an error that says so, partitions whose types differ; broadcasting of fixed-size dimensions is decided per partition and is not covered.",
["configurations","fault_sequences","programs"],
"Every split of every array, every operation, every schedule of on-demand partitions failing, being evicted and recovering.",
"Tests partition a handful of arrays at one place; many operations have separate code for partitions crossing, repartitioning and recombining.",
["src/awkward/partition.py","src/libawkward/partition/PartitionedArray.cpp","src/libawkward/partition/IrregularlyPartitionedArray.cpp","src/awkward/_util.py","src/awkward/operations/structure.py"],
[("per-partition dispatch and recombination","src/awkward/partition.py"),("partition lookup and repartition","src/libawkward/partition/IrregularlyPartitionedArray.cpp")],
observe=["to_list/type of results split vs unsplit"])

p("C15","Operations never change existing arrays",
"No operation, successful or failing, changes the values seen through any array, view, record or scalar obtained earlier, except that assigning a field replaces the content of the one high-level object it is applied to. Copies, pickles and slices taken before an assignment keep their old content.",
["histories","fault_sequences"],
"Every history of operations, assignments, copies and failures with any number of live aliases.",
"Buffers are shared between arrays and results; a wrong in-place update shows only on an alias that tests do not re-read.",
["src/awkward/highlevel.py","src/libawkward/array","src/libawkward/Content.cpp","src/awkward/operations/structure.py","src/cpu-kernels"],
[("immutable buffers shared by reference","src/libawkward/Index.cpp, src/libawkward/array"),("field assignment rebuilds the layout","src/awkward/highlevel.py __setitem__")],
observe=["values of all live arrays after every operation"])

p("C16","Array memory stays valid until the last reference is gone",
"Any array, slice, record, iterator, NumPy view or zero-copy export stays readable with unchanged values after everything it was derived from (source buffers, parent arrays, builders, machines) has been dropped, in any order and with garbage collection at any moment; when all are dropped the memory is given back exactly once.",
["schedules","histories"],
"Every derivation graph, every order of dropping references and every placement of garbage collections.",
"Freed memory usually still contains the old values, so tests that read it back pass; only poisoning freed memory under many release orders shows a dangling view.",
["src/libawkward/kernel-dispatch.cpp","src/libawkward/Index.cpp","src/libawkward/array/NumpyArray.cpp","src/python/content.cpp","src/python/index.cpp","src/python/forth.cpp","src/python/dlpack_util.cpp","src/awkward/highlevel.py"],
[("shared ownership of buffers with custom deleters","src/libawkward/kernel-dispatch.cpp"),("Python object kept alive by exported buffers","src/python/content.cpp pyobject_deleter, buffer protocol")],
observe=["values after poisoned frees","allocation/free ledger"])

p("C17","Threads sharing a lazy array all get the right data, without deadlock",
"When several threads use the same lazy arrays and the same cache at once, each gets the same results as when running alone and all of them finish, for every order in which generators, cache lookups, stores and evictions of the threads interleave, even if a generator fails in one thread.",
["schedules","fault_sequences"],
"All interleavings at generator, cache and container calls among threads sharing arrays and caches, with failures and evictions interspersed.",
"Real thread schedules are not under the tests' control and the tests have no multi-threaded use of lazy arrays.",
["src/libawkward/array/VirtualArray.cpp","src/libawkward/virtual/ArrayCache.cpp","src/python/virtual.cpp","src/awkward/highlevel.py","src/awkward/operations/convert.py"],
[("lookup, generate, store sequence","src/libawkward/array/VirtualArray.cpp array()")],
observe=["per-thread results and completion"])

p("C18","Importing from a failing source raises and never returns partial data",
"Building an array from a Python iterable, a generator of records or nested objects, either consumes the whole source and represents exactly its values or raises; if the source raises, is interrupted or misbehaves part-way, that error reaches the caller, earlier arrays are unaffected, and importing again from a good source gives the right data.",
["fault_sequences","histories"],
"Every nesting of iterables and every point at which iteration, length or element access fails.",
"Tests import well-behaved lists; no test raises from inside a nested iterator.",
["src/awkward/operations/convert.py","src/python/content.cpp","src/libawkward/builder"],
[("recursive fill from Python objects","src/python/content.cpp builder_fromiter"),("from_iter","src/awkward/operations/convert.py")],
observe=["result or propagated exception"])

p("C19","Concurrent reads of shared arrays are race-free",
"Applying any read-only operation to the same arrays from several native threads at once gives in each thread the result of running alone, with no conflicting unsynchronised memory access, for every interleaving.",
["schedules"],
"All interleavings, at memory-access granularity, of threads applying slicing, reducing, sorting, joining and conversion operations to shared arrays through the C++ interface.",
"Tests are single-threaded; a hidden cache or lazily filled field inside a nominally read-only array only shows under particular interleavings.",
["src/libawkward/array","src/libawkward/Content.cpp","src/libawkward/Identities.cpp","src/libawkward/kernel-dispatch.cpp","src/libawkward/Slice.cpp"],
[("arrays are immutable after construction","src/libawkward/array"),("atomic process-wide counters and guarded callback table","src/libawkward/Identities.cpp, src/libawkward/kernel-dispatch.cpp")],
observe=["per-thread results","happens-before conflicts"])

p("C20","A typed layout builder produces exactly what was written to it",
"Filling a builder that was created from a fixed form (nested variable-length lists, records, options, unions and indexed arrays of numbers; or lists of strings or categoricals) gives, for every legal command history, exactly the values written with the types of the form; a snapshot at any instant holds the entries completed so far. Commands of the wrong type or at the wrong place raise, and earlier snapshots never change.",
["histories","configurations"],
"Every such form and every legal or illegal command history of any number of builders, with snapshots at any instant.",
"Tests fill one fixed sequence per form and take the snapshot at its end.",
["src/libawkward/layoutbuilder","src/libawkward/forth/ForthMachine.cpp","src/python/content.cpp"],
[("form-specific builders driven by a Forth program","src/libawkward/layoutbuilder"),("pause/resume between commands","src/libawkward/layoutbuilder/LayoutBuilder.cpp")],
observe=["snapshot values and types after every command","exception of an illegal command"])

# pure functions: not simulation targets
p("N01","Array kernels compute what the kernel specification says",
"Every low-level kernel gives the outputs and error codes of its reference definition for all valid inputs, and never touches memory outside its arguments.",
["inputs"],"All kernel arguments.","Sampled arguments only.",
["kernel-specification.yml","src/cpu-kernels"],[("one C++ function per specified kernel","src/cpu-kernels")])
p("N02","Slicing and broadcasting generalise NumPy",
"For rectangular data every slice and ufunc gives NumPy's answer, and nested lists broadcast and slice by the documented generalisation.",
["inputs","programs"],"All arrays and slices.","Sampled slices only.",
["src/libawkward/Content.cpp","src/libawkward/Slice.cpp","src/awkward/_connect/_numpy.py"],[("getitem_next recursion","src/libawkward/array")])
p("N03","Reducers agree with per-list reduction",
"Reductions, sorts and combinatorics over nested lists equal the plain computation on each list.",
["inputs"],"All arrays and axes.","Sampled arrays only.",
["src/awkward/operations/reducers.py","src/libawkward/Reducer.cpp"],[("reduce_next recursion","src/libawkward/array")])
p("N04","Type and form descriptions round-trip",
"Parsing the textual type or JSON form of any array gives back an equal type or form.",
["inputs"],"All types and forms.","Sampled types only.",
["src/awkward/_typeparser","src/libawkward/type"],[("type parser","src/awkward/_typeparser")])
p("N05","JIT-compiled code sees the same arrays as interpreted code",
"Iterating and indexing an array inside compiled functions gives the same values as outside.",
["programs","inputs"],"All arrays and compiled functions.","Sampled functions only.",
["src/awkward/_connect/_numba"],[("lookup tables and views","src/awkward/_connect/_numba")])
p("N06","Conversions to and from Arrow, Parquet, pandas and NumPy preserve values",
"Converting to another in-memory or columnar representation and back gives an equal array.",
["inputs"],"All convertible arrays.","Sampled arrays only.",
["src/awkward/operations/convert.py"],[("converters","src/awkward/operations/convert.py")])
p("N07","Derivatives through arrays are correct",
"Automatic differentiation of array expressions gives the analytic derivative.",
["inputs","programs"],"All expressions.","Sampled expressions only.",
["src/awkward/_connect/_jax","src/awkward/_connect/_autograd.py"],[("JVP rules","src/awkward/_connect/_jax")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
