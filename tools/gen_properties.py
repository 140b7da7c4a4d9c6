import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Bytes behaves as an immutable byte string under every history",
"Whatever storage a `Bytes` was built from (inline, static, borrowed, boxed, vec, shared or foreign-owned) and whatever history of slicing, shrinking, splitting, cloning, upgrading, reading and converting it went through, it exposes exactly the bytes that the same history applied to a plain byte vector gives. In-range requests always succeed and out-of-range ones are refused (error or panic) while leaving every surviving value intact. Equality, ordering, hashing, plain debug formatting and serialisation depend on the exposed bytes alone.",
["histories","inputs"],"all finite operation histories over all backing kinds, all lengths (notably around the inline capacity) and all ranges, in debug and release arithmetic",
"The existing fuzz test samples one fixed chain of operations on a few storage kinds; the guarantee quantifies over every history, length and range.",
["src/bytes.rs","src/stabby/_mod.rs"],
[("inline/out-of-line discrimination","src/bytes.rs: Bytes, MAX_INLINE_SIZE, len(), as_slice()"),("range narrowing","src/bytes.rs: shrink_to, subsliced, split_at"),("conversions","src/bytes.rs: From/TryFrom impls"),("io::Read and serde","src/bytes.rs: impl Read, serde impls")],
["as_slice()","len()","Result of split_at / TryFrom","Debug/Hash/Ord output","serde encodings"],
state=[("start,len,data,vtable","location, length, owner handle and ownership table of the view","src/bytes.rs: struct Bytes")])

p("C02","Bytes gives back every owner exactly once and never early",
"Each owned buffer or foreign owner placed in a `Bytes` is released exactly once, with the allocation layout or release function it was created with, and only after the last view derived from it is gone. Borrowed and static storage is never released, and no history of clones, splits, upgrades, failed conversions or panics leaks, double-releases or reads released memory.",
["histories","fault_sequences"],"all histories of construction, cloning, narrowing, upgrading, converting back (including failing conversions) and dropping in any order, over every backing kind and hand-written ownership tables",
"Unit tests cannot see leaks, early releases or layout mismatches at all: they assert contents, and they drop values in one order.",
["src/bytes.rs","src/stabby/_mod.rs"],
[("ownership tables (retain/release)","src/bytes.rs: BytesVt and the per-owner statics"),("Clone/Drop/upgrade","src/bytes.rs: impl Clone, impl Drop, upgrade"),("conversions back to owners","src/bytes.rs: TryFrom<Bytes>")],
["allocator calls with their layouts","retain/release calls of a monitored owner","Drop of a monitored owner","AddressSanitizer / Miri reports"],
state=[("reference count of the owner","number of live views + external handles","owner (Arc strong count or foreign table)")])

p("C03","Bytes views can be used from many threads at once",
"Views of one buffer that are cloned, narrowed, read, sent to and dropped on different threads always read the original bytes, without any data race. The buffer is released exactly once, after the last access on any thread, whichever thread drops last.",
["schedules"],"all interleavings of clone, slice, read, upgrade and drop by any number of threads on views sharing one owner",
"A unit test exercises one accidental schedule and has no oracle for a data race; the guarantee is about every schedule.",
["src/bytes.rs"],
[("Send/Sync for Bytes","src/bytes.rs: unsafe impl Send/Sync, BytesVt::send_sync"),("atomic reference counting through the table","src/bytes.rs: retain/release statics")],
["ThreadSanitizer and Miri race reports","release timestamps against last-read timestamps","bytes read by each thread"])

p("C04","Bytes copies only when it says so, and predicts its allocations",
"The predictions `clone_will_allocate` and `upgrade_will_allocate` are exact: the operation allocates if and only if they say so. Copying contents that fit the inline capacity never touches the allocator; narrowing, reading and moving never allocate, and splitting allocates only where cloning would, once. Out-of-line data keeps its address through all of them, and cloning or converting shared storage shares the same memory instead of copying it.",
["inputs","histories"],"all backing kinds, lengths 0..(several times the inline capacity) and narrowing histories",
"Nothing in the test-suite counts allocations or compares data addresses; the boundary lengths where the two paths meet are not sampled.",
["src/bytes.rs"],
[("predictions","src/bytes.rs: upgrade_will_allocate, clone_will_allocate"),("inline storage limit","src/bytes.rs: MAX_INLINE_SIZE, inline_slice, from_slice"),("zero-copy conversions","src/bytes.rs: From impls, TryFrom impls")],
["allocator call counts around each operation","address of the exposed slice before and after"])

p("C05","FFI-safe owners round-trip with no loss, leak or double free",
"Converting a Rust owner (box, vector, string, boxed slice, boxed str, optional value) to its FFI-safe counterpart and back yields the same contents, the same buffer and the same capacity, and cloning yields an equal but independent value. Every element is dropped exactly once and every buffer is freed exactly once with its original layout, even if a closure given in-place mutable access grows, shrinks, replaces or panics.",
["histories","inputs","fault_sequences"],"all element types (including zero-sized, over-aligned and drop-counting ones), lengths, capacities, and histories of conversions, mutations and panics",
"Existing tests convert a handful of values and never observe drops, capacities, layouts passed to the allocator, or panicking paths.",
["src/boxed.rs","src/vec.rs","src/slice.rs","src/string/_mod.rs","src/string/slice.rs","src/option.rs","src/tuple.rs"],
[("raw parts round trip","src/vec.rs, src/boxed.rs: From/Into impls, Drop impls"),("in-place mutation guard","src/vec.rs, src/string/_mod.rs: with_rust_mut"),("Clone/Drop","src/vec.rs, src/slice.rs, src/string: impl Clone/Drop")],
["pointer/len/capacity before and after","drop ledger of monitored elements","allocator ledger with layouts","ASan / Miri reports"],
state=[("ptr,len,cap","buffer triple of the FFI vector/string","src/vec.rs: struct Vec")])

p("C06","FFI-safe slices and strings are faithful views of the borrowed data",
"A borrowed FFI slice or string exposes exactly the elements, length and address of the Rust slice it was made from, in both directions, for shared, mutable, raw and owned flavours. Equality, ordering, hashing, indexing and iteration agree with those of the underlying Rust value, and so does the formatting of borrowed views and strings; writes through a mutable view land in the original, and a null raw view reads as absent rather than as data.",
["inputs"],"all element types, lengths (including empty) and sub-ranges, and all pairs of values for the comparison relations",
"Tests look at a few literals; agreement of Eq/Ord/Hash/Debug and address identity must hold for every value and pair.",
["src/slice.rs","src/string/slice.rs","src/boxed.rs"],
[("reference conversions","src/slice.rs: From/Into, as_ref/as_mut/reborrow, Raw::as_ref"),("delegated traits","src/slice.rs, src/string/slice.rs: Deref, Debug, Eq, Ord, Hash")],
["element values and addresses","results of comparison, hashing, formatting"])

p("C07","C strings are accepted exactly when they are representable",
"Building an owned C string from Rust text succeeds exactly when the text has no NUL other than one optional final terminator (a borrowed one, which cannot add it, needs the terminator to be there unless the text is empty), and the result is a NUL-terminated buffer holding exactly that text; otherwise an error is returned and nothing is leaked or truncated. Reading it back (as text, bytes or an owned string), cloning, comparing and formatting agree with the Rust text, and the compile-time literal macro obeys the same rule.",
["inputs","programs"],"all UTF-8 strings, including empty, multi-byte, NUL in any position(s), and all byte sequences for the unchecked reader",
"The tests check two literals; NUL placement, empty strings and multi-byte text are not quantified over.",
["src/char_p.rs","src/c_char.rs","src/proc_macro/c_str.rs","src/utils/macros.rs"],
[("validation","src/char_p.rs: TryFrom<&str>, TryFrom<String>/new"),("empty string sentinel","src/char_p.rs: char_p_boxed::drop / EMPTY_SENTINEL"),("c! macro","src/proc_macro/c_str.rs")],
["strlen and bytes seen by C","Result of construction","to_str/to_bytes/to_string","allocator ledger"])

p("C08","Closures crossing the boundary are called, shared and freed faithfully",
"Calling an FFI-safe closure (borrowed, boxed or reference-counted, of any supported arity) runs the original closure exactly once per call with the same arguments in the same order and returns its result, whether called from Rust or by C through its raw parts. Its captured state is dropped exactly once, when its last owner goes away, on whichever thread that happens.",
["inputs","histories","schedules"],"all supported arities and argument values, all histories of call/clone/convert/drop, by several threads for the shareable kinds",
"Tests call closures of one or two arguments once; nine generated arities times three ownership kinds times lifetimes and threads are untested.",
["src/closure/boxed.rs","src/closure/arc.rs","src/closure/borrowed.rs","src/closure/mod.rs"],
[("trampolines","src/closure/*.rs: extern \"C\" fn call, with_tuples!"),("retain/free functions","src/closure/arc.rs: release/retain; src/closure/boxed.rs: free")],
["recorded argument vectors and results","drop ledger of captures","ASan/TSan/Miri reports"],
state=[("env_ptr, call, free/release/retain","captured state and its function table","src/closure/*.rs")])

p("C09","Virtual objects dispatch to the right method and are destroyed exactly once",
"Calling a method on an FFI-safe trait object runs that very method of the original value with the same arguments and returns its result, for every supported pointer kind (box, shared, exclusive and shared reference, pinned) and receiver. The value is destroyed exactly once when the last owner goes away, clones are independent or shared exactly as the source pointer's clones are, and a thread-safe object may be used and dropped from any thread. The same holds when the calls come from C through the object's method table, and when the object itself was implemented in C.",
["programs","histories","schedules"],"all trait shapes within the supported grammar (receivers, arities, lifetimes, Clone/Send/Sync bounds), all histories of call/clone/drop, across threads",
"There is one unit test for dyn traits (futures); table slot order, per-pointer destructors and clone semantics are otherwise unobserved.",
["src/dyn_traits/_mod.rs","src/dyn_traits/dyn_drop.rs","src/proc_macro/derives/dyn_trait/_mod.rs","src/proc_macro/derives/dyn_trait/coercions.rs","src/proc_macro/derives/dyn_trait/vtable_entry.rs"],
[("vtable construction","src/proc_macro/derives/dyn_trait/*"),("destructor/clone slots","src/dyn_traits/_mod.rs: VirtualPtr Drop/Clone")],
["recorded method id/arguments/results","drop ledger","strong counts","ASan/TSan/Miri reports"],
state=[("ptr,vtable","object pointer and its method table","src/dyn_traits/_mod.rs: VirtualPtr_")])

p("C10","Futures and executors over FFI complete exactly once and lose nothing",
"A future passed through the FFI future and executor types yields the same output as when awaited directly, is polled only until it completes, wakes its task whenever it can progress, and is dropped exactly once whether it completes, is dropped early, is cancelled or panics. A task handed to an FFI executor (spawned, spawned as blocking work or blocked on) runs exactly once with its output delivered to its handle, on any schedule, also when the future or the executor is implemented in C.",
["schedules","fault_sequences"],"all interleavings of polling, waking, completing, cancelling, dropping and panicking over tokio-backed and hand-written executors",
"One test spawns one immediately-ready task; wake-ups across threads, cancellation and panics are never exercised.",
["src/dyn_traits/futures/_mod.rs","src/dyn_traits/futures/executor.rs","src/dyn_traits/_mod.rs"],
[("FfiFuture poll/waker plumbing","src/dyn_traits/futures/*.rs"),("executor spawn/block_on","src/dyn_traits/futures/executor.rs")],
["outputs received","poll/wake/drop event log","ThreadSanitizer and Miri reports"])

p("C11","Foreign bit patterns are accepted if and only if they are valid values",
"For every FFI-safe type, the validity check accepts a foreign bit pattern exactly when it denotes a legal value of that type: enumerators only among the declared discriminants, booleans only 0/1, references and function pointers non-null and aligned, optional pointers also null, aggregates field by field (padding ignored). Checked conversion returns a value exactly in that case, and that value has the very same bits.",
["inputs","programs"],"all bit patterns of all types in the supported grammar (primitives, pointers, enums of every integer representation, structs, arrays, tuples, options, containers, nested arbitrarily)",
"The existing test tries five patterns of one struct; the guarantee is over all patterns of all types users can derive.",
["src/layout/_mod.rs","src/layout/impls.rs","src/layout/niche.rs","src/layout/macros.rs","src/proc_macro/derives/repr_c/enum_.rs","src/proc_macro/derives/repr_c/struct_.rs","src/stabby/boxed_impl.rs"],
[("is_valid impls","src/layout/impls.rs, derive macros"),("niche detection for Option","src/layout/niche.rs, src/layout/impls.rs"),("from_raw","src/layout/_mod.rs")],
["result of is_valid / from_raw on chosen bit patterns"])

p("C12","FFI-safe types have the C layout they advertise and convert bit-for-bit",
"For every FFI-safe type, its Rust size, alignment and field placement equal those of the C layout type it advertises, which are those the platform C compiler gives to the same fields. Converting a value to its C representation and back changes no bit of its value, and an optional pointer-like value is represented as the pointer itself with null for absent.",
["programs","inputs"],"all types in the supported grammar and all their values",
"Tests fix a dozen types; layout agreement has to hold for every combination of fields a user may derive.",
["src/layout/_mod.rs","src/layout/impls.rs","src/layout/macros.rs","src/layout/niche.rs","src/tuple.rs","src/option.rs","src/proc_macro/derives/repr_c/struct_.rs"],
[("CLayout association","src/layout/_mod.rs: ReprC::CLayout"),("into_raw/from_raw","src/layout/_mod.rs"),("derive expansion","src/proc_macro/derives/repr_c/*.rs, c_type/struct_.rs")],
["size_of/align_of/offset_of on both sides and in compiled C","bytes of a value before and after conversion"])

p("C13","Calls from C reach exported functions with every value intact",
"Calling an exported function from C through the generated header passes every argument and the return value unchanged, in order, for every FFI-safe parameter and return type, under the exported (possibly renamed) symbol. Memory and callbacks handed in either direction stay usable and are released through the exported interfaces without leak or corruption.",
["programs","inputs"],"all exported signatures in the supported grammar (arities, by-value aggregates, pointers, callbacks, renames) and all argument values, with several C compilers",
"The C test calls about ten fixed functions with fixed values.",
["src/proc_macro/ffi_export/fn_/mod.rs","src/headers/definer.rs","src/headers/languages/c.rs","src/layout/impls.rs"],
[("export wrapper","src/proc_macro/ffi_export/fn_/mod.rs"),("function declaration emission","src/headers/languages/c.rs")],
["values observed on each side of the call","ASan/UBSan/LeakSanitizer reports in the mixed program"])

p("C14","A panic never unwinds into foreign code",
"If an exported function panics for whatever reason, the process aborts before control returns to the foreign caller, after the panic message was reported; no foreign frame is ever unwound and the caller never observes a return value. Functions that do not panic never abort.",
["fault_sequences","programs"],"all exported signatures, all positions of the panic (argument handling, body, destructors of arguments, result conversion), on any calling thread, with any handler around the call",
"No test panics across the boundary: it needs a sacrificial process and an observer of how it ended.",
["src/proc_macro/ffi_export/fn_/mod.rs","src/_lib.rs"],
[("unwind guard","src/_lib.rs: ඞ::UnwindGuard; src/proc_macro/ffi_export/fn_/mod.rs")],
["exit status of a sacrificial process, markers printed before/after the call"])

p("C15","The generated C header compiles and describes the compiled library exactly",
"For every set of exported items (generic types and their instances included), the generated C header is accepted by C and C++ compilers without warnings-as-errors tricks, and its types have the size, alignment, field offsets, field order and enumerator values of the Rust types, its functions the exported names, parameter order and types. Nothing exported is missing from it and every type it mentions is declared before use.",
["programs"],"all sets of exported functions, types and constants in the supported grammar, with every header option (naming convention, guard, banner, documentation style)",
"The repository compares one generated file by eye and compiles it once; the guarantee is over every API a user may export.",
["src/headers/_mod.rs","src/headers/definer.rs","src/headers/languages/c.rs","src/headers/languages/mod.rs","src/layout/impls.rs","src/layout/_mod.rs","src/_lib.rs"],
[("C emission","src/headers/languages/c.rs"),("type naming","src/layout/_mod.rs: short_name/name; src/_lib.rs: append_unqualified_name"),("registration","src/headers/_mod.rs: inventory of FfiExport")],
["exit status of gcc/clang/g++/clang++ on the header","sizeof/_Alignof/offsetof/enumerator values computed by C against those of Rust"])

p("C16","Header generation is a deterministic function of the exported items",
"Generating twice from the same exports gives byte-identical output, in one process or several, to a file or to any writer, whatever was generated before it and in whatever language order; every type, function and constant is emitted exactly once and after everything it depends on. Two items of the same kind claiming one name are reported as an error instead of silently dropping one.",
["histories","programs","configurations"],"all export sets, all sequences of generation calls with any mix of languages, options and sinks",
"The tests generate once per process and do not compare outputs or check ordering.",
["src/headers/_mod.rs","src/headers/definer.rs","src/layout/_mod.rs"],
[("define_once / define_self","src/headers/definer.rs; src/layout/_mod.rs"),("ordering of items","src/headers/_mod.rs: generate_with_definer")],
["output bytes of repeated generations","definition/occurrence positions","errors returned"])

p("C17","A failing or short-writing sink never yields a silently truncated header",
"Whatever write to the output sink fails, header generation returns that error (it neither panics nor reports success), and what was written so far is a prefix of the complete header. Sinks that accept data in arbitrary small pieces or are interrupted still receive the complete header.",
["fault_sequences"],"every write position and every error kind, partial-write pattern and language",
"No test injects an output fault.",
["src/headers/_mod.rs","src/headers/definer.rs","src/headers/languages/c.rs","src/headers/languages/csharp.rs","src/headers/languages/python.rs"],
[("error propagation","src/headers/languages/*.rs: out! macro, ?"),("sink selection","src/headers/_mod.rs: Builder::generate")],
["io::Result of generate","bytes accepted by the sink"])

p("C18","The generated C# declarations match the exported ABI",
"For every set of exported items, the generated C# file declares each exported function with its exported name and its parameters in order, and each type with the same fields in order, the same enumerator values and integer widths, and primitive types of the same size and signedness as in Rust. No exported function or type is missing, every referenced type is declared exactly once and the file is lexically well formed.",
["programs"],"all export sets in the supported grammar",
"C# output is only compared with a checked-in file; no test relates it to the Rust ABI in general.",
["src/headers/languages/csharp.rs","src/headers/definer.rs","src/layout/impls.rs","src/closure/mod.rs"],
[("C# emission","src/headers/languages/csharp.rs")],
["declarations parsed from the generated file, against the Rust ABI facts"])

p("C19","The generated Python (cffi) declarations match the exported ABI",
"For every set of exported items, the declarations generated for Python's cffi form, once preprocessed and with cffi's `...` extension, valid C declarations that give each type the size, alignment, field order and enumerator values it has in Rust, and each exported function its name, parameters and result. Nothing exported is missing and everything is declared before use.",
["programs"],"all export sets in the supported grammar",
"Nothing consumes the generated cffi file in the tests.",
["src/headers/languages/python.rs","src/headers/definer.rs"],
[("Python emission","src/headers/languages/python.rs")],
["the declarations compiled as C: sizes, offsets and enumerator values against Rust"])

p("C20","Exported constants have the same value in every generated header",
"Every exported constant of an integer, floating-point, boolean, character or (exported `untyped`) string type appears in each generated header with exactly the name, and under the receiving language's rules exactly the type (unless `untyped`) and value, it has in Rust, including extreme values, non-finite floats and text needing escapes. (The C# file leaves `untyped` constants out; there is no other omission.)",
["inputs","programs"],"all constant values of all types that can be exported",
"One test exports 42 and one ASCII string.",
["src/proc_macro/ffi_export/const_.rs","src/headers/definer.rs","src/headers/languages/c.rs","src/headers/languages/csharp.rs"],
[("constant emission","src/headers/languages/*.rs: emit_constant; src/proc_macro/ffi_export/const_.rs")],
["the value computed by a C compiler from the header against the Rust value"])

p("C21","Debug builds stop invalid foreign arguments before any user code runs",
"In builds with debug assertions, when foreign code passes a bit pattern that is not a valid value for a parameter of an exported function, the process aborts before any statement of the function's body runs or any argument is used; with only valid arguments it never does. Unchecked conversion from the C representation is guarded in the same way.",
["inputs","programs"],"all exported signatures, every parameter position and every invalid bit pattern",
"No test passes an invalid value: it ends the process.",
["src/proc_macro/ffi_export/fn_/mod.rs","src/layout/_mod.rs"],
[("debug validity assertion","src/layout/_mod.rs: from_raw_unchecked"),("argument conversion","src/proc_macro/ffi_export/fn_/mod.rs")],
["exit status of a sacrificial process and body-entry marker"])

p("C22","Documentation reaches the header verbatim and cannot corrupt it",
"The documentation of every exported item, field, variant and function appears, in order and complete, as comments attached to that item in the generated C and C# headers, and whatever text it contains it cannot change the meaning of the declarations around it.",
["inputs","programs"],"all documentation texts (multi-line, empty lines, comment delimiters, escapes, non-ASCII) on all item kinds",
"Tests have a few plain one-line docs.",
["src/headers/languages/c.rs","src/headers/languages/csharp.rs","src/headers/languages/mod.rs"],
[("doc emission","src/headers/languages/*.rs: emit_docs")],
["declarations and comments extracted from the generated header, with and without docs"])

p("C23","Programs that would send non-FFI-safe values across the boundary do not compile",
"A program that exports or derives FFI-safety for something the library cannot make safe (a field or parameter type that is not FFI-safe, an opaque type by value, a missing or unsupported representation, a field-carrying enum, a callback that is not C ABI, an interior NUL in a C literal, a thread-shared callback capturing thread-bound state, a container of thread-bound values sent to another thread, a view outliving what it borrows) is rejected at compile time, while its closest safe counterpart is accepted.",
["programs"],"all programs in the supported macro grammar and their minimally unsafe mutants",
"Two compile-fail doc tests exist; each checks one program.",
["src/proc_macro/derives/repr_c/_mod.rs","src/proc_macro/derives/repr_c/enum_.rs","src/proc_macro/derives/repr_c/struct_.rs","src/proc_macro/ffi_export/fn_/mod.rs","src/proc_macro/c_str.rs","src/layout/_mod.rs","src/closure/mod.rs"],
[("trait bounds and macro diagnostics","src/layout/_mod.rs: ReprC / ConcreteReprC bounds; src/proc_macro/**")],
["acceptance or rejection by the compiler running the real macros"])

p("C24","Behaviour does not depend on enabled features or build profile",
"A program using only what a feature set offers observes the same results, the same drops and the same memory traffic whichever additional library features are enabled and whether it is built in debug or release mode, for valid inputs; and its headers declare the same interface. (The one documented difference is that `stabby` shares what the library copies in its own counted slice, whose allocations are bigger.)",
["configurations","histories"],"all supported feature sets (core only, alloc, std, with and without headers, dyn-traits, futures, serde, log) × build profiles, over arbitrary operation histories",
"CI only checks that some feature sets compile.",
["src/_lib.rs","src/utils/macros.rs","src/bytes.rs","src/vec.rs","src/boxed.rs"],
[("feature gating","src/utils/macros.rs: cfg_alloc!/cfg_std!; src/_lib.rs")],
["event traces of one seeded workload in each configuration, compared"])

p("C25","Exported async functions run their prelude and future once and return its output",
"Calling an exported async function from C evaluates its synchronous part and then its future exactly once on the given executor and returns exactly the future's output; arguments and captured values are dropped exactly once, and a panic inside it aborts like in any exported function.",
["programs","fault_sequences","inputs"],"all exported async signatures, executors, numbers of suspensions and argument values",
"No test calls the one async export there is.",
["src/proc_macro/ffi_export/fn_/async_fn.rs"],
[("async export expansion","src/proc_macro/ffi_export/fn_/async_fn.rs")],
["event log of prelude/polls/drops and the returned value"])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,S); assert len(x['title'])<=80,(x['id'],len(x['title']))
import os
for x in P:
    for f in x['anchors']['files']: assert os.path.exists('/repo/'+f),f
print(len(P))
