import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
RCA="src/ReferenceCountedArray.h"; SH="src/String.h"; SC="src/String.cpp"; AR="src/Array.h"
p("C01","Copies are independent: writing one object never changes another",
  "A String or Array that was copied, assigned, sliced or passed by value may share storage with its siblings, but no operation on one object ever changes the length or any element that another object can observe, unless that other object was itself passed to the operation to be modified or moved from.",
  ["programs","histories"],"every mutating operation, for every sharing shape of the operands (unshared, shared with third parties, both operands over one buffer, overlapping slices, same object)",
  "Tests check sharing for a handful of literal strings; the quantifier is over every mutator and every way two objects can overlap in one buffer.",
  [RCA,SH,SC,AR],[("copy-on-write before every element store","ReferenceCountedArray::AboutToModify/COW/getOwnCopy")],
  [("Ref->refs","number of objects sharing the buffer",RCA)],["element stores through a buffer whose reference count may exceed one"])
p("C02","String/Array operations never touch memory outside live element storage",
  "For every argument value accepted by the documented preconditions, every operation of String, Array and Stream reads and writes only elements inside the currently allocated storage, never through a null, freed or stale buffer pointer and never past its capacity, including when the arguments are the object itself or point into its own storage.",
  ["inputs","histories"],"all lengths, capacities, offsets, positions, counts and aliasing shapes; both the mmap/memmem and the portable configuration",
  "Tests sample a few short literals; an off-by-one that depends on capacity/offset/length being in a particular relation is never sampled.",
  [RCA,SH,SC,AR,"src/Stream.h","src/Stream.cpp"],[("reserve before store","ArrayRef::reserve, ReferenceCountedArray::reserve"),("index validation","ReferenceCountedArray::validateIndex")],
  [("offset, sublen","window of the object in its buffer",RCA),("ArrayRef::size","allocated capacity",RCA)])
p("C03","Edit operations produce exactly the documented sequence",
  "Insert, append, push/pop/shift, replace, resize, the += / -= / ++ / -- operators, assignment, construction, swap and slice assignment leave the object holding exactly the sequence of elements their documentation describes, of exactly the described length, for every position, count and operand, including an operand that is the object itself or shares its storage, and leave const operands unchanged.",
  ["inputs"],"all contents, lengths, positions, counts, capacities, offsets and operand aliasing",
  "Tests compare results for a few fixed strings that stay on one side of every capacity and length comparison.",
  [RCA,SH,SC,AR],[("shift right, copy in, adjust length","ReferenceCountedArray::insert/replace/resize, String::insert/replace")])
p("C04","Equal contents always hash equally, whatever the history",
  "The hash of a String or Array is a function of its current elements only: after any sequence of operations it equals the hash of a freshly built object with the same elements, so values used as hash-table keys can always be found again.",
  ["histories"],"every mutator applied to an object whose hash was or was not already computed",
  "The cached hash is only stale after specific hash/mutate/hash sequences; tests exercise few of the mutators that way.",
  [RCA,SH,SC,AR],[("hash cache invalidated on every change","setLength/subLength/AboutToModify/doDetach set my_hash = 0")],[("my_hash","cached hash, 0 when stale",RCA)])
p("C05","Shared storage is released exactly once, after its last user",
  "Each buffer shared by Strings or Arrays is freed exactly once, when the last object using it goes away, in every history of copying, assigning, moving, slicing and destroying; when threads operate on different objects that share a buffer, no thread uses the buffer after giving up its own reference, and no reference is lost.",
  ["histories","schedules"],"all operations, all sharing shapes, all interleavings of operations on distinct objects sharing a buffer",
  "Tests are single threaded and check a few reference counts.",
  [RCA,SH,AR],[("atomic reference count","ReferenceCountedArray::incRef/decRef/CheckDeallocRef/doDetach/COW")],[("refs","atomic count",RCA)])
p("C06","Bad positions are reported with std::out_of_range and change nothing",
  "Every checked operation given a position beyond the end throws std::out_of_range, given a valid position does not throw it, and when it throws the object still holds its previous contents; no such exception can escape through a function declared noexcept and terminate the program.",
  ["inputs"],"all positions and lengths, including empty objects and positions equal to or one past the length",
  "Tests probe one or two positions per operation.",
  [RCA,SH,SC],[("validateIndex before any modification","ReferenceCountedArray::validateIndex callers")])
p("C07","Every element object is constructed once and destroyed once",
  "For element types with constructors, each element stored in an Array is constructed before use and destroyed exactly once: no operation assigns to or destroys raw memory, constructs over a live element, destroys an element twice or forgets one when storage is released.",
  ["histories","inputs"],"all Array operations at every length/capacity relation, all sharing shapes",
  "Tests use std::string-like elements whose leaks and double constructions are invisible without instrumentation.",
  [RCA,AR],[("construct on allocate, destroy on free","ArrayRef::reserve, ArrayRef::FreeBuf")])
p("C08","Moved-from and swapped objects remain valid",
  "Moving from a String, Array or Stream transfers its contents and leaves the source empty and fully usable, self-move and self-assignment keep the contents, and swapping exchanges the two values completely.",
  ["histories"],"every move/assign/swap operation on every sharing shape followed by any further use of the source",
  "The test build compiles different move code than the shipped headers, so tests cannot settle it.",
  [RCA,SH,AR,"src/Stream.h"],[("move constructor / assignment reset the source","ReferenceCountedArray(ReferenceCountedArray&&), operator=(ReferenceCountedArray&&)")])
p("C09","Substrings and subarrays are exactly the clamped window",
  "substring, subarray, the call operator and slice return exactly the requested window: a negative start counts from the end and clamps to the beginning, a start at or past the end gives an empty result, a length past the end (or omitted) extends to the end, and any other negative length counts back from the end but never below zero.",
  ["inputs"],"all starts and lengths of either sign at any magnitude, for any object length and offset",
  "Tests sample about a dozen small start/length pairs.",
  [RCA,SH,AR],[("slice()","ReferenceCountedArray::slice")])
p("C10","c_str is always a NUL-terminated image of the contents",
  "c_str() and operator* return a pointer to the String's characters followed by a NUL that lies inside its storage, without changing the String's value or any other object.",
  ["inputs","histories"],"all histories leaving any byte (or nothing) after the last character; shared and unshared storage",
  "Whether a NUL happens to follow depends on capacity and history; tests see mostly freshly built strings.",
  [SH],[("terminate on demand","String::c_str")])
p("C11","String comparisons form one consistent total order",
  "compare and the six comparison operators agree with one lexicographic byte order in which a proper prefix is smaller: for every pair of Strings (and String with C string) exactly one of <, ==, > holds and !=, <=, >= are its negations, equality coincides with identical contents, and a bounded compare looks at no more than the given number of characters. Arrays are equal exactly when they have the same length and equal elements (up to the given count for the bounded form).",
  ["inputs"],"all pairs of contents and lengths, including empty strings, embedded NULs and shared storage",
  "Tests compare a few literals; sign and length-tie errors need specific length relations.",
  [SH,SC,AR],[("compare() then operators","String::compare overloads, operator==..>=, Array::equals")])
p("C12","Searches return npos or a position where the match really is",
  "find, rfind, ifind and rifind return either npos or a position inside the searched range at which the whole pattern (or element) occurs, and never read outside either operand, on platforms with and without memmem; find yields the first and rfind the last such position, npos only when there is none, and the case-insensitive forms treat exactly the two cases of a letter as equal.",
  ["inputs","configurations"],"all patterns (including empty and longer than the text), texts, start positions and build configurations",
  "Only the memmem configuration is tested, with a few patterns.",
  [RCA,SH,SC],[("bounded scans","String::_find, String::rfind, ReferenceCountedArray::_find/rfind")])
p("C13","Every splitting, scanning and substitution loop terminates",
  "split, sub, subst, newsplit, trim, chomp, repetition, searching and line reading finish for every input: each iteration of their loops consumes input or counts towards a fixed bound, including with empty delimiters and empty search strings.",
  ["inputs"],"all texts, delimiters, search strings, limits",
  "A test that would expose non-termination hangs; none uses an empty delimiter or pattern.",
  [SC,"src/Stream.cpp","src/base64.cpp","src/Cstrings.cpp"],[("loop progress","String::split/sub/newsplit/trim, Stream::read")])
p("C14","String contents are wiped before their memory is released",
  "When the last String using a buffer is destroyed, every byte of that buffer is overwritten before the memory is freed, and the overwriting survives compiler optimisation; a buffer still in use by another String is never wiped.",
  ["histories"],"every destruction with any capacity, offset and sharing shape",
  "Freed memory cannot be inspected by a test without undefined behaviour.",
  [SH],[("cleanse in the destructor","String::~String, String::cleanse")])
p("C15","AtomicFile publishes complete files only",
  "The target path is only ever replaced by a single rename of a fully written temporary in the same directory, performed after the requested mode was set, the data was synced and the descriptor closed, each successfully; if any step fails commit reports failure and the target is never touched.",
  ["crash_points","fault_sequences"],"every system call failing or the process dying after any step",
  "Tests cannot make individual system calls fail or crash at every point.",
  ["src/AtomicFile.cpp","src/AtomicFile.h"],[("fchmod, fsync, close, rename order","AtomicFile::commit"),("same-directory temp","AtomicFile::open")])
p("C16","AtomicFile releases its descriptor and temporary exactly once",
  "On every path through open, commit, abort and destruction, including failures and reopening, the descriptor is closed exactly once and the temporary name is either renamed to the target or unlinked exactly once, no system call is made on a descriptor that is not open, and afterwards the object reports not open.",
  ["fault_sequences","histories"],"every failure combination and every call sequence on one object",
  "Tests cover the success path and one abort.",
  ["src/AtomicFile.cpp","src/AtomicFile.h"],[("cleanup label and destructor","AtomicFile::commit/abort/~AtomicFile")])
p("C17","Stream file I/O reports every failure and releases what it opened",
  "loadFile and writeFile return 0 only if every system call they rely on succeeded and the whole content was transferred, and non-zero otherwise; on every path each descriptor, mapping and stdio handle they opened is released exactly once, and a descriptor passed in by the caller is never closed.",
  ["fault_sequences","configurations"],"every system call failing, files of any size including empty, both the mmap and the portable configuration",
  "Tests only read and write small files successfully in the mmap configuration.",
  ["src/Stream.cpp","src/Stream.h"],[("checked calls and cleanup","Stream::loadFile/writeFile")])
p("C18","Stream position arithmetic is clamped and reads deliver what is there",
  "seek always leaves the position between zero and the capacity, at the requested place whenever that lies in between; read, getline and peek return exactly the next bytes available from the position (at most the requested count, up to and including the delimiter for delimited reads), advance the position by exactly what they returned (peek not at all), and never read past the contents wherever the position is; puts replaces exactly the bytes from the position on (extending the contents as needed) and advances by the length of the text, and truncate keeps exactly the bytes before the position.",
  ["inputs","histories"],"all offsets, whence values, counts, positions and contents",
  "Tests seek to a few in-range positions.",
  ["src/Stream.cpp","src/Stream.h"],[("clamping","Stream::seek, Stream::read")])
p("C19","base64 decoding inverts base64 encoding",
  "For every byte string, decoding its encoding with the default character set (or with one and the same custom set of 64 distinct characters) gives back exactly that byte string; the encoded length is four characters per started group of three bytes, padded with '='.",
  ["inputs"],"all byte values at all positions of a group and all lengths modulo three",
  "Tests round trip a few ASCII strings; a wrong mask or table entry affects only particular bit patterns.",
  ["src/base64.cpp","src/base64.h"],[("bit packing","b64enc_buf, b64dec_buf"),("table agreement","b64_charset, b64_indexes")])
p("C20","base64 routines stay inside their buffers",
  "Encoding and decoding read exactly within the given input length and the 256-entry table, and write no more than the allocated or documented output size plus the terminating NUL, for every input, including malformed input, lengths that are not a multiple of four and bytes above 127.",
  ["inputs"],"all input bytes and lengths, default and custom character sets",
  "Tests decode only well-formed ASCII input.",
  ["src/base64.cpp"],[("group loop bounds","b64enc_buf, b64dec_buf, b64enc, b64dec")])
p("C21","C string helpers never overrun and always terminate",
  "strlcpy and strlcat write at most the given size into the destination, NUL-terminate it whenever the size (or remaining room) allows, read the source only up to its NUL and the destination only within the given size, and return the length they tried to create; strdup, strldup and str_redup return exact, terminated copies.",
  ["inputs"],"all source and destination lengths and sizes, including zero and unterminated destinations",
  "Tests use a few sizes; boundary relations between lengths and size are not enumerated.",
  ["src/Cstrings.cpp","src/Cstrings.h"],[("bounded loops","strlcpy, strlcat, strldup")])
p("C22","HashTable inserts never overwrite and lookups never insert",
  "insert stores the given pair only when the key is absent and returns whether it did, const lookups and contains never change the table and return a default value for absent keys, remove deletes exactly the named key and reports whether it existed, no insertion path drops or swaps the key and value given, an insert that stores nothing leaves its arguments as they were, no operation on one key touches the entry of another, and copying, moving, swapping, clearing and list construction transfer exactly the entries.",
  ["histories","inputs"],"all keys, values and table states, all overloads (copying and moving)",
  "Tests use a few string keys and mostly one overload.",
  ["src/HashTable.h"],[("guarded insertion","HashTable::insert/getValue/operator[]/remove")])
p("C23","Script numbers convert exactly or to zero",
  "Converting a script value to each C integer type yields exactly the script number when it is a number representable in that type, and 0 when it is not a number or does not fit; booleans and doubles yield the script's value or false/0; script texts and lists arrive with exactly their bytes, length and elements.",
  ["inputs"],"all script values, all supported integer widths and signedness",
  "Tests pass a few small values per type and no out-of-range values for most.",
  ["src/ScriptInterpTCL.cpp"],[("range checks","tcl_to_c_cast<T>::from")])
p("C24","C values reach scripts unchanged",
  "Every C integer, boolean, double, string or string list exposed to a script (by return value or linked variable) appears there with exactly its C value, for the full range of its type, and strings with exactly their bytes and length.",
  ["inputs"],"all values of all supported types, including the upper half of unsigned ranges",
  "Tests use small positive values.",
  ["src/ScriptInterpTCL.h","src/ScriptInterpTCL.cpp"],[("width-preserving conversions","c_to_tcl_cast<const T&>::from")])
p("C25","Script commands get the right arguments and contain exceptions",
  "A registered command runs only when the argument count lies within its bounds, receives each supplied argument in its own position and a default for each missing one, never reads past the supplied arguments, and any C++ exception it throws is turned into a script error instead of propagating into the interpreter; a deleted or replaced command is not called again, and deleting or replacing a command while it runs is safe.",
  ["inputs","programs"],"all argument counts and all registered signatures",
  "Tests call a few commands with right and wrong counts.",
  ["src/ScriptInterpTCL.cpp","src/ScriptInterpTCLCallbacks.h"],[("arity check and catch-all","ScriptCmdTCL::_createCommand_callback, ScriptCommandHandlerTCL::real_call")])
p("C26","Scripts run exactly as given and their outcome is reported",
  "Evaluating a script runs exactly the given text, all of it, once and in the global scope, and returns the complete result of the interpreter when it succeeds and its error trace when it fails; loading a script runs exactly the named file when its name ends in .tcl and otherwise reports a wrong interpreter without running anything, reports success exactly when the file ran successfully, and hands out the interpreter's error message when it did not.",
  ["inputs"],"all script texts (including NUL bytes and slices of other strings) and all file names",
  "Tests evaluate a few short scripts and load two files.",
  ["src/ScriptInterpTCL.cpp"],[("evaluation and loading","ScriptInterpTCL::eval, ScriptInterpTCL::loadScript")])
p("C27","Linked variables stay bounded, read-only when const, and alive",
  "A script write to a linked variable changes only the linked storage and never more than its declared size, leaving C strings terminated; a variable linked from const storage is never written; the old and new values are passed to the hook registered for that variable.",
  ["inputs","histories"],"all script values and lengths, all linkable types",
  "Tests write short values to a few types.",
  ["src/ScriptInterpTCL.h","src/ScriptInterpTCL.cpp"],[("trace procedures","tcl_traceSet, tcl_traceSetPtr, TraceSetRO, linkVar overloads")])
p("C28","The public interface keeps its type-level guarantees",
  "Read-only views cannot be used to modify an object, owning handles that must be unique (files, interpreters, callbacks) cannot be copied, classes handed out as base pointers can be deleted through them, operations documented as non-throwing are declared so, every public member of the container templates compiles for ordinary element types, and lvalue-only operations reject temporaries.",
  ["programs"],"every program that could be written against the headers",
  "A test cannot contain code that must not compile, and uninstantiated template members are never compiled by the tests.",
  [RCA,SH,AR,"src/HashTable.h","src/AtomicFile.h","src/ScriptInterp.h","src/ScriptInterpTCL.h"],[("const, deleted and ref-qualified members","class declarations")])
p("C29","Formatting returns the complete formatted text",
  "String::printf returns exactly the characters the C formatter produces for the given arguments, of exactly that length, for every output length, and never includes bytes that were not produced by the formatter.",
  ["inputs"],"all formats and arguments, any output length, formatter errors",
  "Tests format short strings only.",
  [SC],[("two-pass formatting","String::printf")])
p("C30","Allocation failure is never silently ignored by the C helpers",
  "The library's calloc and realloc wrappers never return a null pointer for a non-zero request, and every routine that obtains raw C memory frees it exactly once or returns it to the caller.",
  ["fault_sequences"],"every allocation failing",
  "Tests cannot make allocations fail.",
  ["src/Cstrings.cpp","src/base64.cpp"],[("exit on failure","calloc, realloc"),("free after copy","base64Encode/base64Decode")])
p("C31","Text utilities produce exactly the documented text",
  "split returns the pieces between the delimiters in order (words, ignoring runs of blanks, when the delimiter is a blank; never more pieces than the limit, the last one being the untouched remainder when the limit is reached), newsplit returns the first token and leaves exactly what follows its delimiter, sub replaces every occurrence (or the first so many) scanning left to right without rescanning replaced text, trim removes exactly the white space at both ends, chomp exactly one trailing line ending, multiplication repeats the text, join concatenates the elements with the delimiter between them, and reading from or writing to a C++ stream transfers exactly the word, line or text; operands passed by const reference keep their value.",
  ["inputs"],"all texts, delimiters, replacements and limits; empty pieces, delimiters at either end, adjacent delimiters, shared operands, an operand that is also the text",
  "Tests use one or two sentences per function; results depend on where delimiters fall relative to the ends of the text and on its pieces being empty.",
  [SC,SH,AR],[("scan, slice and append","String::split, String::sub, newsplit, String::trim, String::chomp, String::operator*, Array::join, operator>>, getline")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
