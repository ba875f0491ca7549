#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code so that the list is easy to edit).
import json, os
FMT=["src/int.cpp","src/float.cpp","src/bool.cpp","src/char.cpp","src/null.cpp","include/lexi/enum.hpp"]
ALL=FMT+["src/detail/itoa.cpp","src/detail/dtoa.cpp","src/detail/diyfp.cpp","src/detail/string.cpp","include/lexi/lexi.hpp"]
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],observe=[]):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state,mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or ["public API: Format*/Extract* objects and the free functions lexi, string, escape, jsonify"],
                   hook_needed=None)))
p("C01","Concurrent conversions do not interfere",
  "Any number of threads may format, escape, JSON-encode and extract values at the same time without locking, as long as no object is modified while another thread uses it. Under every interleaving each call gives the complete correct text, value or exception for its own argument, the same that it gives when it is the only call in the process. No two calls ever access the same memory in conflict without synchronisation.",
  ["schedules","inputs"],"every interleaving, at the granularity of single memory accesses, of conversions made by several threads",
  "The tests are single-threaded; they exercise no interleaving at all.",ALL,
  [("all working storage is in the object, on the stack or in the returned string; the only globals are constant tables","src/detail/itoa.cpp DIGITS, src/detail/dtoa.cpp tables, src/bool.cpp, src/float.cpp literals")])
p("C02","One formatter or string can be read by many threads at once",
  "After construction, one formatter object may be read by any number of threads at once through size, length, data, c_str, string, escape, jsonify and conversion to std::string, and one argument string may be used by any number of conversions at once. Every reader sees the same complete text, and no reader modifies the formatter or the argument string, not even transiently.",
  ["schedules"],"every interleaving of readers of a shared formatter of every kind, or of conversions of a shared string",
  "The tests read every formatter once, from one thread.",FMT+["src/detail/string.cpp"],
  [("const accessors compute from immutable members","src/int.cpp, src/float.cpp, src/bool.cpp, src/char.cpp, src/null.cpp accessors")])
p("C03","An allocation failure gives std::bad_alloc, never a wrong result",
  "Whichever memory allocations fail during a conversion, the call either returns its complete correct result or throws std::bad_alloc to the caller; it never returns truncated, empty or altered output, throws another exception in its place, or ends the process. Its arguments and the formatter it was called on are unchanged, and the same call made again when memory is available gives the correct result.",
  ["fault_sequences","inputs"],"every subset of the allocations that a conversion makes failing, in any sequence of conversions on any thread",
  "No allocation ever fails in the tests.",FMT+["src/detail/string.cpp","include/lexi/lexi.hpp"],
  [("results are built in a local std::string and returned; nothing catches std::bad_alloc","src/detail/string.cpp escape, jsonify; string() of the formatters")])
p("C04","Conversions give back all memory, also when they fail",
  "A conversion that ends by returning owns no memory afterwards except what its returned string holds, and one that ends by throwing (rejected text or failed allocation) owns none. However often conversions succeed or fail, in any order, the memory in use does not grow.",
  ["fault_sequences","histories"],"every history of successful, rejecting and allocation-starved conversions, repeated",
  "The tests do not look at memory and never make an allocation fail.",FMT+["src/detail/string.cpp","include/lexi/lexi.hpp"],
  [("storage is owned by std::string and by the inline buffers only","src/detail/string.cpp; src/*.cpp")])
p("C05","Formatting a scalar needs no memory",
  "Constructing, copying and destroying a formatter for a boolean, character, integer, floating-point number, enumerator or null, and reading it through size, length, data and c_str, works when every memory allocation fails. So does extracting a boolean, character, integer, enumerator or null from an existing std::string that holds a valid text of it.",
  ["fault_sequences","inputs"],"every value and kind, with every allocation in the process failing",
  "The tests always run with memory available and do not observe allocations.",FMT+["src/detail/itoa.cpp","src/detail/dtoa.cpp"],
  [("inline buffers sized for the longest text","include/lexi/detail/fmt.hpp INTEGER_SIZE, FLOAT_SIZE; buffer_ members")])
p("C06","Copies of a formatter live on their own",
  "A copy of a formatter (copy, move, assignment, self-assignment, swap, passing by value, relocation inside a container) has the text of its source and from then on is independent of it. Destroying, overwriting or relocating either object at any later time, on any thread, leaves the text seen through the other, and through the pointers it gives out, correct.",
  ["histories","schedules"],"every history of creations, copies, assignments, swaps, container relocations and destructions",
  "The tests never copy a formatter.",["include/lexi/int.hpp","include/lexi/float.hpp","src/int.cpp","src/float.cpp","include/lexi/enum.hpp","include/lexi/bool.hpp","include/lexi/char.hpp","include/lexi/null.hpp"],
  [("copy operations re-target the range to the copy's own buffer","src/int.cpp, src/float.cpp copy constructor and assignment")],
  state=[dict(name="buffer_/first/last",meaning="inline text and the range it occupies",where="include/lexi/int.hpp, include/lexi/float.hpp")])
p("C07","Text that was handed out never changes",
  "A string returned by a conversion never changes afterwards, and the pointer and size that a live formatter gave out keep showing the same null-terminated text until that formatter is assigned or destroyed. No later or concurrent conversion on any thread, successful or failed, changes them.",
  ["histories","schedules"],"every history and interleaving of conversions made while earlier results are still held",
  "The tests compare each result at once and keep none.",ALL,
  [("results are returned by value; formatters own their buffer","src/*.cpp string(), data(), c_str()")])
p("C08","A result depends on the argument alone, not on history",
  "The outcome of a conversion is determined by its argument: it is the same for the first and the millionth call, after any other conversions, after calls that threw or ran out of memory, and whatever the memory used for the object or the result held before. Making the same call again gives the same outcome.",
  ["histories","fault_sequences"],"every sequence of earlier calls, failures and leftover memory contents",
  "Each test is a short fixed sequence in clean memory.",ALL,
  [("no mutable static or thread-local state; every byte that is read was written by the same call","src/detail/*.cpp")])
p("C09","Locale settings never change a conversion",
  "Formatting, escaping and JSON encoding give the same text, and extraction of numbers written with '.' as the decimal point gives the same value, in every locale, whether it was set for the process, for the calling thread or as the global C++ locale, and however it is changed between calls. No conversion changes the locale.",
  ["configurations","histories"],"every locale, and every sequence of locale changes by any thread between conversions (for formatting also during them)",
  "The tests run in the C locale and never change it.",["src/float.cpp","src/int.cpp","src/detail/dtoa.cpp","src/detail/itoa.cpp","src/detail/string.cpp"],
  [("own digit generation for formatting; decimal point of the locale substituted before strtold","src/detail/dtoa.cpp, src/float.cpp parse")])
p("C10","errno and floating-point settings never change a conversion",
  "Whatever value errno holds, whichever floating-point exception flags are raised beforehand, and whether or not the processor is set to take denormal numbers for zero (as in a program linked with -ffast-math), every conversion gives its correct result; and whatever rounding mode the calling thread has set, every conversion other than extraction of floating-point numbers and formatting of a long double that no double equals does so too. No conversion changes the rounding mode or the treatment of denormal numbers.",
  ["configurations","histories"],"every errno value, set of raised flags, treatment of denormal numbers and rounding mode, changed between calls on any thread",
  "The tests run with errno clear, no flags raised and rounding to nearest.",["src/float.cpp","src/int.cpp","src/detail/dtoa.cpp","src/detail/diyfp.cpp","src/detail/itoa.cpp"],
  [("digits come from integer arithmetic; the only floating-point step, the estimate of the decimal exponent, is never close to a rounding boundary","src/detail/dtoa.cpp getCachedPower"),("the result of strtoull and strtold is used without looking at errno","src/int.cpp, src/float.cpp")])
p("C11","Formatting may interrupt any conversion on the same thread",
  "A signal handler that interrupts a conversion at any instruction may itself format scalars, copy the formatters, read their text through data, c_str and size, and extract integers, characters, booleans and null from an existing string. The handler's results and, when it returns, the interrupted conversion's result are correct.",
  ["schedules"],"every point inside every conversion at which the handler can run, and nested handlers",
  "The tests never interrupt a conversion.",ALL,
  [("no static or thread-local scratch storage and no locks","src/detail/*.cpp, src/*.cpp")])
p("C12","A stalled thread never holds up conversions on other threads",
  "A conversion always completes in a bounded number of its own steps that depends only on the length of its argument, whatever other threads do. In particular it completes when any other threads are suspended for ever, or vanish as after fork, at arbitrary points inside conversions.",
  ["schedules","fault_sequences"],"every set of threads stopped for ever at every point inside a conversion",
  "The tests have one thread, which is never suspended.",ALL,
  [("no locks, no waiting and no retry loops","src/detail/*.cpp, src/*.cpp")])
p("C13","Conversions work before main and during exit",
  "Conversions give correct results when they are called from constructors and destructors of static objects in any order relative to the library's own object files, before main, at exit and after all other static objects are gone. Formatters constructed in one of these stages show the same text in all later ones.",
  ["schedules","configurations"],"every order of static initialisation and destruction (link order), and every stage of the process's life",
  "The tests call the library only from inside main, in one link order.",["src/bool.cpp","src/null.cpp","src/float.cpp","src/detail/dtoa.cpp","src/detail/itoa.cpp","src/detail/string.cpp","src/detail/pow.cpp"],
  [("all tables and literals are constant-initialised and trivially destructible","src/detail/dtoa.cpp, src/detail/itoa.cpp, src/bool.cpp, src/null.cpp, src/float.cpp")])
p("C14","A formatter touches only its own memory and is null-terminated",
  "Constructing, copying, reading and destroying a formatter writes no memory outside the object and reads none that does not belong to it or to live arguments, so neighbouring objects of any thread stay intact. Whatever the memory held before, data() and c_str() show size() == length() characters followed by a null character.",
  ["inputs","histories","schedules"],"every value and kind, every previous content of the object's memory, every neighbour",
  "The tests read the text through string(), from fresh stack memory, and observe no other memory.",FMT+["src/detail/itoa.cpp","src/detail/dtoa.cpp","include/lexi/detail/fmt.hpp"],
  [("inline buffers sized for the longest text; explicit terminator","include/lexi/detail/fmt.hpp; src/int.cpp; src/detail/dtoa.cpp prettify, writeExponent")])
p("C15","Rejected text is reported and does no harm",
  "Extracting a boolean or null from any other text, or a character from an empty text, always throws std::runtime_error (or std::bad_alloc when memory runs out while reporting it) and never gives a value. The text is unchanged, nothing leaks, and every other conversion, concurrent or later, gives its correct result.",
  ["inputs","fault_sequences","schedules"],"every rejected text, with any allocations failing, any other conversions before, during and after",
  "The tests reject one boolean text and one empty character text, with memory available.",["src/bool.cpp","src/null.cpp","src/char.cpp","include/lexi/detail/define.hpp"],
  [("comparison with the whole literal, else throw","src/bool.cpp ExtractBool, src/null.cpp ExtractNull, src/char.cpp ExtractChar")])
p("C16","Text read back anywhere, at any time, gives the value again",
  "The text of a boolean, character, integer, enumerator, stream position, null, float or double, formatted by one thread, gives the equal value when any thread extracts it later, once or many times, in any order. This holds when locales differ or change between the two and when other conversions fail or run out of memory in between.",
  ["histories","schedules","inputs"],"every value and every history of formatting, delivery (delayed, duplicated, reordered) and extraction in differing contexts",
  "The tests never extract a text that was formatted.",ALL+["include/lexi/detail/type.hpp"],
  [("formatting gives digits that identify the number; extraction rounds once","src/detail/dtoa.cpp; src/float.cpp; src/int.cpp")])
XT=["include/lexi/int.hpp","include/lexi/float.hpp","include/lexi/bool.hpp","include/lexi/char.hpp","include/lexi/null.hpp","include/lexi/enum.hpp","src/int.cpp","src/float.cpp","src/bool.cpp","src/char.cpp","src/null.cpp"]
p("C17","An extractor keeps its value on its own",
  "Once constructed from a text, an extractor (ExtractInt, ExtractFloat, ExtractBool, ExtractChar, ExtractNull, ExtractEnum) no longer depends on the text. It gives the value each time it is asked, converted to any of its target types, in any order and from any number of threads at once, after the text has been overwritten, freed or replaced, and whatever other conversions happen meanwhile. Asking does not modify it, and copies and assignments of it give the same value independently of their source.",
  ["histories","schedules","inputs"],"every history of constructing, copying, assigning, asking and destroying extractors while the texts they came from change, on every interleaving of threads that ask",
  "The tests construct an extractor, ask it once and drop it while the text is still there.",XT,
  [("the text is parsed in the constructor and only the value is stored","src/int.cpp, src/float.cpp, src/bool.cpp, src/char.cpp, src/null.cpp Extract* constructors")],
  state=[dict(name="data",meaning="the parsed value",where="include/lexi/int.hpp, include/lexi/float.hpp, include/lexi/bool.hpp, include/lexi/char.hpp")])
p("C18","Conversions fit on a small stack, however long the argument",
  "No conversion uses more than 64 KiB of stack, whatever the value and however long the text or string it is given, so conversions are safe on threads and coroutines with small stacks and on untrusted input of any length. What does not fit in the object comes from the heap, and its failure is reported as in C03.",
  ["inputs","fault_sequences"],"every value and every length of argument (explored up to about 130,000 characters), with and without failing allocations",
  "The tests convert short texts on an 8 MiB stack and do not observe its use.",ALL,
  [("no recursion, no alloca, small fixed local buffers","src/detail/string.cpp, src/detail/dtoa.cpp, src/float.cpp, src/int.cpp")])
p("C19","Results outlive the thread that made them",
  "Strings returned by conversions, formatters and the pointers they give out stay correct after the thread that made them has ended. Conversions work on threads at any stage of their life, from the first call on a new thread to destructors of thread-specific data while the thread ends, and the ending of a thread affects no conversion, result or memory of another.",
  ["histories","schedules"],"every history of threads starting, converting and ending, with their results used by other threads afterwards and conversions made while threads end",
  "The tests start no thread.",ALL,
  [("no thread-local state; results own their memory","src/detail/*.cpp, src/*.cpp")])
p("C20","An abandoned conversion leaves nothing behind",
  "Formatting a scalar, reading its text through size, length, data and c_str, copying a formatter, and extracting a bool, character, integer, enumeration or null need no memory, no lock and no state beyond the object being made. So such a conversion may be given up at any instruction - a signal handler that leaves it with siglongjmp (a timeout, a watchdog) - and the only thing lost is the object that it was making: every later conversion, on that thread or any other, completes and gives its own correct result, objects that were only read or copied from are unchanged, the conversion has changed neither the thread's rounding mode nor its locale, and no memory is lost. (The one-time initialisation of a function-local static is exempt.)",
  ["crash_points","histories","schedules","inputs"],"every instruction at which such a conversion can be given up, any number of times, followed by every history of conversions on any thread",
  "No test gives up a conversion.",ALL,
  [("no static or thread-local scratch, no lock, no save-and-restore of process state on these paths","src/int.cpp, src/float.cpp, src/bool.cpp, src/char.cpp, src/null.cpp, src/detail/itoa.cpp, src/detail/dtoa.cpp")])
p("C21","The program's allocator may convert too",
  "A program that replaces operator new and operator delete, or installs a new-handler (tracing, accounting, releasing a reserve), may itself use lexi in them. Whatever conversions it makes inside an allocation or release that a conversion causes - formatting, escaping, JSON encoding, extraction, also of text that is rejected - they complete with their own correct results and leave the outer conversion's result, value or exception correct; and where a new-handler makes memory available, the outer conversion succeeds. (Allocations in the one-time initialisation of a function-local static are exempt.)",
  ["fault_sequences","histories","schedules","inputs"],"every conversion made at every allocation and release of every other conversion, to any depth, with and without failing allocations and concurrent threads",
  "The tests do not replace the allocator.",ALL,
  [("no state, lock or scratch memory is held across an allocation","src/detail/string.cpp, src/*.cpp, include/lexi/lexi.hpp")])
p("C22","Numbers can be formatted while floating-point errors are trapped",
  "When the calling thread traps the floating-point exceptions invalid, division by zero and overflow (feenableexcept, as programs do to find numerical errors), every conversion other than extraction of floating-point numbers completes with its correct result and raises no trap - also formatting of NaN, of the infinities and of the extreme numbers, which is what such programs report. It leaves the set of trapped exceptions as it was. (Signalling NaNs and long doubles that no double equals are exempt.)",
  ["configurations","inputs","histories"],"every set of trapped exceptions out of these three, and every value",
  "The tests trap no exception.",["src/float.cpp","src/detail/dtoa.cpp","src/detail/diyfp.cpp","include/lexi/detail/ieee754.hpp","src/int.cpp","include/lexi/lexi.hpp"],
  [("special numbers are told apart before any arithmetic; dtoa works on integers","src/float.cpp FormatFloat::format, src/detail/dtoa.cpp")])
p("C23","Conversions use nothing of the process but memory",
  "Apart from memory, a conversion uses nothing that belongs to the process or the system: it makes no system call (other than those by which memory is obtained and given back), reads from and writes to no stream or file, reads no environment variable, no clock and no random-number generator of the C library, and does not wait or sleep. So it gives the same results in a sandboxed thread, with every descriptor closed and under any environment, and a program that converts prints nothing - also where a text is rejected or memory runs out.",
  ["inputs","histories","fault_sequences","configurations"],"every conversion of every input, rejected or not, first or repeated, with and without failing allocations",
  "The tests look at results only, of a few inputs.",ALL,
  [("the library has no I/O; what it needs is passed in","src/*.cpp, src/detail/*.cpp")])
p("C24","A conversion's work depends on its argument, not on what was converted before",
  "The work of a conversion - the memory accesses that it makes and the memory that it holds meanwhile - grows at most linearly with the length of its argument, and is not affected by the number or variety of the conversions that the process or thread has made before: the same call, and calls for ever new values, cost as much after any number of conversions, rejections and ended threads as they did at the start. So hostile or long arguments cannot stop a program, and a process that runs for long does not slow down.",
  ["histories","inputs","programs"],"every conversion of every input up to any length, after every history of conversions",
  "The tests measure no work, and a handful of calls shows no growth.",ALL,
  [("no table of earlier conversions; one pass over the argument; output reserved once","src/*.cpp, src/detail/*.cpp")])
# ---- pure functions of the input: listed, not claimed
p("N01","Integers are formatted exactly","Formatting any value of any integer or enumeration type gives its exact canonical decimal text.",["inputs"],"every value of every integer type","The tests format only 0 and 1.",["src/int.cpp","src/detail/itoa.cpp"],[("table-driven digit emission","src/detail/itoa.cpp")])
p("N02","Doubles are formatted in 17 digits or fewer that identify them","Formatting any finite double gives at most 17 significant digits, laid out by the documented thresholds, that identify the double; NaN and the infinities give their configured names.",["inputs"],"every double","The tests format about twenty doubles.",["src/detail/dtoa.cpp","src/detail/diyfp.cpp","src/float.cpp"],[("Grisu2","src/detail/dtoa.cpp")])
p("N03","JSON encoding of any string is a valid, faithful JSON string","For any byte string, jsonify gives a quoted JSON string literal whose decoding is the input.",["inputs"],"every byte string","The tests encode three one-character strings.",["src/detail/string.cpp"],[("per-character switch","src/detail/string.cpp jsonify")])
p("N04","Escaping is exact and reversible","For any byte string, escape puts a backslash before exactly the ASCII characters that are neither alphanumeric nor DEL, so that removing the escapes gives the input.",["inputs"],"every byte string","The tests escape four characters.",["src/detail/string.cpp"],[("character ranges","src/detail/string.cpp escape")])
p("N05","Extraction of integers follows strtoull and wraps to the type","Extracting an integer type from any text gives the value of the longest numeric prefix, narrowed to the type.",["inputs"],"every text","The tests extract -1, 5 and 102.",["src/int.cpp"],[("strtoull","src/int.cpp")])
p("N06","Each type is converted by its own rule","The generic functions choose the rule for bool, char, integers, floating-point numbers, enumerations, stream positions, null and strings by the static type of the argument, for every cv-qualification.",["programs"],"every program that calls the generic functions","The tests instantiate a few types.",["include/lexi/lexi.hpp","include/lexi/detail/type.hpp"],[("SFINAE","include/lexi/lexi.hpp")])
p("N07","Configured literals are used consistently","When the literals for true, false, null, NaN and the infinities are redefined at build time, formatting gives and extraction accepts exactly the configured text.",["configurations"],"every set of literals","The tests use the default literals.",["include/lexi/detail/define.hpp","src/bool.cpp","src/null.cpp","src/float.cpp"],[("LEXI_* macros","include/lexi/detail/define.hpp")])
p("N08","Big-integer arithmetic is exact","Addition, multiplication, shifts, comparison and difference of the internal big integers are exact within their capacity.",["inputs"],"every operand","No test uses it, and no public function reaches it.",["src/detail/bigint.cpp"],[("64-bit limbs with carry","src/detail/bigint.cpp")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
