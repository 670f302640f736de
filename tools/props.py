"""The properties, and how each is decided.  gen.py turns this into properties.jsonl, MANIFEST.json and
the table in DESIGN.md."""
P = []


def p(id, title, statement, over, text, why, files, mech, design, note, state=(), observe=(), level="model_checking",
      technique="bounded-exhaustive exploration of the real code (all call sequences/inputs within stated bounds) against an independent reference model"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, design=design, note=note, state=list(state), observe=list(observe), level=level,
                  technique=technique))


# ---------------------------------------------------------------- life time, threads
p("L01", "Reference counting and autorelease free every object exactly once",
  "An object stays alive and usable as long as any owner (creation, retain, autorelease pool) still holds it, and is destroyed exactly once when the last owner lets go, in whatever order and on whatever threads the owners retain, release, autorelease and drain. Draining a pool releases every object registered with it once per autorelease, including objects registered by destructors that run during the drain, and never blocks for ever. Copying, assigning and flagging an object leaves the owners of both objects as they are.",
  ["schedules", "histories"],
  "All interleavings (up to a preemption bound) of 2-3 threads retaining, releasing, autoreleasing shared objects and draining pools; all call sequences up to a depth on one thread.",
  "Tests retain and release on one thread; the lost update in a counter or a list needs one particular interleaving, and re-entrancy needs a destructor that autoreleases.",
  ["src/core/Object.cpp", "src/core/AutoreleasePool.cpp", "src/core/Mutex.cpp"],
  [("Object::retain/release/autorelease", "src/core/Object.cpp"), ("AutoreleasePool::drain", "src/core/AutoreleasePool.cpp")],
  "Object, AutoreleasePool, Mutex, Thread compiled with memory-access instrumentation; a controlled scheduler (fibers) owns pthreads and enumerates every interleaving of shared accesses up to a preemption bound. Monitors: each object destroyed exactly once, never before its last owner let go, no access to freed memory, no memory left over, no deadlock. Sequential histories: all sequences against a counting model.",
  "Every schedule of the listed small programs up to the preemption bound, sequentially consistent memory; the atomicity of std::atomic is taken from the compiler.",
  technique="stateless model checking of the real code: preemption-bounded enumeration of thread interleavings under a controlled scheduler")
p("L02", "Thread life cycle: start, sleep, wake up, interrupt",
  "Every successful start() runs the thread's body exactly once; interrupt() ends a body that checks isAlive() (sleeping or working) without waiting for a time-out, and returns only after the body has ended; it is harmless before start() and when repeated, and the thread can be started again afterwards. isAlive() is true from start() until interrupt() and false otherwise, a sleeping thread continues only after wakeUp(), interrupt() or its time-out and always continues after them, lock()/unlock() exclude each other, and a thread that cannot be created is reported by an exception and leaves the object usable. setName() names the running thread (up to 15 bytes) and is harmless at other times, and isMainThread() is true in the main thread alone.",
  ["schedules"],
  "All interleavings up to a preemption bound of controller and helper threads calling start, interrupt, isAlive, wakeUp, lock against bodies calling sleep, sleep(ms), isAlive, lock; thread creation failing; time-outs at every moment.",
  "A unit test sees one schedule, normally the one where the new thread is late; the lost interrupt or lost wake-up needs a switch between two adjacent statements.",
  ["src/core/Thread.cpp", "src/core/Mutex.cpp"], [("Thread::start/interrupt/sleep/wakeUp", "src/core/Thread.cpp")],
  "As L01, with pthread_create/join and condition variables provided by the scheduler, time-outs of timed waits an explored choice, pthread_create failing an explored choice, and a clock that moves only when it is looked at or waited for. Mutexes and condition variables used without initialisation are reported.",
  "Bounded by the listed programs and preemption bound; one controller thread calls start() and interrupt().",
  technique="stateless model checking of the real code: preemption-bounded enumeration of thread interleavings under a controlled scheduler")
p("L03", "Mutex: mutual exclusion, sleeping and waking; the log is serialised",
  "At most one thread is between lock() and unlock() of a mutex at a time, a mutex that is released becomes available to a waiter, so no schedule of properly nested sections deadlocks, and different mutexes are independent. A thread in sleep() does not hold the mutex, each wakeUp() lets one sleeping thread continue, and none continues without. Log messages of several threads appear complete and one per line, and the last error message is one of the logged errors.",
  ["schedules"],
  "All interleavings up to a preemption bound of 2-3 threads running every short program of sections on two mutexes, of sleepers and wakers, and of threads that log.",
  "Existing tests lock from one thread at a time.",
  ["src/core/Mutex.cpp", "src/core/System.cpp"], [("Mutex", "src/core/Mutex.cpp"), ("System::log", "src/core/System.cpp")],
  "As L01; the log's console stream is replaced by a recording buffer.", "Bounded by the listed programs and preemption bound.",
  technique="stateless model checking of the real code: preemption-bounded enumeration of thread interleavings under a controlled scheduler")

p("L04", "Threads that share nothing, or only read, do not disturb each other",
  "Threads that use objects of their own may do so at the same time, whatever operations these are: text, numbers, dates, encodings, collections, compression, archives, files, XML, preferences, translations, properties, geometry, matrices, colours, undo histories, logging and autoreleasing. Each thread gets the results it would get alone, and no two threads access the same memory, one of them writing, without being ordered by a lock. The same holds if several threads call const methods of one object that nobody changes, and for what is made for several threads: reference counts, autorelease pools, threads, mutexes and the log.",
  ["schedules"],
  "All pairs of 31 groups of operations on objects of the two threads' own and of 16 groups of reading operations on shared objects; pairs of operations on one shared thread, mutex, object, pool and log; all orders of the synchronisation operations up to a preemption bound; within each order every data race by happens-before.",
  "Tests use one thread; scratch variables and lazily built tables that became static, or caches filled by reading, disturb only another thread at the same moment.",
  ["src/core/String.cpp", "src/core/SAXParser.cpp", "src/core/DateFormatter.cpp", "src/core/Inflater.cpp", "src/core/ZipOutputFile.cpp", "src/core/Charset.cpp", "src/core/System.cpp", "src/core/CRC.cpp"],
  [("SAXParser::parse", "src/core/SAXParser.cpp"), ("DateFormatter", "src/core/DateFormatter.cpp"), ("System::log", "src/core/System.cpp")],
  "The whole library is compiled with the thread sanitizer's instrumentation, whose calls go to the scheduler of L01-L03. Only operations that synchronise (mutexes, thread creation and end, once-initialisation, atomics) are schedule points; every access to memory is checked against the vector clocks of the threads, byte by byte, so that a race is found in one of the orders even if it did no harm in the schedule at hand. Functions of the C library that use hidden shared memory (strtok, localtime, setlocale, ...) count as writing to it. The static variables are as after System::init() at the start of each execution, so first uses are covered.",
  "Accesses inside the C++ library's own code are not instrumented; happens-before detection finds a race in the explored orders only. referenceCount(), highBit() and lastErrorMessage() show a momentary state without any lock and are not claimed while other threads change it.",
  technique="stateless model checking of the real code: preemption-bounded enumeration of the orders of synchronisation operations under a controlled scheduler, with happens-before data race detection in every execution")

# ---------------------------------------------------------------- undo
p("U01", "Undo and redo restore exact document states",
  "For any sequence of registered changes grouped into steps, undo() restores every changed variable (of every supported type, and object references) to its exact value before the step and redo() to its exact value after it, step by step, for any alternation of undo and redo. undo/redo do nothing and report failure when there is nothing to undo/redo or a step is open, a new change discards the redo history, and every change made while the manager is active is undoable while changes made while it is inactive are not recorded. Objects changed by undo and redo are flagged for regeneration, and objects referenced by the history stay alive exactly as long as the history or the document refers to them.",
  ["histories"],
  "All sequences up to a depth over change (several variables and types, several per step), close, undo, redo, activate/deactivate, clear.",
  "Tests run one or two fixed scripts; the stacks, the open step and the swap direction interact over the whole history.",
  ["src/core/UndoManager.cpp", "src/core/UndoStep.cpp", "src/core/UndoChange.cpp", "src/core/EditableObject.cpp"],
  [("UndoManager::undo/redo/close/registerChange", "src/core/UndoManager.cpp"), ("UndoStep::swap", "src/core/UndoStep.cpp")],
  "Every operation sequence up to the bound drives a real Document/UndoManager; the reference keeps complete value snapshots per step in a plain vector.",
  "Exhaustive within the alphabet and depth.")
p("U02", "Transactions are atomic and nest",
  "A transaction whose nested operations all report success leaves exactly its changes, as part of the current undo step; one in which any (nested) operation reported a failure leaves no trace: all its changes are taken back, everything changed before it stays, and later transactions are unaffected; this includes changes that objects make in reaction (when they are regenerated). closeTransaction() reports a failure exactly if one was registered in the transaction, and nothing is undone or redone while a transaction is open.",
  ["histories", "fault_sequences"],
  "All sequences up to a depth of openTransaction (nested), change, register success/failure, closeTransaction, close, undo, redo.",
  "Needs failure at every nesting level combined with history before and after.",
  ["src/core/UndoManager.cpp", "src/core/UndoStep.cpp"], [("openTransaction/closeTransaction/rollback", "src/core/UndoManager.cpp")],
  "As U01, the failure status being an environment choice at every operation.",
  "Exhaustive within the alphabet and depth.")
p("U03", "LinkedList behaves as a sequence, also under undo and redo",
  "A LinkedList holds exactly the elements added and not removed, in order, whatever mix of add, addBefore, remove, clear and list or iterator traversal is applied; first, last, size, contains, forward iteration and iteration with seek agree with it. With an active undo manager, undo and redo restore exactly the earlier sequences, and elements are neither lost, nor freed early.",
  ["histories"],
  "All sequences up to a depth over 2-3 elements and every position, with steps closed, undone and redone in between.",
  "Link surgery errors show only for particular positions and subsequent operations.",
  ["src/core/LinkedList.cpp", "src/core/UndoChange.cpp"], [("LinkedList", "src/core/LinkedList.cpp")],
  "Every operation sequence against std::vector snapshots, AddressSanitizer watching memory.",
  "Exhaustive within the alphabet and depth.")

p("U04", "Setting members and the document's state flags",
  "Setting a member of an editable object to a different valid value stores it, records exactly one undoable change and returns eOK; setting the equal value returns eNotChanged and records nothing; an invalid value (out of range, NaN) returns eInvalidInput, changes nothing and makes the open transaction fail - with or without document and undo manager. A new object is marked for regeneration, a new document is not. A document is marked as changed by every finished step, undo and redo and only by those, and switching its undo manager off and on never affects the data.",
  ["histories", "inputs"],
  "All sequences of sets for each member type in each environment, every value/range combination over the boundary values, all document operation sequences up to a depth.",
  "Tests set each member once.",
  ["src/core/EditableObject.cpp", "src/core/Document.cpp"], [("EditableObject::setMember", "src/core/EditableObject.cpp")],
  "Every sequence against a value list.", "Exhaustive within the alphabet and depth.")

# ---------------------------------------------------------------- containers
p("C01", "Hashtable is a finite map",
  "After any sequence of put, remove and clear, a Hashtable contains exactly the keys put and not removed, each with its latest value, no matter how keys collide or how often the table grows. put and remove return the value they replaced or removed; size, isEmpty, containsKey, containsValue, get and the iterators over keys and values (each entry once) agree with that map, and all entries are released with the table.",
  ["histories", "inputs"],
  "All operation sequences up to a depth over colliding and non-colliding keys, from empty and from prefilled tables around every growth boundary.",
  "Collisions, chain removal positions and growth depend on combinations of keys that fixed tests do not hit.",
  ["src/core/Hashtable.cpp"], [("Hashtable::put/get/remove/rehash", "src/core/Hashtable.cpp")],
  "Every sequence against std::map, with keys chosen to collide in the same bucket; memory observed.",
  "Exhaustive within the alphabet, depth and table sizes.")
p("C02", "StringList is a sequence of strings with reliable sorting",
  "After any sequence of append, set, remove (of all equal elements), reserve, sort, clear, copying and assignment a StringList holds exactly the corresponding sequence, also when an element of the list or the list itself is the argument; get and [] (which refuse positions outside), contains, size, iteration and join agree with it, and copies are independent. Sorting yields an ordered permutation.",
  ["histories", "inputs"], "All operation sequences up to a depth over a small alphabet of strings, including strings of the list itself and lists of itself.",
  "Positions at both ends, aliasing and duplicates combine over the history.",
  ["src/core/StringList.cpp"], [("StringList", "src/core/StringList.cpp")],
  "Every sequence against std::vector<std::u16string>.", "Exhaustive within the alphabet and depth.")
p("C03", "ByteArray holds exactly its bytes",
  "After any sequence of construction, copying, resizing, replacing, filling, sorting and assignment a ByteArray has exactly the specified length and bytes: resizing keeps the common prefix and clears the rest, copying partial ranges (also of the array into itself) never touches bytes outside source and target, and copies are independent of the original.",
  ["histories", "inputs"], "All operation sequences up to a depth, every pair of sizes up to a bound.",
  "Offsets and lengths interact with the current size; memory errors need particular combinations.",
  ["src/core/ByteArray.cpp"], [("ByteArray", "src/core/ByteArray.cpp")],
  "Every sequence against std::vector<uint8>, AddressSanitizer watching memory.", "Exhaustive within the alphabet and depth.")
p("C04", "Array, Stack, CharArray and FloatArray hold exactly their elements",
  "An Array (of values or of pointers), a FloatArray and a CharArray keep exactly the values set, in any sequence of setting, copying and assignment, and copies are independent; access outside the bounds of an Array is rejected with an exception and changes nothing; sorting gives an ordered permutation. A Stack is last in, first out through any sequence of push, pop, reverse, clear and writing to the top, for any number of elements.",
  ["histories", "inputs"], "All operation sequences up to a depth, from empty and from prefilled containers around capacity boundaries.",
  "Growth of the capacity, the reversed order and shared copies go wrong only for particular sizes and orders of calls.",
  ["include/core/Array.h", "include/core/Stack.h", "include/core/CharArray.h"],
  [("Array", "include/core/Array.h"), ("Stack", "include/core/Stack.h")],
  "Every sequence against std::vector, live copies compared after every step, AddressSanitizer watching memory.", "Exhaustive within the alphabet and depth.")

p("C05", "Copies have the value of the original and are independent of it",
  "For every value class of the library (strings, string lists, byte, character and number arrays, stacks, hash tables, preferences, translations, matrices, vectors, NURBS curves, dates, date formatters, colours, properties, variants, exceptions, XML attributes, file names, resources, tokenizers, list iterators, archive entries, points, sizes, rectangles, extents) a copy, however made (copy construction, assignment, also to itself or exchanging two objects, passing and returning by value, as a member, in a growing std::vector), has the value of the original; afterwards modifying or destroying either of them never changes the other, and all memory is given back exactly once. (The objects that the entries of a Hashtable, an Array of pointers or a Stack of pointers point to are shared by design; a Preferences has entries of its own.)",
  ["histories"], "All histories of 1 to 2 operations (3 for the classes with few of them; thorough 3 for all) of two heap objects over all ways of making and modifying objects of each of the 35 classes.",
  "Shared buffers show only when a copy is modified or destroyed in a particular order, and a stale member only when a particular assignment is followed by a particular query.",
  ["src/core/String.cpp", "src/core/StringList.cpp", "src/core/ByteArray.cpp", "src/core/Matrix.cpp", "src/core/Hashtable.cpp", "src/core/Preferences.cpp", "src/core/NURBS.cpp", "src/core/DateFormatter.cpp", "include/core/Stack.h", "include/core/Array.h"],
  [("copy constructors and assignment operators", "src/core/StringList.cpp")],
  "After every operation both objects are compared with fresh objects made and modified the same way without any copying; AddressSanitizer and a count of live heap blocks decide on sharing and leaks.", "Exhaustive within alphabet and depth. Copies of lists, opened streams and archives, mutexes and threads are not claimed (the library does not define them).")

# ---------------------------------------------------------------- strings
p("S01", "String operations compute the specified sequence of characters",
  "Appending, inserting, deleting, cutting, replacing, reversing, trimming, searching (first, last, from a position, prefix, suffix) and comparing strings give exactly the result defined on sequences of 16-bit characters, for every content and position, including positions outside the string, empty strings and the string as its own argument. No operation modifies its arguments or another string copied from it.",
  ["inputs", "histories"], "All strings up to a length over a small alphabet for every argument combination; all sequences of mutating operations up to a depth, copies observed.",
  "The tests use a few literals; off-by-one and aliasing errors need particular positions, repeats and shared buffers.",
  ["src/core/String.cpp", "include/core/String.h"], [("String", "src/core/String.cpp")],
  "Every operation over every small input against std::u16string algorithms; every mutation sequence with live copies.", "Exhaustive within alphabet, length and depth.")
p("S02", "String equality, hash codes and order are consistent",
  "Equality of strings is equality of their characters; equal strings have equal hash codes at any time, however they were made and whatever was computed before they were modified. Comparison is a strict total order consistent with equality, case-insensitive comparison is the same after case folding, and upper/lower casing and the character classes agree with the documented character tables.",
  ["inputs", "histories"], "All pairs and triples of small strings; all sequences of hash, modify, compare; every 16-bit character.",
  "A stale cached hash needs hash-then-modify in particular ways.",
  ["src/core/String.cpp", "src/core/Character.cpp"], [("String::hashCode/equals/compareTo", "src/core/String.cpp")],
  "All pairs/triples (order axioms), all histories of hash-caching, all 65536 characters.", "Exhaustive within alphabet and length.")
p("S03", "Numbers and text convert exactly in both directions",
  "Converting an integer of any width to decimal, hexadecimal (two's complement), roman or alphabetic (A..Z, AA..) text gives exactly its notation, and toInt()/fromHex() of that text return the number, over the whole range of the type; toInt() rejects every text with other characters and every number outside the range with an exception. Converting a double with a precision gives the nearest decimal with exactly that number of digits (trailing zeros cut on request, sign kept), without precision its ten significant digits, and toDouble() of a decimal notation returns the nearest double.",
  ["inputs"], "All small integers, all powers of two and ten and their neighbours in every integer type, all short texts over the number alphabet, decimals of every digit pattern up to a length, doubles around powers.",
  "Carry, sign and range errors hide between the handful of tested values.",
  ["src/core/String.cpp", "src/core/Integer.cpp"], [("String::valueOf/toInt/toDouble", "src/core/String.cpp"), ("Integer", "src/core/Integer.cpp")],
  "Exhaustive ranges and boundary neighbourhoods against independent 128-bit integer arithmetic and the C library's conversions; all texts up to a length against a grammar.", "Exhaustive within ranges and lengths; a printed double may differ from the nearest decimal by 1e-15 (ties).")
p("S04", "String::arg replaces exactly the addressed placeholder",
  "arg() replaces the first of the lowest-numbered placeholders (%0..%99, one or two digits) by the formatted argument and nothing else: all other text, including stray percent signs and other placeholders, stays as it is, text without placeholder is unchanged, and chained calls fill placeholders in ascending order. Field width (right- or left-aligned), fill character and precision are honoured for every argument type and value; the template itself is not modified.",
  ["inputs"], "All templates up to a length over {%, digits, letters}, chained up to three times; all widths, fills and precisions within bounds for boundary values of every argument type.",
  "Adjacent placeholders, two-digit numbers and stray percent signs occur in combinations tests do not list.",
  ["src/core/String.cpp"], [("String::arg", "src/core/String.cpp")],
  "Every template and formatting combination against an independent formatter.", "Exhaustive within length and value grids.")
p("S05", "Splitting and tokenizing partition the text exactly",
  "StringTokenizer and split return exactly the maximal runs of characters between delimiters, in order (with each delimiter as a token of its own on request), for every position of delimiters including start, end and repeats; nothing of the input is lost, duplicated or invented. How often hasNext() is asked makes no difference, and next() without a further token throws.",
  ["inputs"], "All strings up to a length over delimiters and letters, all delimiter sets, with and without returned delimiters, every pattern of asking.",
  "Leading, trailing and adjacent delimiters in every combination.",
  ["src/core/StringTokenizer.cpp", "src/core/String.cpp"], [("StringTokenizer", "src/core/StringTokenizer.cpp")],
  "All inputs against a reference partition.", "Exhaustive within alphabet and length.")
p("S06", "Character encodings are exact, round-trip and tolerate any bytes",
  "Encoding a text in a charset (UTF-8, UTF-16LE, UTF-16BE, Windows-1252, MacRoman, RAW = ISO 8859-1, ASCII) gives exactly the bytes that encoding prescribes (surrogate pairs are four bytes in UTF-8), and decoding these bytes in the same charset, from a byte array, with a size or zero-terminated, returns the text; this holds for every character the charset has, except U+0000. A byte order mark at the start of UTF-8 or UTF-16 bytes is not part of the text. In any byte sequence, complete or truncated, complete UTF-8 sequences are decoded and all other bytes stand for themselves, UTF-16 ends at the first zero character, and nothing beyond the given bytes is read. Charset::guess recognises byte order marks, pure ASCII and UTF-16 without mark and reads only the given bytes; forName finds exactly the charset of that name.",
  ["inputs"], "Every 16-bit character in every charset, supplementary characters, all texts and all byte sequences up to a length over boundary characters and bytes.",
  "Tests decode a few sample texts; per-character table errors and truncated sequences need the whole space.",
  ["src/core/Charset.cpp", "src/core/CharsetDecoder.cpp", "src/core/UTF8Decoder.cpp", "src/core/UTF16Decoder.cpp", "src/core/Windows1252Decoder.cpp", "src/core/MacRomanDecoder.cpp"], [("Charset/CharsetDecoder", "src/core/Charset.cpp")],
  "All characters, short texts and short byte sequences are encoded, decoded and guessed by the real code and compared with independent tables (Python's codecs) and a reference UTF-8/16 codec; buffers are exactly as long as allowed so that the address sanitizer sees every access beyond the end.", "Exhaustive over 16-bit characters; short texts and byte sequences over boundary alphabets.")

# ---------------------------------------------------------------- encodings, files
p("E01", "Base64, URL encoding and CRC are exact",
  "Base64::encode gives the RFC 4648 encoding and Base64::decode of it, with or without padding, exactly the original bytes; decoding any text ends at the first character outside the alphabet. URLEncode gives text of ASCII characters without blanks in which every '%' starts a two-digit escape, from which any URL decoder and URLDecode get the UTF-8 bytes of the text and so the text; URLDecode accepts digits in either case and takes a '%' without two digits literally. CRC::crc8 is the reflected 16-bit CRC with polynomial 0x8005, also when the data is passed in pieces. Nothing beyond the given data is read, whatever it contains.",
  ["inputs"], "All byte strings up to a length over boundary bytes, all lengths up to a bound, all splits, all short malformed texts.",
  "Padding and length classes need every remainder and boundary byte.",
  ["src/core/Base64.cpp", "src/core/CRC.cpp", "src/core/String.cpp", "src/core/ByteArray.cpp"], [("Base64", "src/core/Base64.cpp"), ("CRC32", "src/core/CRC.cpp")],
  "All short inputs, all characters, all register states against independent bit-by-bit references; input buffers are exactly as long as the data (address sanitizer).", "Exhaustive within alphabet and length.")
p("E02", "Inflater inverts every DEFLATE stream and rejects corrupt ones safely",
  "Inflating a stream made by any DEFLATE encoder (stored, fixed or dynamic blocks, any code tables, any length and window distance, raw or with zlib header) yields exactly the original bytes, and Deflater's output is a zlib stream that zlib and Inflater read back to its input, for every input; totals count exactly the bytes, and an object can be reset and used again. The memory in use stays proportional to input and output. A truncated stream ends in an exception, a corrupt one in an exception or in output, never in memory access outside the buffers or an endless loop.",
  ["inputs"], "All small inputs, structured large inputs at every length near the window size, all zlib levels and strategies, all bit flips and truncations of small streams, all short byte strings.",
  "Block boundaries, window wrap and malformed headers need particular streams.",
  ["src/core/Inflater.cpp", "src/core/Deflater.cpp"], [("Inflater", "src/core/Inflater.cpp"), ("Deflater", "src/core/Deflater.cpp")],
  "Streams produced by zlib in all modes and by a DEFLATE writer of the check that enumerates distances, lengths, code shapes, table encodings and block sequences (validated against zlib); all prefixes, single-byte and single-bit corruptions of sample streams and all very short streams, differential against zlib.", "Exhaustive within the generated families.")
p("E03", "Serialized numbers have the documented bytes and read back identically",
  "Each serialize function (16, 24, 32 and 64 bit integers, float, double; big and little endian) writes exactly the bytes of the value in the named byte order at the given offset, touches no other byte and returns the number of bytes it wrote. The matching deserialize functions (from plain memory or from a ByteArray, signed and unsigned) return exactly the value those bytes stand for, at every offset, aligned or not. A sequence of values of any kinds written one after another reads back identically in the same order.",
  ["inputs", "histories"], "All kinds times all offsets 0..9 times a grid of byte patterns (every byte at its boundary values), and all sequences of kinds up to a depth.",
  "Alignment and byte order errors show only for particular kinds in sequence.",
  ["src/core/Serializer.cpp", "include/core/Serializer.h"], [("Serializer", "src/core/Serializer.cpp")],
  "Every kind, offset and pattern against bytes computed by shifting; canaries around each value; all kind sequences.", "Exhaustive within grid and depth.")
p("E04", "Zip archives are read and written exactly, damaged ones rejected safely",
  "For every well-formed archive (stored or deflated entries, directories, extra fields, comments of entries and archive, data descriptors, text in front, any order) ZipFile lists exactly the entries in directory order with their names, sizes and kind (isDirectory for names ending in /), entry(name) finds the first of that name or returns nullptr, comment returns the archive's comment even if it contains signatures, and each stream delivers exactly the content; opening again gives the same. A damaged archive leads to an exception or to streams of exactly the promised size, never to access outside the data, leaks or endless loops. ZipOutputFile writes a file that is exactly one well-formed archive of the entries (correct CRC, sizes, offsets; nothing left of a previous file, no temporary files), which reads back identically, and refuses what the format cannot hold (more than 65535 entries or bytes of a name or comment), leaving no temporary file then either.",
  ["inputs"], "All archives over a grid of entries; every truncation, every byte and every pair of fields of sample archives replaced by boundary values.",
  "Tests open one sample archive.",
  ["src/core/ZipFile.cpp", "src/core/ZipOutputFile.cpp"], [("ZipFile", "src/core/ZipFile.cpp")],
  "Archives generated by an independent writer (and zlib); all corruptions enumerated.", "Exhaustive within the grid.")
p("E05", "XML written is XML read",
  "The output of XMLWriter is well-formed, and parsing it yields the same elements, nesting, attributes (names and values) and character data that were written, for every content including all markup characters, quotes, white space and non-ASCII text. Indentation adds only a line break and spaces, before start tags and before end tags of elements without text, and only where startIndent asked for it. Numbers written as attributes are read back with the same value; attributes written after content are ignored.",
  ["inputs", "histories"], "All documents up to a depth of writer calls, attribute and text values over the markup alphabet.",
  "Escaping errors need particular characters at particular places.",
  ["src/core/XMLWriter.cpp", "src/core/SAXParser.cpp"], [("XMLWriter", "src/core/XMLWriter.cpp"), ("SAXParser", "src/core/SAXParser.cpp")],
  "All call sequences of the real XMLWriter on a MemoryStream; the output is read by an independent strict reader (well-formedness) and by SAXParser, both event lists are compared with the calls.", "Exhaustive within call depth, text length and alphabet. Element and attribute names are fixed valid names; raw (unencoded) text is markup-free.")
p("E06", "The XML parser reports the document and survives any input",
  "For well-formed input the parser reports start and end of elements in document order, properly nested, with exactly the attributes and text of the document, whatever quotes, white space, comments, CDATA sections, document type, predefined entities and numeric character references are used; white space is reported as ignorable only where a text keeps at least one white space character at that end; processing instructions are reported with target and data, the XML declaration is not. startDocument is first and endDocument last. For any other input it terminates with or without an error, without access outside the data. SAXAttributes deliver what was added, also after copying. An exception thrown by a handler arrives at the caller of parse(), nothing leaks, and the parser can be used again.",
  ["inputs"], "All token sequences up to a length over the markup alphabet, all character strings up to a length.",
  "Tests parse a few well-formed files.",
  ["src/core/SAXParser.cpp", "src/core/SAXAttributes.cpp"], [("SAXParser", "src/core/SAXParser.cpp")],
  "A grammar generates every document of a bounded number of pieces together with its expected events; all short strings over the markup alphabet, alone and behind the beginning of every construct, and every damage to a sample document for safety (AddressSanitizer).", "Exhaustive within length. Attribute values are reported literally (no white space normalisation); entities declared in a DTD are not supported by the library and not generated; namespaces are not resolved (the uri is empty).")
p("E07", "Preferences survive saving and loading",
  "Every key and value set in Preferences (including backslashes, line breaks, tabs, equal signs, non-ASCII and empty values) is returned unchanged by value() and is the same after saving and loading, however often, in any history of setting, saving and loading (plain spaces around a value are the one thing the file format does not keep; keys are non-empty, without = and line breaks and without surrounding white space). Loading reads key=value lines with any line separator, trims white space, reverses the escapes \\ \t \n \r exactly once and ignores other lines. Unset and empty keys give the default, and the typed getters return the number or truth value that was set. Every run of a program starts with the preferences its bundle saved last, by savePreferences() or quit(), and with no other bundle's.",
  ["inputs", "histories"], "All values up to a length over the escape alphabet; sequences of set, save, load.",
  "Escaping errors need backslashes before particular characters and repeated cycles.",
  ["src/core/Preferences.cpp", "src/core/System.cpp"], [("Preferences", "src/core/Preferences.cpp")],
  "The real Preferences with files in a scratch directory: every value over the escape alphabet, every key, every history of operations against a map, every small hand-written file against the expected entries. Programs are processes of their own that use System::init, preferences, savePreferences and quit with a scratch directory as their home.", "Exhaustive within alphabet and length. Doubles are compared within the precision of their text (S03).")
p("E08", "Translation catalogues map exactly their messages",
  "After loading a message catalogue (.mo, little endian, any layout of its tables and strings, whose lengths decide) translating a key returns exactly the catalogue's text, including line breaks and backslashes; a key without (or with an empty) translation is returned unchanged, and later catalogues override earlier ones. Files with another magic number or version change nothing. A truncated or corrupt catalogue never causes access outside the data and keeps the other entries. The file for a language is searched in the order prefix.language_REGION.mo, language_REGION.mo, prefix.language.mo, language.mo.",
  ["inputs"], "All catalogues of up to 3 messages in both byte orders, all truncations and boundary corruptions.",
  "Tests load one sample.",
  ["src/core/I18nBundle.cpp"], [("I18nBundle::appendMo", "src/core/I18nBundle.cpp")],
  "Catalogues generated by an independent writer in four layouts; all truncations, all byte values and boundary values (also in pairs) in header and tables under AddressSanitizer; all subsets of language files, with the resource folder redirected to the scratch directory.", "Exhaustive within the grid. Big-endian catalogues, plural forms and contexts are not supported by the library.")
p("F01", "MemoryStream reads and writes exactly within its buffer",
  "A MemoryStream over n bytes behaves like a byte file of fixed size n under every sequence of read, readFully, write (bytes or String), seek, move, open and close: reads deliver exactly the bytes at the position and return their number, writes change exactly the bytes that fit and return their number, the position advances by what was transferred, seek and move reach every position from 0 to the end (inclusive) and leave the position alone when the target lies outside, open and close go back to the start. Nothing outside the buffer is read or written, for any length, including huge ones or ones larger than the destination ByteArray; owned memory is freed exactly once.",
  ["histories"], "All sequences of up to 3 operations (thorough 4) over streams of 0 to 5 bytes with lengths and positions at all boundaries.",
  "End-of-buffer behaviour depends on position and length combinations.",
  ["src/core/MemoryStream.cpp", "src/core/Stream.cpp"], [("MemoryStream", "src/core/MemoryStream.cpp")],
  "All sequences against std::vector plus position, AddressSanitizer watching.", "Exhaustive within depth.")
p("F02", "File streams and line reading deliver exactly the file's bytes",
  "Any sequence of open (all modes), read, readFully, write (bytes or String, as UTF-8), seek, move and close on a File behaves like a byte vector with a position: reads return exactly the bytes present and their number, writes change exactly the bytes at the position and return their number, opening an open file first completes it, and after close the file on disk holds exactly what was written. Opening for kRead and kReadWrite fails for a missing file, kWrite empties or creates it; the status names the reason; a File that is not open reads and writes nothing and refuses seek. When the disk is full at any byte, a short write or an exception from close reports it, and the file is closed and its descriptor freed all the same. A Resource, the file of that name in the folder of resources, behaves the same, also copied and assigned. operator>> reads exactly one line, whatever its length.",
  ["histories", "fault_sequences"], "All operation sequences up to a depth with lengths around the end of file and around the C library's buffer size; disk full at every boundary; all short texts for line reading.",
  "The buffer boundary and error paths are not reached by tests.",
  ["src/core/File.cpp", "src/core/Stream.cpp", "src/core/Resource.cpp"], [("File", "src/core/File.cpp"), ("operator>>", "src/core/String.cpp"), ("Resource", "src/core/Resource.cpp")],
  "All sequences on scratch files against a byte vector, the real file compared after every step; file size limit as fault injector at every byte boundary; descriptors counted.", "Exhaustive within depth and one fault.")
p("F03", "Path names decompose and recompose exactly",
  "A File's path is its text with repeated separators merged and a separator at the end removed (except the root itself), and making a File of that path again changes nothing. name is the last component, parent everything before it (the root for a file in the root directory, empty for a single relative component), extension the part of the name, not of the directories, behind its last dot or empty, isHidden tells whether the name begins with a dot, isAbsolute whether the path begins at the root, isNull whether it is empty. File(parent, child) names parent/child for every combination of separators (an empty child throws, an empty parent stands for the root), so File(parent(), name()) gives the path back. Copies and assignments keep all of this.",
  ["inputs"], "All paths up to length 9 (thorough 11) over {/, ., a, a-umlaut}, all parent and child pairs up to length 5 (6), long component lists.",
  "Dots and slashes in every combination.",
  ["src/core/File.cpp"], [("File::parent/name/extension", "src/core/File.cpp")],
  "All paths against a reference on components.", "Exhaustive within alphabet and length.")
p("F04", "File system operations do exactly what they say",
  "createNewFile creates an empty file only where nothing exists and never changes an existing one, makeDirectory, remove (a file, a link itself, or an empty directory) and renameTo change exactly the named object and nothing else; each returns whether it succeeded, and a failed one leaves the file system as it was. After a successful renameTo the File names the new path. exists, isFile, isDirectory, isLink, isPipe, size, canRead, canWrite, canExecute, lastModified (to the millisecond) and listFiles (each entry once, apart from . and ..; nullptr for anything but a directory) reflect the actual file system at every moment, for missing files too, for non-ASCII names and for directories that change while they are listed. compareTo is a total order that is 0 only for equal paths. addTag, removeTag and getTags keep exactly the set of tags, however many. No operation leaves a file or directory open.",
  ["histories", "fault_sequences"], "All operation sequences up to a depth over a small tree in a scratch directory, from seven start states including links and pipes.",
  "Interaction of operations over files, directories and links.",
  ["src/core/File.cpp"], [("File", "src/core/File.cpp")],
  "Every operation is mirrored by the plain system call on a twin directory; trees compared afterwards. readdir is intercepted to change the directory at every step of a listing; extended attributes are modelled in memory.", "Exhaustive within depth and names.")
p("D01", "Calendar arithmetic is exact",
  "For every instant, given in milliseconds before or after 1970, the year, month, day of the month, hour, minute, second, millisecond, weekday and day of the year (counted from 0) are those of the proleptic Gregorian calendar, in local time (which is UTC here) as in UTC; the text form is the ISO form of these fields for the years 0 to 9999. A date built from its fields is the instant that has these fields, surplus months, days, hours, minutes, seconds and milliseconds carrying over; dates are ordered as their instants, and reading or copying a date changes nothing.",
  ["inputs"], "Every day of the years 1600 to 2372 at its first and last millisecond, first and last day of every month of -1 to 2400, every second of the days around turns of year, century and leap days, every millisecond of three minutes around 1970, all months 0..40 and days with surplus of six years, all pairs of 16 instants.",
  "Tests check a few dates; month ends, century leap years, negative times need the whole range.",
  ["src/core/Date.cpp"], [("Date", "src/core/Date.cpp")],
  "An independent calendar that is stepped one day at a time (no division) gives the fields of each day; Date's fields, text and both constructors are compared with it.", "No time zone, no week of year and no field setters exist in Date; the text of years outside 0..9999 is not specified.")
p("D02", "Date formatting follows the pattern exactly",
  "Formatting a date with any pattern prints, for each run of one symbol, the field of that date in the width of the run: y year (yy: two digits), M month (number, two digits, short and full name), d day of the month, D day of the year from 1, E weekday (one letter, two letters, full name), H hour, m minute, s second, S millisecond (three digits if repeated); text between single quotes appears verbatim and every other character unchanged, wherever it stands.",
  ["inputs"], "All patterns up to length 5 over symbols, letters without meaning, blank and (closed) quotes; all sequences of up to 4 usual pieces; every symbol with every width from 1 to 9 in six neighbourhoods for every day of a year; nine dates including before 1970.",
  "Symbols adjacent to quotes and repeats in every combination.",
  ["src/core/DateFormatter.cpp"], [("DateFormatter::format", "src/core/DateFormatter.cpp")],
  "An independent formatter that works on the whole pattern with fields written down by hand; every pattern formatted for nine dates.", "Names are the built-in ones (German abbreviations and weekdays, translatable English months). The documented symbols w W F a K h k z are not implemented: known findings.")
p("M01", "Tolerance comparisons and integer math are consistent",
  "The tolerance comparisons (equal, less, greater, ... with tolerance) are mutually consistent for all finite numbers: exactly one of less, equal, greater holds, the combined relations are their unions, swapping the operands mirrors the result, and differences clearly below or above the tolerance decide. Rounding is exact commercial rounding, rounding to digits stays within half of the last digit, and floor division and modulo, powers of two, sign, swap (also of a variable with itself), interpolation and the conversion of angles are exact over the whole argument range they accept; random numbers stay in and reach the whole range given, a probability of 0 is never, of 1 always fulfilled.",
  ["inputs"], "21 magnitudes x 14 offsets around the tolerance x 7x7 neighbours in the number format and all pairs of them; every half up to 2000 and every power of two up to 2^62 with neighbours; all pairs of -300..300 and type limits for division; all 17-bit numbers; the random generator replaced by every value of 0..399 and the largest ones for all ranges within -6..6.",
  "Boundary values at exactly the tolerance and negative operands.",
  ["src/core/Math.cpp", "include/core/Math.h"], [("Math", "src/core/Math.cpp")],
  "All pairs of a grid against exact 128-bit arithmetic; rand() is replaced by the explorer (link-time) so that every draw is enumerated.", "Infinities are outside (their difference is not a number), ceilPowerOf2 is checked for 1..2^31.")
p("M02", "Matrix algebra obeys its laws for every shape",
  "Addition, subtraction, multiplication (with matrices, vectors, points, numbers), transposition, insertion, determinant, inverse, eigenvalues, norms and trace give the exact results defined for matrices of every shape; operands of unsuitable shape and singular matrices are reported and change nothing; operands stay unchanged, copies are independent and no memory is lost in any history of operations. The same holds for the operations of vectors.",
  ["inputs", "histories"], "All pairs of shapes 1x1 to 5x5 with distinct entries; all 2x2 (and 1x2, 2x3, ...) matrices over {-1,0,2} in pairs; determinant and inverse of all matrices up to 2x2 over -3..3, 3x3 over three or four numbers, 4x4 built from 12 rows and all over {0,1}; eigenvalues of all symmetric 3x3 over -2..2; all histories of 4 of 16 operations on two matrices of 9 shapes; all pairs of vectors up to length 3 over -2..2.",
  "Rectangular shapes, pivoting and singular cases in combination.",
  ["src/core/Matrix.cpp", "src/core/Vector.cpp"], [("Matrix", "src/core/Matrix.cpp")],
  "All matrices over a small integer alphabet against exact integer arithmetic (determinant by expansion, inverse by multiplying back, eigenvalues by the coefficients of the characteristic polynomial) and histories of operations against a table of numbers, with a leak check.", "Determinant and inverse exist up to 4x4, eigenvalues for symmetric 3x3 and real 2x2 (documented limits).")
p("M03", "Geometric constructions satisfy their defining equations",
  "Intersections (line with plane, line, segment, ray, arc, ellipse; circle with circle), closest points, distances, circles through points and along tangents, angles and bisectors returned for points, lines, planes, circles and ellipses satisfy the equations that define them, and whether there is a solution is decided right for every configuration including tangent, parallel, vertical, coincident and degenerate ones, whatever the length of a direction. Vector operations of plane and space points (products, length, angle, normalising, rotation, comparison, linear systems, linear independence) obey the laws of vector algebra and leave their operands unchanged.",
  ["inputs"], "All pairs of plane vectors over -3..3 and space vectors over -3..3; lines/planes/segments with all normals and directions over -1..2 and 36 pairs of positions; all pairs of segments on a 5x5 grid; all circles with centres over -5..5 and radii 0..6 in three units; all rays from -3..3 with all directions over -2..2 (three lengths) against 3 circles with all arcs between multiples of 45 degrees and 36 ellipses with quarter arcs; circles through all triples of a 5x5 grid and all tangents.",
  "Special positions (vertical, tangent, coincident) combine in many ways.",
  ["src/core/Geometry.cpp", "src/core/Vertex2.cpp", "src/core/Vertex3.cpp"], [("Geometry", "src/core/Geometry.cpp")],
  "All grid configurations; whether a solution exists is decided with exact integer arithmetic, points found are checked against defining equations or closed formulas written independently (long double).", "Touching cases nearer than the tolerance but not exact are left out; arcs of ellipses are checked at multiples of 90 degrees only (the angle there is the same polar or parametric); rays starting on the curve do not count that point.")
p("M04", "Rectangles, extents, points and sizes are sets of points",
  "A Rect describes the closed set of points between its edges: contains, intersects, intersection, intersect, unionWith, isEmpty and all corners, centres and edges agree with that set for every position, including touching, nested, disjoint (the intersection is then the rectangle 0,0,0,0) and empty ones; every mutator (edges, size, origin, moving, aligning, normalising) changes exactly the edges it names, in every sequence of calls. Extents are the smallest box around everything added, points in the plane or in space and other extents, in every order; plane points say nothing about z. Point and Size arithmetic is component by component. No operation alters its arguments.",
  ["inputs", "histories"], "All pairs of rectangles of a 3x3 (thorough 4x4) grid at 5 places and scales against membership of all half grid points; all sequences of 3 (4) of 25 changes; all sequences of 5 (6) additions to two extents; all pairs of points and sizes over 7 values per coordinate.",
  "Touching, nested, disjoint and empty cases combine with every order of calls.",
  ["src/core/Rect.cpp", "src/core/Extents.cpp", "src/core/Point.cpp", "src/core/Size.cpp"], [("Rect", "src/core/Rect.cpp"), ("Extents", "src/core/Extents.cpp")],
  "Exhaustive enumeration of pairs and histories on the real classes against a model made of edges (and of points seen so far).", "Rectangles with negative sizes are covered for the mutators only, intersect and unionWith are defined for normalised ones.")
p("M05", "Colour conversions are in range, exact and consistent",
  "Converting a colour between RGB, grey, CMYK and the HSV model follows the documented formula for every component value, rounds to the nearest byte, keeps the alpha value and stays in range (black included); grey to RGB or CMYK and back, neutral RGB to CMYK and back, and RGB to HSV and back give the same colour. Blending opaque colours interpolates between the two, exactly at the ends, blending transparent ones follows Porter and Duff, interpolate reaches both ends; component access, copies, comparison, sum and difference are exact in every colour mode.",
  ["inputs"], "All 2^24 RGB colours, all grey values with all alphas, all pairs of key and another CMYK component, all hues in degrees with 441 saturations and values; all triples of alpha, background and foreground values for blending and interpolation, all pairs of alpha values for transparent blending; all short sequences of component access.",
  "Overflow, rounding and division by zero occur only for particular component values.",
  ["src/core/Color.cpp"], [("Color", "src/core/Color.cpp")],
  "All component values against the formulas in double arithmetic and closed forms written independently.", "CMYK to RGB uses the formula of the PDF reference, RGB to CMYK the one with black removed: the two are inverse for neutral colours only. blend() and interpolate() are defined for RGB colours; blend() ignores its alpha argument unless both colours are opaque, which is neither documented nor claimed.")
p("M06", "Diff yields a correct and minimal edit script",
  "For any two sequences of objects the script printed by the backtrace of DiffDistance turns the first into the second: what it does not mention is pairwise equal and in order, everything else is named exactly once and by its own object (added, deleted, modified with both objects on their sides, replaced if the classes differ); the number of edits is the Levenshtein distance, which distance() reports. The object can be cleared and used again and gives back all memory; copies of the path print the same script and outlive the original. DiffInfo writes an entry for every value added or deleted and for a modified one exactly if it differs, with both values and their (signed) difference.",
  ["inputs"], "All pairs of sequences up to length 5 (thorough 6) over 3 letters of two classes and up to length 7 (9) over 2 letters, 3600 pairs of long sequences, all pairs of pairs in the same object.",
  "The lazily computed diagonals and the backtrace take many paths depending on which sequence is longer and how it repeats.",
  ["src/core/Diff.cpp", "src/core/DiffBacktrace.cpp", "src/core/DiffDiag.cpp", "src/core/DiffDistance.cpp", "src/core/DiffInfo.cpp"], [("Diff", "src/core/Diff.cpp")],
  "All pairs against application of the printed script and a full dynamic programming table; leak check.", "The script is observable only through print(); the check reads it from the standard output of the library.")
p("M07", "Coordinate systems and transformation matrices mean what they say",
  "Transforming points between world and object coordinate systems and back gives the same point for every extrusion direction of any length, keeps distances and follows the arbitrary-axis rule including its limit of 1/64. The 4x4 matrices for moving, scaling (per axis, about a point), rotating (about z, about any axis), mirroring at any plane and object coordinate systems map every point as the construction says, whatever the matrix held before, and products of them compose; lengths and angles are transformed accordingly. The 3x3 rotation matrices turn by the given angle about the given axis, or one vector onto the other along the shortest way, for parallel and opposite vectors too.",
  ["inputs"], "All extrusion vectors over -3..3 and 17x17 values around the axis-switch limit, all 69 transformations, their pairs (thorough triples) on 7 points with lengths and 11 angles; all axes over -2..2 with 76 angles; all pairs of vectors over -2..2 and nearly parallel or opposite ones.",
  "The switch between the two axis rules, negative directions, opposite vectors and products combine.",
  ["src/core/Transform.cpp", "src/core/Matrix.cpp"], [("Transform", "src/core/Transform.cpp")],
  "All grid configurations and all products up to a length against formulas in long double arithmetic written independently (projection, Rodrigues, reflection).", "Angles are transformed for transformations that keep the xy plane only.")

p("M08", "NURBS curves have the points their definition gives",
  "A NURBS curve has, for every parameter of its domain including the knots and its end, the point given by the rational combination of its control points with the B-spline basis of its degree; end() is the last parameter of the curve. With clamped knots it begins and ends in its outer control points, and with equal weights the knots alone decide. The curve keeps its own copy of points, knots and weights and gives back its memory; degree 0 is refused.",
  ["inputs"], "All degrees 1 to 4 with up to 6 (thorough 7) control points, all inner knot steps over {0,1,2.5} (repeated knots up to the multiplicity that keeps the curve continuous), all weights over {1,2} (thorough and 0.5), all parameters at 24ths and at knots; open knot vectors of degree 1 to 3; all quadratic curves over a 3x3x2 grid, the quarter circle among them.",
  "Repeated knots make divisions 0/0, the end of the domain lies in no half open interval: both appear for particular knots only.",
  ["src/core/NURBS.cpp"], [("Nurbs", "src/core/NURBS.cpp")],
  "All curves over small alphabets against de Boor's algorithm in homogeneous coordinates and long double arithmetic, written independently of the basis functions the library uses.", "Parameters outside of the domain are left out.")
p("T01", "The test framework counts every assertion once and decides it right",
  "Every assertion of class Test (all overloads of testEquals for integers, numbers, texts and pointers, testTrue, testFalse, testNull, testNotNull, testFail, unexpected exceptions) counts exactly one test, counts an error exactly if the values differ mathematically (numbers: by more than the tolerance, or if one is no number), and in that case writes one line with the message and both values. A TestVector runs all its tests in order, or the one its argument names, turns an exception into one error, goes on with the next test, returns the number of errors each time it is executed, and deletes its tests once.",
  ["inputs", "histories"], "All pairs of boundary values for all nine pairs of integer types; distances around the tolerance; all pairs of texts up to length 2 (thorough 3) over 4 characters; all vectors of up to 3 tests of 7 kinds with 10 arguments, executed once and twice.",
  "Wrong verdicts appear only for particular pairs of values (negative against unsigned) or orders of failing tests.",
  ["src/core/Test.cpp", "src/core/TestVector.cpp"], [("Test", "src/core/Test.cpp"), ("TestVector", "src/core/TestVector.cpp")],
  "All pairs and vectors against 128 bit arithmetic and a table of expected counts; std::cout is captured.", "Exceptions of other classes are not caught by the framework. The console uses Windows-1252, texts are ASCII here.")
p("T02", "The log and exceptions say exactly what happened",
  "A message is written as one line: date (if switched on), colour, label (from the level set on), message; messages for debugging are not written; lastErrorMessage() is the message of the last error. An exception is logged as an error when it is created and carries its message and stack trace unchanged through copying, throwing, rethrowing and nesting, at every depth of the stack, and releases its memory. userId() is the user of the environment (empty without one); libraries and symbols are found exactly if they exist.",
  ["histories", "inputs"], "All sequences of 4 (thorough 5) of 18 log and configuration steps; 6 messages x 26 depths (to beyond 300 frames) x 7 ways of passing an exception on.",
  "Settings and messages combine with every order; the trace buffer is limited, deep stacks are not sampled by tests.",
  ["src/core/System.cpp", "src/core/Exception.cpp"], [("System", "src/core/System.cpp"), ("Exception", "src/core/Exception.cpp")],
  "All histories against a model of the settings; std::cout and std::cerr are captured.", "The contents of stack traces (addresses, names) are those of the C library and not checked; several threads are the subject of L03.")
p("P01", "Properties and variants hold exactly the value set last",
  "A Property returns the text, number, truth value, unit value and type set last, in every sequence of setters, transfers and copies, and its description stays as constructed; isValueEquals() holds exactly if text and number agree, equality of properties exactly if id, editor and the value the editor shows agree. A Variant, copied or assigned in any order, is equal to its source in type, text and number.",
  ["histories"], "All sequences of 3 (thorough 4) of 40 steps on two properties; all pairs of 18 values in 8 editors; all sequences of 3 (4) of 57 steps on three variants.",
  "Parts of a former value survive only in particular orders of setters of different types.",
  ["src/core/Property.cpp", "include/core/Property.h"], [("Property", "src/core/Property.cpp"), ("Variant", "include/core/Property.h")],
  "Exhaustive histories on the real classes against a model (text, 64 bits, type).", "Setting a number keeps the text (and the other way round), as combo boxes use both.")
