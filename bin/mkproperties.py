import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,obs=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if obs: d["anchors"]["observe_at"]=obs
    assert len(title)<=80,(id,len(title))
    P.append(d)
F="src/factory/"; 
p("P01","Any value serialized on the wire is deserialized back equal",
 "Serializing any legal value of any type and deserializing the bytes into any value of the same type, fresh or in use, yields an equal value and consumes exactly the bytes written. This holds for both byte orders, for sub-ranges of arrays and sub-strings, and wherever the transport splits the stream into buffers (flush on write, refill on read).",
 ["inputs","histories"],"every type tree, every value of it (empty, huge, null union, null array element, special floats), both byte orders, every split of the byte stream into transport buffers",
 "The unit tests round-trip a few dozen hand-written values through one buffer big enough to hold them; the split points, nested nulls, size-class boundaries and byte orders multiply into a space they sample once.",
 [F+"PVStructure.cpp",F+"PVUnion.cpp",F+"PVUnionArray.cpp",F+"PVStructureArray.cpp",F+"PVDataCreateFactory.cpp","src/misc/serializeHelper.cpp","src/misc/pv/byteBuffer.h"],
 [("per-class serialize/deserialize pairs","src/factory/PVStructure.cpp, PVUnion.cpp, PVStructureArray.cpp, PVUnionArray.cpp, PVDataCreateFactory.cpp"),("ensureBuffer/ensureData chunking","src/factory/PVDataCreateFactory.cpp, src/misc/serializeHelper.cpp")],
 ["SerializableControl/DeserializableControl callbacks","bytes in ByteBuffer"])
p("P02","Encoded bytes follow the published pvData wire format exactly",
 "The bytes produced for sizes, strings, scalars, arrays, structures, unions, type descriptors, bit sets and status objects are exactly those of the pvAccess data encoding in both byte orders, and any buffer encoded by an independent implementation of it decodes to the value it stands for, while reserved type codes are refused. Sizes use the shortest of the defined size forms, and absent (null) values, descriptors and strings use their reserved codes.",
 ["inputs"],"every type tree and value, both byte orders; every size in [-1, 2^31-1]",
 "Tests compare encode against decode of the same library, so a symmetric change of both sides passes; only a few byte strings are pinned.",
 [F+"FieldCreateFactory.cpp",F+"PVDataCreateFactory.cpp","src/misc/serializeHelper.cpp","src/misc/status.cpp","src/misc/bitSet.cpp","src/misc/pv/serializeHelper.h"],
 [("type codes","src/factory/FieldCreateFactory.cpp"),("size/string encoding","src/misc/serializeHelper.cpp"),("status encoding","src/misc/status.cpp")],["bytes in ByteBuffer"])
p("P03","Partial updates carry exactly the selected fields",
 "Serializing a structure with a change set writes exactly the fields the set selects (a set bit on a sub-structure selects all of it), and deserializing that with the same set changes exactly those fields in the receiver and no others. The same holds for copying between structures under a mask, in direct and inverted (complementary mask) sense.",
 ["inputs"],"every structure type, every pair of values, every subset of field numbers including bits on sub-structures and bits beyond the last field, both byte orders and any stream split",
 "Tests use a handful of masks on one or two structures; masks that mix a sub-structure's own bit with bits of its members, or skip over sub-structures, are exponentially many.",
 [F+"PVStructure.cpp",F+"PVField.cpp"],[("bit-set directed (de)serialization","src/factory/PVStructure.cpp serialize/deserialize(..., BitSet*)"),("masked copy","src/factory/PVStructure.cpp copy/copyUnchecked with mask")])
p("P04","Type descriptors survive the wire as the identical type",
 "Writing any constructible type description to the wire and reading it back yields the very same type: equal to the original, with the same identifier, field names, order and bounds at every level, and interned so identity comparison holds. The absent type round-trips as absent.",
 ["inputs"],"every constructible type tree (scalars, bounded strings, arrays of every size class, structures, unions, variant unions and arrays of them, arbitrarily nested), both byte orders and any stream split",
 "Tests pin a fixed list of types; bounded/fixed sizes at encoding boundaries, nested arrays of unions, non-default ids and field orderings are an unbounded product.",
 [F+"FieldCreateFactory.cpp"],[("Field::serialize and FieldCreate::deserialize","src/factory/FieldCreateFactory.cpp"),("interning cache","src/factory/FieldCreateFactory.cpp")])
p("P05","Malformed network bytes never crash or corrupt anything",
 "Decoding arbitrary bytes as a type description, a value of a known type, a partial update, a bit set, a status or a string either succeeds with a well-formed result or reports an error by exception: no crash, no out-of-bounds access and no invalid object. After a failed decode the receiving object is still usable: it can be compared, copied, printed and decoded into again.",
 ["inputs","fault_sequences"],"every byte string, in particular every mutation and truncation of a valid encoding at every offset",
 "Tests only decode bytes the library itself encoded; corrupted and truncated streams are not tried.",
 [F+"FieldCreateFactory.cpp",F+"PVDataCreateFactory.cpp",F+"PVUnion.cpp",F+"PVUnionArray.cpp",F+"PVStructureArray.cpp","src/misc/serializeHelper.cpp","src/misc/bitSet.cpp","src/misc/status.cpp"],
 [("type code and selector validation","src/factory/FieldCreateFactory.cpp, PVUnion.cpp"),("size decoding","src/misc/serializeHelper.cpp")])
p("P06","Bit sets behave as mathematical sets of indices",
 "Every sequence of set, clear, flip, bulk, and, or, xor, difference and masked-union operations leaves exactly the members set theory predicts; membership, next-set/next-clear search, cardinality, emptiness, intersection, equality and printing all agree with that set whatever storage history led to it. A bit set's wire form round-trips to an equal set, for both byte orders and any split of the stream.",
 ["histories","inputs"],"every operation history over any indices, including word boundaries (63/64/65) and operands of different lengths, self-operands included",
 "Tests walk a few fixed sequences; trailing-zero-word invariants break only after particular histories between sets of different lengths.",
 ["src/misc/bitSet.cpp","src/misc/pv/bitSet.h"],[("trailing word trimming","src/misc/bitSet.cpp recalculateWordsInUse/expandTo"),("wire form","src/misc/bitSet.cpp serialize/deserialize")])
p("P07","Byte buffers store and return what was put, in the set byte order",
 "Any sequence of relative or absolute puts and gets of integers, floats and byte arrays, with flips, clears, position, limit and byte-order changes, reads and writes exactly the bytes and positions of a simple array model, for owned and wrapped storage. An access that does not fit below the limit is stopped and touches nothing, and bulk array transfers are equivalent to element-by-element ones.",
 ["histories","inputs"],"every operation sequence over any buffer size, offset (aligned or not), element type and byte order",
 "Tests use one or two alignments and orders; unaligned positions, swapped bulk paths and operation interleavings are not covered.",
 ["src/misc/pv/byteBuffer.h","src/misc/byteBuffer.cpp"],[("put/get templates, endianness swap, putArray/getArray","src/misc/pv/byteBuffer.h")])
p("P08","Equal types are one shared instance, even under concurrent creation",
 "While it is in use, any type description obtained by any route (factory calls, builder, wire, copies) that is structurally equal to a live one is the same instance, and structurally different ones are never equal: difference in kind, element type, name, order, identifier or bound always distinguishes. This stays true while threads concurrently create, look up, decode and drop types, with no data race.",
 ["schedules","inputs","histories"],"every set of types and every interleaving of threads creating, decoding and releasing them",
 "Tests create types from a single thread and compare few pairs; races between a dying type and a lookup of its equal, and hash/equality confusion, need schedules and colliding inputs.",
 [F+"FieldCreateFactory.cpp",F+"Compare.cpp"],[("weak-pointer cache with mutex","src/factory/FieldCreateFactory.cpp Field::cache / Helper::cache"),("type comparison","src/factory/Compare.cpp")])
p("P09","Only well-formed types can be built, and they are what was asked for",
 "Building a type by factory or builder yields exactly the requested fields in the requested order with the requested names, identifiers, element types and bounds; nested, reopened and repeated definitions follow the documented builder rules. Invalid requests (illegal or duplicate names, mismatched lists, missing types, empty identifiers, unbalanced nesting) are refused with an exception and never produce a malformed type.",
 ["inputs","histories"],"every sequence of builder calls and every factory argument list, valid or not",
 "Tests build a few dozen types by hand; builder call histories (reopen, replace, reset, reuse) are unbounded.",
 [F+"FieldCreateFactory.cpp","src/pv/pvIntrospect.h"],[("name validation","src/factory/FieldCreateFactory.cpp validateFieldNames"),("FieldBuilder","src/factory/FieldCreateFactory.cpp")])
p("P10","Field numbering, names and parents in a structure are consistent",
 "In every structure instance fields are numbered depth-first without gaps: the number of a field, the range it spans, lookup by number, lookup by dotted name, parent links, and full names all describe the same tree as the type. Looking up an absent name, an illegal path or a field of a different kind returns nothing or throws, as the chosen call documents.",
 ["inputs"],"every structure type, every field in it, every existing and non-existing path and number, in any order of first access",
 "Tests check a handful of fixed trees and paths; offset caching depends on the shape and on which member is asked first.",
 [F+"PVField.cpp",F+"PVStructure.cpp",F+"FieldCreateFactory.cpp"],[("lazy offset computation","src/factory/PVField.cpp computeOffset"),("dotted lookup","src/factory/PVStructure.cpp getSubFieldImpl"),("full name","src/factory/PVField.cpp getFullName")])
p("P11","Copies and clones are equal to, and independent of, their source",
 "After copying a compatible value or cloning one, source and copy compare equal and have equal (identical) types; afterwards no change to one is visible in the other (elements of structure and union arrays are replaced, not changed in place, as copies share them). Value equality is exact: any single difference in content, length, selection, presence or type makes two values unequal (the bound of a bare string or array does not count), and comparison is symmetric and never fails.",
 ["inputs","histories"],"every pair of values of equal or unequal types with nested arrays, unions and nulls, and every single mutation after the copy",
 "Tests compare a few equal pairs; aliasing shows only after mutation of specific nested parts, and inequality needs each kind of difference in each position.",
 [F+"Compare.cpp",F+"PVDataCreateFactory.cpp",F+"PVStructure.cpp",F+"PVUnion.cpp",F+"PVStructureArray.cpp",F+"PVUnionArray.cpp"],[("deep comparison","src/factory/Compare.cpp"),("copy/clone","src/factory/PVDataCreateFactory.cpp createPVField(PVField), copyUnchecked in each class")])
p("P12","Shared vectors keep value semantics over shared storage",
 "Through any history of construct, share, slice, reserve, resize, append, freeze, thaw, cast, copy-on-write and clear, each vector handle shows exactly its own elements, a frozen (constant) view never changes, and writes reach another handle only if both knowingly share unfrozen storage. Uniqueness, size, capacity and bounds-checked access report the truth, and freezing or thawing shared data is refused or copies as documented.",
 ["histories","inputs"],"every operation history over groups of handles sharing storage, and all offsets and lengths including out-of-range and overflowing ones",
 "Tests exercise single handles in a fixed order; reference sharing, slicing then growing, and freeze after share are history dependent.",
 ["src/misc/pv/sharedVector.h"],[("reference counting and offset/count/total bookkeeping","src/misc/pv/sharedVector.h")])
p("P13","Array fields honour length, capacity and bound rules",
 "Array fields of every element type (including arrays of structures and unions) behave as sequences under replace, swap, reuse, set length, set capacity, append, remove, compress and decoding: every element not removed keeps its value and place, appended elements are new default ones, and views taken earlier never change. No operation but swap (which documents that it does not check) makes the length exceed a declared bound or differ from a declared fixed size, and a refused operation leaves the array unchanged.",
 ["histories","inputs"],"every operation history on every element type and size class, with in-range, boundary and overflowing arguments",
 "Tests run a few fixed sequences on variable-size arrays; bounded/fixed arrays and arguments that overflow are barely tried.",
 [F+"PVArray.cpp",F+"PVStructureArray.cpp",F+"PVUnionArray.cpp",F+"PVDataCreateFactory.cpp","src/pv/pvType.h","src/pv/pvData.h" if False else "src/pv/pvData.h"],[("setLength/setCapacity/checkLength","src/factory/PVArray.cpp, PVStructureArray.cpp, PVUnionArray.cpp, PVDataCreateFactory.cpp"),("append/remove/compress","src/factory/PVStructureArray.cpp, PVUnionArray.cpp")])
p("P14","Union fields always hold null or a value of the selected member type",
 "Under any history of select, set, copy, decode and clear, a restricted union holds either nothing (undefined selection) or a value whose type is exactly that of its selected member, and a variant union holds nothing or any value; selecting by name and by number agree. Requests for an unknown member or a value of another type are refused with an error and leave the union unchanged.",
 ["histories","inputs"],"every union type and every sequence of selections, sets and copies, valid or not",
 "Tests touch a few unions with valid calls; the error paths and state after errors are history dependent.",
 [F+"PVUnion.cpp","src/pv/pvData.h"],[("selector/value pairing","src/factory/PVUnion.cpp select/set/copyUnchecked")])
p("P15","Scalar conversions preserve values or fail cleanly",
 "Converting between any two scalar types (including to and from text, in scalars, arrays and type-erased scalars) gives the value an exact reference conversion gives (integers out of range reduce modulo the width, double to float is clipped as documented; a real too large for the integer type is unspecified); text that does not denote a value of the target type, or is out of its range, is refused with an exception (signs on text for unsigned types follow strtoul). Conversion of an array equals element-wise conversion, and a failed conversion leaves the destination unchanged.",
 ["inputs"],"all pairs of scalar types and all values, including extremes, special floats and arbitrary text",
 "Tests check selected values in a conversion table; boundary values of every pair, and malformed text, are not enumerable by hand.",
 ["src/misc/typeCast.cpp","src/misc/parseToPOD.cpp","src/misc/pv/typeCast.h","src/misc/anyscalar.cpp","src/misc/pv/anyscalar.h",F+"PVScalar.cpp",F+"PVScalarArray.cpp"],[("castUnsafe, castVTyped","src/misc/typeCast.cpp"),("text parsing","src/misc/parseToPOD.cpp")])
p("P16","Values printed as JSON parse back to the same value",
 "For every value that JSON can represent, printing it (any formatting option, whole or selected by a mask) yields valid JSON holding exactly the selected fields and their values, and parsing that text into a fresh value of the same type restores it. Parsing assigns exactly the fields named in the text, marks exactly those as assigned, and leaves the rest untouched. (Outside what the JSON library underneath reads: INT64_MIN, integers above INT64_MAX; single-precision denormals become the smallest normal number.)",
 ["inputs"],"all structure types and values within the documented JSON mapping, all masks, all strings including control, quote, UTF-8 characters",
 "Tests compare a few printed strings; escaping, number formatting, nesting and masks are unbounded.",
 ["src/json/jprint.cpp","src/json/parseinto.cpp","src/json/parseany.cpp","src/json/parsehelper.cpp"],[("printer","src/json/jprint.cpp"),("parsers","src/json/parseinto.cpp, src/json/parseany.cpp")])
p("P17","Arbitrary JSON text is parsed or rejected, never mishandled",
 "Parsing any text as JSON, into a given structure or into a newly inferred one, either succeeds or throws: it never crashes, corrupts memory or misreads one field as another, and text that is not JSON is always rejected. A value inferred from valid JSON contains exactly the members, kinds and values of the text. The memory parsing takes is in proportion to the text.",
 ["inputs"],"every text: valid documents of any shape against any target structure, and corrupted or truncated ones",
 "Tests parse a few good documents matching their target; mismatched shapes (arrays where scalars are expected and so on) are a product of document and target.",
 ["src/json/parseinto.cpp","src/json/parseany.cpp","src/json/parsehelper.cpp"],[("parser context stack","src/json/parseinto.cpp"),("inference","src/json/parseany.cpp")])
p("P18","Request strings parse to the requested selection or are rejected",
 "Every well-formed request string yields a request structure with exactly the field, putField, getField and record sections, nested names and option values it spells out, equivalent spellings (dots, braces, spaces, order of sections) giving equal results. Strings with unbalanced brackets, with empty, illegal or repeated names, or with options lacking a name or '=' are rejected with an error, the two interfaces agree, and no string crashes the parser, however long or deeply nested. (Text around the named sections is ignored.)",
 ["inputs"],"every string of the request grammar, its equivalent spellings, and every mutation of such strings",
 "Tests cover some dozens of fixed strings; the grammar is recursive and the error space infinite.",
 ["src/copy/createRequest.cpp","src/copy/pv/createRequest.h"],[("hand-written recursive parser","src/copy/createRequest.cpp")])
p("P19","Request mapping copies exactly the requested fields between structures",
 "For any structure type and request, the mapped structure has exactly the fields requested (all for an empty request) in their place; moving values and change masks from base to requested form and back transfers exactly the requested fields, with masks naming exactly the corresponding fields. Unknown fields are dropped with a warning naming them, requests which leave nothing or are not made of structures are refused without changing the mapper, options attached to a field do not select, and compressing a change mask never changes which fields it denotes.",
 ["inputs","histories"],"every structure type, every request selection, every value and every mask",
 "Tests use one structure and few requests; the index mapping depends on shape and on which sub-fields are selected.",
 ["src/copy/requestmapper.cpp","src/copy/pv/createRequest.h","src/pvMisc/bitSetUtil.cpp"],[("index mapping","src/copy/requestmapper.cpp"),("mask compression","src/pvMisc/bitSetUtil.cpp")])
p("P20","Alarm, time, display, control and enumerated helpers agree with the fields",
 "Attaching a helper succeeds exactly on structures with the required fields; values set through it are in the fields and values in the fields are read through it, for every legal value, set refuses without change when a required field is immutable, and detaching or failing to attach makes the helper inert and lets go of the fields. Time stamps stay normalized, and comparison, difference and addition agree with exact arithmetic on seconds and nanoseconds.",
 ["inputs","histories"],"all structures standard or not, all alarm, enum, limit and time values, all attach/detach/get/set histories",
 "Tests attach to standard structures with few values; time arithmetic across second boundaries and negative offsets is numeric.",
 ["src/property/alarm.cpp","src/property/pvAlarm.cpp","src/property/pvControl.cpp","src/property/pvDisplay.cpp","src/property/pvEnumerated.cpp","src/property/pvTimeStamp.cpp","src/property/timeStamp.cpp"],[("attach/get/set","src/property/*.cpp"),("normalization and arithmetic","src/property/timeStamp.cpp")])
p("P21","Standard structures and value builders produce the documented content",
 "For every value type and combination of requested properties, the standard factory produces a structure with the documented identifier, value field first and exactly the requested property structures in their documented form. A value builder produces a structure with exactly the added fields (ordered by name), types and values, can reproduce any existing value made of scalars and structures and be modified from there, refuses changes of kind leaving what it holds, and may be used again after building.",
 ["inputs","histories"],"all value types and property combinations; all sequences of builder calls",
 "Tests check a subset of combinations and one or two built values.",
 [F+"StandardField.cpp",F+"StandardPVField.cpp","src/pv/valueBuilder.cpp","src/pv/valueBuilder.h"],[("property composition","src/factory/StandardField.cpp"),("builder","src/pv/valueBuilder.cpp")])
p("P22","Printing values and types is complete, faithful and side-effect free",
 "Printing any value or type in any supported format terminates without error and shows exactly what that format covers (every field's name, type and value in the raw format, or exactly the shown and highlighted fields asked for; value, alarm and time in the summary format; a table's cells up to its shortest column), without changing the value or the formatting of other output on the stream. Escaped text contains only printable characters and un-escapes to the original bytes.",
 ["inputs"],"every type and value, every format mode, every show and highlight mask, every byte string",
 "Tests compare a few printed samples.",
 [F+"printer.cpp",F+"Convert.cpp",F+"PVField.cpp",F+"FieldCreateFactory.cpp","src/pv/pvData.h"],[("formatters","src/factory/printer.cpp"),("escape","src/factory/printer.cpp"),("dumpValue","src/factory/PV*.cpp")])
p("P23","Timers, events and threads deliver every scheduled call and no cancelled one",
 "A one-shot timer callback runs exactly once, not before its delay, and in due-time order (first come first served when equal); a periodic one repeats until cancelled or scheduled anew, also by itself; after a successful cancel it does not run, cancelling one under way at least ends its repetition, and closing stops every pending one and notifies each exactly once. Events lose no signal between threads, a thread runs the body given, under the name and priority given, once (not at all when joined before it began) and joining waits for its end, locks exclude each other, all without data races under any interleaving.",
 ["schedules","histories"],"every history and interleaving of schedule, cancel, query, close and callbacks that re-schedule or cancel",
 "Tests run one schedule; cancel-versus-run and close-versus-schedule races and re-scheduling from callbacks depend on interleaving.",
 ["src/misc/timer.cpp","src/misc/event.cpp","src/misc/thread.cpp","src/misc/pv/timer.h","src/misc/pv/thread.h"],[("sorted pending list under mutex","src/misc/timer.cpp"),("event wrapper","src/misc/event.cpp"),("thread wrapper","src/misc/thread.cpp")])
p("P24","Every object is freed exactly once when its last user lets go",
 "After any history of creating, sharing, nesting, replacing, copying and failing operations, a failed memory allocation among them, dropping all handles frees every type, value, buffer and builder exactly once: nothing leaks, nothing is freed early or twice, and the live-object counters return to their previous values. Fields held individually outlive the parent structure safely.",
 ["histories","fault_sequences"],"every history of operations including those that end in an exception",
 "Tests do not measure leaks per operation, and error paths that throw midway are not run.",
 [F+"FieldCreateFactory.cpp",F+"PVField.cpp",F+"PVDataCreateFactory.cpp","src/misc/reftrack.cpp","src/misc/pv/reftrack.h","src/pv/valueBuilder.cpp"],[("shared ownership","src/factory/*.cpp"),("counters","src/misc/reftrack.cpp")])
p("P25","Immutable fields cannot change and every change is announced",
 "Once marked immutable, a field (and, for a structure, everything inside it) refuses change through the checked interfaces (copy, assign, replace, putFrom of an array, swap, reuse, set length, append, remove, compress, sub-array copy) with an error and keeps its value, as does a whole structure copied into when any field in it is immutable; plain put and set, the unchecked copies and decoding do not check. Every successful assignment, and every decoding of an array, announces itself exactly once to the assigned field's listener (copying a structure: once to each selected leaf) and to no other, and refused assignments announce nothing and change nothing.",
 ["histories","inputs"],"every structure, every subset of immutable fields, every assignment call",
 "Tests check immutability on a couple of scalars and notification on few nestings.",
 [F+"PVField.cpp",F+"PVStructure.cpp",F+"PVDataCreateFactory.cpp",F+"PVUnion.cpp","src/pv/pvData.h"],[("immutable flag","src/factory/PVField.cpp setImmutable"),("postPut chain","src/factory/PVField.cpp")])
p("P26","Text conversion and sub-array copies move exactly the requested elements",
 "Copying a sub-range with offsets, counts and strides between arrays of any kinds puts exactly the requested elements at the requested places, leaves the rest as they were, and refuses impossible requests without change (nothing is copied for a count of zero; a longer result ends with the last element copied). Setting fields from text and reading them as text agree with the field's type for scalars, arrays and whole structures.",
 ["inputs"],"all array kinds and element types, all offsets, counts and strides, all texts",
 "Tests use a few ranges; stride/offset/count combinations and overflow are not covered.",
 [F+"Convert.cpp",F+"pvSubArrayCopy.cpp","src/pv/pvSubArrayCopy.h","src/pv/convert.h"],[("strided copy","src/factory/pvSubArrayCopy.cpp"),("text conversion","src/factory/Convert.cpp")])
p("P27","Debugging pointers own like ordinary ones and list exactly their owners",
 "epics::debug::shared_ptr, weak_ptr and enable_shared_from_this, also injected into the whole library by DEBUG_SHARED_PTR, own, share, convert, refuse and destroy exactly as the std:: ones do over any history of construction, assignment, reset, swap, casts, locking and self reference. At any moment the list of owners shown for an object holds each non-null strong pointer to it once and nothing else, so it has use_count() entries, also while other threads copy and drop pointers.",
 ["histories","schedules"],"every history over strong and weak pointers to related types, objects pointing to each other or themselves, and threads copying and dropping them; every program over the library built with them",
 "The unit test looks at a few assignments of one int; casts that fail, swaps, takeover, cycles, objects which own the pointer being assigned, and the library built in that mode are not run.",
 ["src/misc/pv/debugPtr.h","src/misc/debugPtr.cpp","src/misc/pv/sharedPtr.h"],[("tracker of owners","src/misc/debugPtr.cpp track_new/track_assign/track_clear/swap"),("wrappers","src/misc/pv/debugPtr.h")],["spy_refs(), show_refs(), use_count()"])
p("P28","Statuses and exceptions carry their severity, message and origin",
 "A Status is exactly what was put into it: severity, message and stack survive copying, sending and decoding (also into a used status, from whole or refused bytes: what can not be decoded completely leaves the former content), OK can not be given a text by construction, combining keeps the first of the worst, and the queries and the text follow from the content. An exception thrown with the macros is of the type thrown with its own what(), and shows and prints the line and file it was thrown from and at most the given depth of stack; rethrown it keeps its origin, thrown anew or copied it does not tell another's; one thrown otherwise shows none. Making the texts survives running out of memory.",
 ["histories","inputs","fault_sequences"],"every history of statuses, every byte sequence, every exception type, depth and allocation failure",
 "Tests print two exceptions and never compare; combining, decoding into used statuses, copies and failures are not covered.",
 ["src/misc/status.cpp","src/misc/pv/status.h","src/misc/epicsException.cpp","src/misc/pv/epicsException.h"],[("status","src/misc/status.cpp"),("origin of exceptions","src/misc/epicsException.cpp ExceptionMixin, BaseException::what")])
p("P29","Threads working on their own objects never disturb each other",
 "Threads which each work on their own values, types, builders, requests, texts and buffers get exactly what they would get alone, without data races, although types, array data, singletons (factories, converters, standard structures, name tables), the registry of shared types and the counters are shared underneath: from the very first use of the library in a process on, whichever part is used first, and also while reference counters are registered, removed and read. What several objects share (types, array data of a common original) is never changed by work on one of them.",
 ["schedules","histories"],"every program on every thread over objects sharing types and array data, every order of first use",
 "Tests run in one thread; nothing exercises lazily made singletons, the type registry, shared array data or the counters from several threads.",
 [F+"FieldCreateFactory.cpp",F+"Convert.cpp",F+"StandardField.cpp",F+"StandardPVField.cpp",F+"PVDataCreateFactory.cpp","src/property/alarm.cpp","src/misc/reftrack.cpp","src/misc/debugPtr.cpp","src/misc/pv/sharedVector.h"],[("lazy singletons","src/factory/*.cpp getXXX()"),("type registry","src/factory/FieldCreateFactory.cpp cache"),("counters","src/misc/reftrack.cpp")])
p("P30","The test helpers give one right verdict each",
 "Each use of the test helpers (testEqual, testNotEqual, testTrue, testThrows, testFieldEqual, TEST_METHOD) reports exactly one verdict, which is a pass exactly when the comparison holds or the exception of the given type was thrown, and tells in its first line what was compared with which values and what was appended, further lines being remarks; testShow reports none. A missing structure, field or kind is a failure, not a crash. Each method runs on a fresh object which is destroyed, and an unexpected exception ends the tests.",
 ["inputs"],"every value, text, exception and member of every structure",
 "The helpers are what tests are made of; only their passing uses are exercised.",
 ["src/misc/pvUnitTest.cpp","src/misc/pv/pvUnitTest.h"],[("verdict","src/misc/pvUnitTest.cpp testPassx"),("fields","src/misc/pv/pvUnitTest.h testFieldEqual")])
import os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V+'/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
import sys
try:
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for d in P: jsonschema.validate(d,s)
except ImportError: print("nojs")
for d in P:
    for f in d["anchors"]["files"]:
        import os
        if not os.path.exists('/repo/'+f): print(d["id"],"missing",f)
