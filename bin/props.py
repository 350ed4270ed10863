# property -> test program
_d = ' Distinct = number of different case descriptions.'
PROPS = {
 'P01': dict(tests=['P01.cpp'], rule='A case is a random type tree, a random value of it (or an array range / sub-string), a byte order and a random splitting of the stream into transport buffers; non-trivial: at least two type nodes and more than 4 encoded bytes, or a range that is a proper part.' + _d),
 'P02': dict(tests=['P02.cpp'], rule='A case is a random type, value, size, string, bit set or status, encoded by the library and by an independent reference encoder; non-trivial: composite types/values, sizes needing the long form, non-empty sets and strings.' + _d),
 'P03': dict(tests=['P03.cpp'], rule='A case is a structure type, two values of it and a mask; non-trivial: more than 3 fields and at least one bit other than the top one set.' + _d),
 'P04': dict(tests=['P04.cpp'], rule='A case is one or several random type trees sent through a randomly split stream; non-trivial: more than one node.' + _d),
 'P07': dict(tests=['P07.cpp'], rule='A case is a buffer (owned or wrapped, any alignment) and up to 25 operations checked against an array model after every step; non-trivial: more than 3 operations executed.' + _d),
 'P06': dict(tests=['P06.cpp'], rule='A case is a history of up to 30 operations on three bit sets checked against std::set after each step, or a set sent over the wire; non-trivial: more than 4 operations / more than 2 members.' + _d),
 'P05': dict(tests=['P05.cpp'], rule='A case is a valid encoding (type, value, partial update, bit set, status, string) corrupted by 1-4 mutations (byte codes, bit flips, truncation, deletion, insertion, huge sizes, duplication, splicing) or noise, decoded into a fresh or used receiver; non-trivial: more than one byte and more than one type node.' + _d),
 'P08': dict(tests=['P08.cpp'], flavor='tsan', rule='A case is a history of creating (factory, builder, decoding, appending) and dropping up to 12 types, a pair of types differing in one respect, 60000 live types of one kind, or 2-5 threads creating and dropping the same types; non-trivial: more than one type live / more than one node.' + _d),
 'P09': dict(tests=['P09.cpp'], rule='A case is an argument list of a factory function (legal or with one defect), or a history of 3-20 calls on a tree of builders checked against a model; non-trivial: more than one member / more than two nodes in the final type.' + _d),
 'P10': dict(tests=['P10.cpp'], rule='A case is a structure type, an instance of it made by a random route (factory, assembled from members, clone, union member, array element) and 4-18 questions in random order, then all of them; non-trivial: more than 4 fields.' + _d),
 'P11': dict(tests=['P11.cpp'], rule='A case is a value, one of the copy/clone routes, and up to 5 in-place changes of either side with comparison after each; or a pair of values with at most one difference; non-trivial: more than one type node.' + _d),
 'P12': dict(tests=['P12.cpp'], rule='A case is a history of 3-27 operations on three mutable and two constant handles (int, double, string or pointer elements) checked against a model with explicit storage objects after every step; non-trivial: more than 5 operations.' + _d),
 'P13': dict(tests=['P13.cpp'], rule='A case is a history of 2-19 operations on one array field (any element type, variable/bounded/fixed), with views taken along the way, checked against a sequence model after each step; non-trivial: more than 4 operations.' + _d),
 'P14': dict(tests=['P14.cpp'], rule='A case is a history of 2-19 operations (select, set, clear, copy, decode, change, refused ones) on three unions of one type sharing value objects, checked against a model after each; non-trivial: more than 4 operations.' + _d),
 'P15': dict(tests=['P15.cpp'], rule='A case is a value of one of 12 scalar types (numbers near every limit, number texts and near-numbers) converted to another type by one of the interfaces, compared with a reference conversion in 128-bit/long double arithmetic; or an array of such; or a history on type-erased scalars; non-trivial: types differ / more than one element / more than 4 operations.' + _d),
 'P16': dict(tests=['P16.cpp'], rule='A case is a structure type, a value of it, print options and a mask, printed and read by an independent reader and by the library; or a document naming some members in any order and formatting; non-trivial: more than one or two type nodes.' + _d),
 'P17': dict(tests=['P17.cpp'], rule='A case is a target type and a document (of its shape, of another shape, or corrupted text), or a text to infer a value from, compared with a model of the documented mapping fed by raw yajl events; non-trivial: more than two type nodes or any corrupted text.' + _d),
 'P18': dict(tests=['P18.cpp'], rule='A case is a request (sections, nested field lists, options) rendered in a random legal form and compared with the structure it describes; such a text with one defect; a random text; or a large one; non-trivial: more than 2 names (3 tokens).' + _d),
 'P19': dict(tests=['P19.cpp'], rule='A case is a structure type, a selection (known and unknown names, nested, with options, text or hand-made) and up to 4 masks and value pairs moved either way, a history of compute/copy/swap/reset on two mappers, or a mask to compress; non-trivial: more than 3 fields (steps).' + _d),
 'P20': dict(tests=['P20.cpp'], rule='A case is a history of up to 8 operations on two time stamps against exact arithmetic, or of 2-15 operations (attach, detach, get, set, change, make immutable) on one helper and structures having, nearly having or lacking the required members; non-trivial: more than 2 (4) operations.' + _d),
 'P21': dict(tests=['P21.cpp'], rule='A case is a value type and a list of properties given to the standard factories, or a history of 1-14 builder calls checked against a model tree; non-trivial: more than one property (three calls).' + _d),
 'P22': dict(tests=['P22.cpp'], rule='A case is a byte string, a type, a value, a show and highlight mask on a structure or sub-structure, or a standard structure printed by one of the formats to a stream with random settings; non-trivial: text that needs escaping, more than three nodes, a masked sub-structure, or alarm and time beside the value.' + _d),
 'P26': dict(tests=['P26.cpp'], rule='A case is a copy request (arrays, offsets, strides, count) or a text, list of strings, or value to convert over generated previous content; non-trivial: a possible copy of several elements with a stride above one, three or more elements or fields, or several elements at a non-zero offset.' + _d),
 'P25': dict(tests=['P25.cpp'], rule='A case is a structure with a listener on every field and a history of 1-12 freezes and assignments of every kind, refused or not, followed by a model; non-trivial: at least one refused and three accepted.' + _d),
 'P23': dict(tests=['P23.cpp'], flavor='tsan', rule='A case is a history of scheduling, cancelling and querying up to six callbacks (which act on the timer themselves when called) with the worker held or free, followed by a model that allows for the one call under way; or 2-4 threads doing so freely, ending with the account that each accepted request was run, cancelled or stopped once; or a history of one event, events between threads, 1-5 threads started every way, or locks. Non-trivial: callbacks ran, more than one wait, more than one thread.' + _d),
 'P27': dict(tests=['P27.cpp'], defs='-DDEBUG_SHARED_PTR', rule='A case is a history of 1-30 operations on debugging pointers (base, derived, second base, const, self-referring nodes, weak) done alike with ordinary pointers and compared after each; copies made and dropped by 2-4 threads; or a program over the library built with debugging pointers. Non-trivial: more than five steps and two owners; more than four steps.' + _d),
 'P28': dict(tests=['P28.cpp'], rule='A case is a history of 1-20 operations on four statuses (made, combined, copied, sent, decoded from whole, cut or wrong bytes), all compared with a model after each; an exception of one of ten types thrown with or without the macros from a random depth, looked at, printed, rethrown, thrown anew or copied; or the text of an exception made while the nth allocation fails. Non-trivial: more than four operations; thrown with its origin; an allocation failed.' + _d),
 'P29': dict(tests=['P29.cpp'], flavor='tsan', rule='A case is 2-4 threads each running a random program (as in P24) on objects of its own which share types and array data, compared with the result of running alone; the same in a fresh process; or threads registering, removing and reading counters or copying debugging pointers. Non-trivial: more than two steps per thread.' + _d),
 'P30': dict(tests=['P30.cpp'], rule='A case is one comparison, show, expected exception, test method run, or 1-6 comparisons of members of a generated structure, through the test helpers, with the calls they make to the test reporting of EPICS Base recorded. Non-trivial: any; a member of the type asked for was found.' + _d),
 'P24': dict(tests=['P24.cpp'], rule='A case is a program of 2-15 steps over six handles (types, values, fields of values, builders, array data, helpers, requests) which creates, shares, nests, copies, sends, prints, parses and drops them, many steps failing on purpose, run until everything is dropped and compared with what was allocated before; or such a program with its nth allocation failing; or a history of counters. Non-trivial: more than three steps done and more than four given; a failed allocation in a program of more than 30.' + _d),
}
# factor of the number of cases of the quick tier (runs of about 25 s)
for _p, _x in dict(P01=1.5, P02=2, P04=3, P05=1.5, P06=2.5, P07=10, P09=3, P10=4, P11=3, P13=4, P14=4, P15=2, P16=4, P17=6, P20=6, P21=4, P22=4, P24=5, P25=1.5, P26=5, P28=4, P30=8, P23=2, P18=1.5, P19=1.5).items(): PROPS[_p]['quickx'] = _x
