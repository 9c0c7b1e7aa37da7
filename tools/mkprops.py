#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here, one place)."""
import json, os
I='include/u5e/'; S='src/u5e/props/'
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    return d
NF=[I+'normalization_form_%s.hpp'%x for x in('c','d','kc','kd')]
ALL=[I+'basic_encodedstring.hpp',I+'basic_grapheme_iterator.hpp',I+'utf8_iterator.hpp',I+'utf8.hpp',I+'utf8_bounds.hpp',I+'filter.hpp']+NF
DB=[S+f for f in('grapheme_cluster_break.cpp','canonical_combining_class.cpp','canonical_composition_mapping.cpp','canonical_decomposition_mapping.cpp','compatibility_and_canonical_decomposition_mapping.cpp')]
P=[]
P.append(p('C01','Concurrent callers never disturb one another',
 'Threads that use the library at the same time, each with its own cursors and outputs over texts that all of them only read, get from every call exactly the result that the call gives when it runs alone, under every interleaving and also while allocations fail in some of the threads. No such use makes two threads touch the same memory without synchronisation when one of them writes it. No shared text is altered.',
 ['schedules','fault_sequences','inputs'],'every interleaving of the memory accesses and synchronisation operations of 2 to 4 threads calling any part of the library on shared read-only texts, with or without allocation failures',
 'The tests are single-threaded: no test ever has two calls in progress, so no interleaving is reached.',
 ALL+DB,[('property tables are immutable static data, looked up without caches',S+'*.cpp resolve()'),('all working state of a normalisation is local to the call',I+'normalization_form_*.hpp'),('cursors hold nothing but positions',I+'utf8_iterator.hpp, '+I+'basic_grapheme_iterator.hpp')],
 observe=['results of every call','memory accesses of the compiled library']))
P.append(p('C02','A call is unaffected by earlier calls, even failed ones',
 'Every call gives the result it would give as the first call of a fresh process, whatever calls came before it in this one. That includes earlier calls on memory since reused for other text, calls made by threads that have ended, and calls cut short by a failed allocation or by an exception from the caller\'s operation, text source or output.',
 ['histories','fault_sequences'],'every sequence of earlier calls, of in-place replacements of the texts they used, and of failures injected into them',
 'Each test makes one or two successful calls in a fresh fixture; none continues after a failed call or reuses memory for another text.',
 ALL+DB,[('no call keeps state: lookups are pure, buffers are call-local',S+'*.cpp, '+I+'normalization_form_*.hpp'),('per-codepoint encoding buffer is cleared for each codepoint',I+'utf8.hpp append_from_utf32ne')],
 observe=['result of each call compared with the same call alone in a fresh process']))
P.append(p('C03','A failed allocation is reported cleanly and can be retried',
 'When any memory allocation made during a call fails, the call either still completes exactly or lets std::bad_alloc reach the caller: the process is not terminated, no memory is lost and the input is unchanged. The output then holds its earlier contents followed by a whole number of the codepoints that the complete call would have appended, in order. Repeating the call with memory available gives the complete result.',
 ['fault_sequences','inputs'],'every allocation made by every appending, filtering, decomposing and normalising call, failing once or from then on, for every text and earlier output content',
 'No test makes an allocation fail.',
 [I+'utf8.hpp',I+'utf32ne.hpp',I+'basic_encodedstring.hpp',I+'codepoint_decomposition.hpp',I+'filter.hpp']+NF,
 [('output is only ever appended to, by whole codepoints',I+'utf8.hpp append_from_utf32ne'),('temporaries owned by string objects',I+'normalization_form_*.hpp')],
 observe=['exception reaching the caller','output contents','live allocations']))
P.append(p('C04','Filtering handles every element exactly once, in order',
 'Filtering a range hands each element to the operation exactly once and in order, all of them to one and the same operation object, and returns the sum of what the operation returned. If the operation, the text source or the output fails at some element, every element before it has been handed over, that same failure reaches the caller, no later element is handed over, and the output keeps exactly what was produced until then.',
 ['fault_sequences','inputs'],'every range of codepoints, graphemes or integers, also one that can be read only once, every operation result, and a failure of the operation, source or output at every possible point',
 'One test filters five codepoints with an operation that always returns 1 and never fails.',
 [I+'filter.hpp',I+'basic_grapheme_iterator.hpp',I+'codepoint_decomposition.hpp'],[('single pass loop accumulating the operation results',I+'filter.hpp filter()')],
 observe=['the sequence of calls the operation receives','return value','exception','output']))
P.append(p('C05','Text that passed the border check is safe to walk whatever happened to it',
 'However a text was damaged in storage or transit, once the border check accepts it or border enforcement has repaired it, walking it forward or backward by codepoint or forward by grapheme and normalising it touch no octet outside the text (and the terminator of a string that has one) and finish within a number of steps bounded by its length. The check and the enforcement obey the same limits on any octets at all; enforcement changes octets only to \'?\' and only at the two borders. Undamaged text is accepted and left as it is, and text that begins or ends inside a codepoint is rejected, or repaired and reported.',
 ['fault_sequences','inputs','configurations'],'every sequence of bit flips, overwritten, dropped, duplicated or reordered segments, zeroed sectors, cuts and stale neighbouring octets applied to any text, held as a string or as a view into a larger buffer',
 'Eight tests check four fixed five-letter strings in NUL-terminated storage; none walks damaged text and none notices a read outside the text.',
 [I+'utf8_bounds.hpp',I+'utf8_iterator.hpp',I+'utf8_util.hpp',I+'basic_grapheme_iterator.hpp',I+'utf8.hpp']+NF,
 [('first octet and last six octets inspected at the border',I+'utf8_bounds.hpp check(), enforce()'),('step size taken from the lead octet',I+'utf8_util.hpp codepoint_size()'),('end-of-text test before every read ahead',I+'basic_grapheme_iterator.hpp find_end_of_grapheme()')],
 observe=['every memory access of the compiled library relative to the text','number of steps','return values of check and enforce']))
P.append(p('C06','Damage to a text stays local to the damaged place',
 'When octets of a well-formed text are altered, lost, inserted or duplicated, walking the damaged text, forward or backward, still yields every codepoint that lies entirely before the damaged place and every codepoint that starts at least six octets after it, each once, in order, unchanged and at its place. Whether two such neighbouring codepoints belong to the same grapheme is also unchanged.',
 ['fault_sequences','inputs'],'every well-formed text and every sequence of separate damages to it that keeps its borders acceptable',
 'No test walks damaged text.',
 [I+'utf8_iterator.hpp',I+'utf8_util.hpp',I+'basic_grapheme_iterator.hpp'],
 [('a cursor inside a codepoint first moves to its start',I+'utf8_iterator.hpp rewind_to_start_of_codepoint()'),('lead and continuation octets are told apart by their top bits',I+'utf8_util.hpp')],
 observe=['codepoints and their octet positions seen by forward and backward walks','grapheme boundaries']))
P.append(p('C07','Encoding cut off at any octet can be recovered and resumed',
 'If writing codepoints as UTF-8, by appending or through a writing cursor, is cut off after any octet by a crash or a torn or failed write, the octets stored are a prefix of the standard encoding of those codepoints after what was there before. The border check tells whether the last codepoint is incomplete, truncating at a codepoint boundary and decoding give back exactly the codepoints that were completely stored, and resuming after them ends with the same text as an uninterrupted run.',
 ['crash_points','fault_sequences','inputs'],'every sequence of codepoints U+0000..U+10FFFF other than surrogates, and a crash, torn write or write failure at every octet, any number of times',
 'The tests write four codepoints below U+0800 and never stop part way.',
 [I+'utf8_iterator.hpp',I+'utf8.hpp',I+'utf8_util.hpp',I+'utf8_bounds.hpp',I+'basic_encodedstring.hpp'],
 [('lead octet first, then continuation octets in order',I+'utf8_iterator.hpp proxyobject::operator='),('one append per codepoint',I+'utf8.hpp append_from_utf32ne'),('length of an encoding',I+'utf8_util.hpp encoded_size()'),('append up to a cut rewinds the cut to a codepoint start',I+'utf8.hpp native_const_iterator')],
 observe=['octets that reached the simulated storage at the crash','border check result','recovered and resumed text']))
P.append(p('C08','Text processed in fragments gives the same result as in one piece',
 'A receiver that gets a well-formed text in arbitrary pieces, and on each arrival uses the border check and grapheme iteration to process what is certainly complete and keep the rest, obtains the codepoints that were sent and the same graphemes and normalised text, each exactly once and in order, as from processing the whole text at once. This holds for any piece sizes, empty reads, stale buffer contents and reconnections that resend from the last processed position.',
 ['schedules','fault_sequences','inputs'],'every division of any text into deliveries, with short and empty reads and connection losses at any octet',
 'Every test holds its complete text in one buffer.',
 [I+'utf8_bounds.hpp',I+'utf8_iterator.hpp',I+'basic_grapheme_iterator.hpp',I+'filter.hpp',I+'basic_encodedstring.hpp']+NF,
 [('a codepoint cut off at the end is detected from its lead octet',I+'utf8_bounds.hpp check()'),('a grapheme boundary depends on two adjacent codepoints only',I+'basic_grapheme_iterator.hpp is_grapheme_boundary()'),('normalisation works grapheme by grapheme',I+'normalization_form_*.hpp')],
 observe=['codepoints, graphemes and normalised text accumulated by the receiver']))
P.append(p('C09','Cursors move independently and survive read errors',
 'Any number of cursors on one text, reverse iterators included, copied and moved forward and backward in any interleaved order, each stand at the codepoint (or, for grapheme cursors, the grapheme) determined by its own moves alone, read it correctly, and compare equal exactly when they stand at the same one. A grapheme obtained from a cursor keeps its codepoints wherever the cursor goes later. A read or move that fails because the text source could not deliver an octet leaves a codepoint cursor on the codepoint it was on or the one it was moving to, leaves every other cursor and copy, and every grapheme obtained earlier, as it was, and gives the right result when repeated.',
 ['histories','fault_sequences'],'every interleaved history of reads, moves, copies and comparisons of several cursors over any text, with source failures at any octet access',
 'The tests move one cursor at a time, mostly forward, over five characters, with sources that never fail.',
 [I+'utf8_iterator.hpp',I+'basic_grapheme_iterator.hpp',I+'basic_grapheme.hpp'],
 [('a cursor is a value holding one native position',I+'utf8_iterator.hpp'),('reading decodes through a copy of the native position',I+'utf8_iterator.hpp current_codepoint()')],
 observe=['codepoints read, comparison results and positions of all cursors']))
P.append(p('C10','An interrupted normalisation can be restarted',
 'A normalisation job that crashes and is run again, either continuing at the grapheme boundary up to which it had committed its output, or starting over on a text of which some graphemes have already been replaced by their normalised form, ends with the same text as a job that ran once without interruption. This holds for each of the four forms, for both encodings and for any number of crashes.',
 ['crash_points','histories','inputs'],'every text, form and encoding, every crash point between graphemes or inside one, and every number of restarts',
 'The tests normalise at most four codepoints once; none normalises text again or continues one.',
 NF+[I+'canonical_composition.hpp',I+'canonical_combining_order.hpp',I+'codepoint_decomposition.hpp',I+'basic_grapheme_iterator.hpp',I+'filter.hpp']+DB,
 [('tables hold fully resolved decompositions',S+'*_decomposition_mapping_data.hpp'),('marks are put in canonical order',I+'canonical_combining_order.hpp and the sort in '+I+'normalization_form_*.hpp'),('composition inverts decomposition',I+'canonical_composition.hpp')],
 observe=['final text in the simulated store after crashes and restarts, compared with an uninterrupted job']))
P.append(p('C11','The library works in every phase of the life of a process',
 'Calls made before main begins, from initialisers of other static objects in whatever order they run, calls made by threads, calls made while the process is exiting, from exit handlers and destructors of static objects, and calls made in a process forked from main or from a thread, whatever other threads are doing at that moment, give the same results as calls made from main.',
 ['schedules','histories'],'every order of static initialisation and destruction, and every distribution of calls over the phases before main, main, threads, forked processes and exit',
 'Every test calls the library from main after all initialisation and before any destruction.',
 DB+NF+[I+'utf8_iterator.hpp',I+'basic_grapheme_iterator.hpp'],
 [('property tables are constant-initialised',S+'*.cpp static data'),('no object with a destructor has static storage','include/u5e, src/u5e')],
 observe=['results of the same calls in each phase']))
P.append(p('C12','Calls made from within callbacks disturb nothing',
 'When the caller\'s operation, text source or output object itself calls the library while a call is in progress, on the same or other texts and to any depth, the outer and the inner calls each give the result they give on their own.',
 ['schedules','histories'],'every placement of nested calls at the points where a filtering, normalising, walking or appending call invokes caller-supplied code',
 'No test calls the library from a callback, other than through the library\'s own normalisation functions.',
 ALL,[('working buffers are local variables of each call',I+'normalization_form_*.hpp, '+I+'utf8.hpp'),('no shared scratch state','include/u5e')],
 observe=['results of outer and nested calls']))
P.append(p('C13','Reading reopened at any octet continues without loss or repetition',
 'After a crash a reader may reopen a text at whatever octet its progress record holds. A codepoint cursor opened there stands at the codepoint containing that octet and moves on to its neighbours, and a grapheme cursor opened there stands at the grapheme containing it, with the same start and end as in an uninterrupted walk. So the codepoints or graphemes before it, obtained by truncation at that point, and those from it on are together the whole text, each exactly once.',
 ['crash_points','inputs'],'every well-formed text in either encoding and every octet (or unit) position in it, the end included, as the point of the crash, any number of times',
 'One example, not a test, truncates one string at one position; no test opens a grapheme cursor inside a grapheme.',
 [I+'basic_grapheme_iterator.hpp',I+'utf8_iterator.hpp',I+'utf8.hpp',I+'basic_encodedstring.hpp'],
 [('find_start_of_grapheme walks back to the boundary',I+'basic_grapheme_iterator.hpp'),('a cursor inside a codepoint first moves to its start',I+'utf8_iterator.hpp rewind_to_start_of_codepoint()'),('append between grapheme or codepoint cursors copies whole units',I+'basic_encodedstring.hpp append()')],
 observe=['start, end and contents of the reopened grapheme or codepoint','text recovered by truncation plus the remaining walk']))
P.append(p('C14','Overwriting codepoints in place disturbs nothing else',
 'Assigning through a mutable codepoint cursor a codepoint whose encoding is as long as that of the one it stands at changes that codepoint and nothing else. Every other codepoint of the text, and the place where every other cursor stands, remain as they were, under any interleaving of moves, reads and overwrites through any number of cursors, also when several threads do this at the same time on disjoint parts of one text. If a crash or a failing access cuts an overwrite off after any octet, all other codepoints can still be reached and read, and repeating the overwrite completes it.',
 ['histories','schedules','crash_points','fault_sequences'],'every text, every sequence of same-length overwrites, moves and reads by one to four threads through any number of cursors, each thread on its own part of the text, and a crash or a failed read or write at every octet',
 'The tests write through a cursor only into fresh buffers, in sequence, in one thread; none overwrites a codepoint inside a text.',
 [I+'utf8_iterator.hpp',I+'utf8_util.hpp'],
 [('an overwrite stores the octets of one encoding, one by one',I+'utf8_iterator.hpp proxyobject::operator='),('a cursor inside a codepoint first moves to its start',I+'utf8_iterator.hpp rewind_to_start_of_codepoint()'),('a cursor holds nothing but its position',I+'utf8_iterator.hpp')],
 observe=['every octet of the text after every operation and after a crash','codepoints read and positions of all cursors','memory accesses of the threads']))
P.append(p('C15','Calls give back the memory they take',
 'The memory a process holds does not grow with the number of calls it makes. Repeating the same calls, in one thread or in ever new ones, or making them on other arrangements of the same codepoints, leaves the process holding no more memory than after the first rounds of them, whichever of the calls are cut short by a failed allocation or by an exception from the text source, the caller\'s operation or the output.',
 ['histories','fault_sequences'],'every sequence of calls, repeated any number of times in one thread or in threads that come and go, with any of the calls cut short in every round by an allocation, source, operation or output failure',
 'Every test process makes each call a few times, none fails in the middle, and nothing measures what is left behind.',
 NF+[I+'codepoint_decomposition.hpp',I+'canonical_combining_order.hpp',I+'filter.hpp',I+'basic_encodedstring.hpp'],
 [('buffers between the stages of a filter',I+'filter.hpp'),('pending codepoints of one combining sequence',I+'canonical_combining_order.hpp'),('temporary strings while appending',I+'basic_encodedstring.hpp')],
 observe=['octets and blocks allocated by the process after every round']))
P.append(p('C16','A failure of the caller\'s parts arrives as it is and leaves nothing broken',
 'When the text source, the operation or the output that the caller supplied throws anywhere inside a call - walking, grouping into graphemes, comparing, checking, decomposing, normalising, appending, encoding - that very exception reaches the caller, even when memory has run out at that moment. Until then the call has delivered or appended a beginning of its complete result and nothing else; what the output held before, and the input text, are as they were; and the same call made again once failures have stopped gives the complete result.',
 ['fault_sequences','inputs'],'every call on every text, with a failure at each access of the text source, each call of the operation and each write to the output, with or without memory left from that moment',
 'No test supplies a source, operation or output that throws.',
 ALL+[I+'basic_grapheme.hpp',I+'codepoint_decomposition.hpp',I+'canonical_composition.hpp'],
 [('sources are read through the caller\'s iterator, possibly in the middle of a codepoint',I+'utf8_iterator.hpp'),('graphemes are found by reading ahead',I+'basic_grapheme_iterator.hpp'),('results are put together in a temporary string and then appended',I+'normalization_form_*.hpp'),('octets are appended one by one',I+'utf8.hpp')],
 observe=['the exception that reaches the caller','what was delivered or appended before it','the input text','the result of the repeated call']))
P.append(p('C17','Encoded strings are independent values',
 'An encoded string holds exactly the text it was given - by construction, copying, assignment, appending ranges of codepoints or graphemes of another string or view, converting from UTF-32, normalising into it, overwriting a codepoint, or through its public native string - and reads as a new string with those contents would. What is done to one string never changes another, whatever the order of operations, whichever threads do them one after another, and wherever an allocation fails: an operation cut short leaves every other string as it was, and its target as it was, complete, or with a beginning of what was being appended.',
 ['histories','fault_sequences'],'every sequence of operations on any number of UTF-8 and UTF-32 strings and views of them, with any allocation failing',
 'The tests make each string once, from constants, and read it back; none copies, assigns, changes and reads again.',
 [I+'basic_encodedstring.hpp',I+'utf8.hpp',I+'utf32ne.hpp',I+'basic_grapheme_iterator.hpp'],
 [('the native string is public and is the only state',I+'basic_encodedstring.hpp native_string'),('copying and assignment',I+'basic_encodedstring.hpp operator='),('appending goes through native cursors',I+'basic_encodedstring.hpp append()')],
 observe=['octets held by every string after every operation','codepoints forward, backward and through mutable cursors','graphemes compared with a new string of the same contents']))
P.append(p('C18','Calls suspended inside the caller\'s parts disturb nothing',
 'Where the text source, the operation given to filter or the output suspends the task that called the library - as a source that waits for data under a cooperative scheduler does - other tasks on the same thread make calls, are suspended in turn, and all of them are continued in any order, not only innermost first. Every call gives the result it gives alone, whichever of the others were suspended, continued, completed or cut short by a failure in the meantime; none waits for another for ever, and the texts they share are not altered.',
 ['schedules','fault_sequences'],'every number of tasks on one thread, every calls they make, every order in which they are suspended and continued at the accesses of the caller\'s parts, with failures of these and of allocations',
 'No test calls the library from inside one of its calls, let alone leaves a call in the middle and finishes it after another that began later.',
 [I+'filter.hpp',I+'utf8_iterator.hpp',I+'basic_grapheme_iterator.hpp',I+'utf8.hpp',I+'normalization_form_c.hpp',I+'normalization_form_d.hpp',I+'normalization_form_kc.hpp',I+'normalization_form_kd.hpp',I+'codepoint_decomposition.hpp'],
 [('all working storage is local to the call',I+'normalization_form_*.hpp'),('the caller\'s parts are called with nothing held and nothing half updated',I+'filter.hpp, '+I+'utf8.hpp')],
 observe=['results of every call against the call alone in a fresh process','that every task completes','the shared texts']))
P.append(p('C19','Regenerating the property tables never goes wrong unnoticed',
 'A generator of property tables, run on the Unicode data files of the tree, writes exactly the table that the library ships, whatever the order in which hashes iterate, the locale, short reads and writes, and whatever an earlier, interrupted run left in place of the table. When reading the data, writing the table, a memory request or one of the processes taking part fails, the run ends with a failure status unless the table was written completely all the same. The data files and the other tables are left as they are, and running the generator again once failures have stopped gives the table.',
 ['crash_points','fault_sequences','schedules'],'every generator, hash order and locale, every sequence of interrupted, failed and repeated runs, with failures of any read, write, open, close and memory request, and crashes of the run or one of its processes at any octet',
 'No test runs the generators at all; what matters here are the runs in which the disk, the memory or a process fails.',
 [S+'canonical_combining_class_data.pl',S+'canonical_composition_mapping_data.pl',S+'canonical_decomposition_mapping_data.pl',S+'compatibility_and_canonical_decomposition_mapping_data.pl',S+'grapheme_cluster_break_data.sh'],
 [('tables sorted by all their keys before they are written',S+'*_data.pl'),('decompositions expanded until nothing changes',S+'canonical_decomposition_mapping_data.pl'),('results of open, print and close',S+'*_data.pl'),('status of every step of the pipeline',S+'grapheme_cluster_break_data.sh')],
 observe=['exit status of every run','the table after every run that reports success, against the one shipped','the other files of the directory']))
# pure functions of their input: not applicable to this technique
P.append(p('P01','Every codepoint survives encoding and decoding',
 'Decoding the UTF-8 encoding of any codepoint gives that codepoint, and the encoding is the one the Unicode Standard prescribes.',['inputs'],'all 1,112,064 Unicode scalar values','The tests encode four and decode seven values.',
 [I+'utf8_iterator.hpp',I+'utf8_util.hpp',I+'utf8.hpp'],[('shift and mask arithmetic on octets',I+'utf8_iterator.hpp')]))
P.append(p('P02','Character properties agree with the Unicode Character Database',
 'Combining class, decompositions, compositions and grapheme break property returned for every codepoint are those of the Unicode Character Database version the library ships, with composition exclusions applied.',['inputs'],'every integer as a codepoint, every pair for compositions','The tests look up about fifteen codepoints.',
 DB+[S+'UnicodeData.txt',S+'GraphemeBreakProperty.txt',S+'CompositionExclusions.txt'],[('tables generated from the database, binary search',S)]))
P.append(p('P03','Grapheme boundaries follow the standard segmentation rules',
 'A text is divided into graphemes exactly at the boundaries given by the extended grapheme cluster rules of the Unicode version the library ships, as far as they depend on two adjacent codepoints.',['inputs'],'every text','Two texts of five codepoints are tested.',
 [I+'basic_grapheme_iterator.hpp',S+'grapheme_cluster_break.cpp'],[('pairwise boundary rules',I+'basic_grapheme_iterator.hpp is_grapheme_boundary()')]))
P.append(p('P04','Normalised text is in the normal form the standard defines',
 'The output of each normalisation is in the requested form and canonically (or compatibility) equivalent to the input, so that equivalent inputs give identical outputs.',['inputs'],'every text','At most four codepoints per form are tested.',
 NF+[I+'canonical_composition.hpp',I+'canonical_combining_order.hpp'],[('decompose, order, compose',I+'normalization_form_*.hpp')]))
P.append(p('P05','Normalisation reports how many codepoints it produced',
 'The count returned by normalising or decomposing a text is the number of codepoints appended to the output.',['inputs'],'every text and form','Seven fixed texts are tested.',
 NF+[I+'codepoint_decomposition.hpp',I+'filter.hpp'],[('counter of decomposition minus compositions',I+'normalization_form_*.hpp')]))
P.append(p('P06','Texts of different encodings cannot be mixed by accident',
 'A program that passes text or cursors of one encoding where another is expected, or wraps storage whose unit does not fit the encoding, is rejected by the compiler.',['programs'],'every program','Tests only contain programs that compile.',
 [I+'basic_encodedstring.hpp',I+'iterator_assertion.hpp',I+'encoding_assertion.hpp'],[('encoding is part of the type, static assertions',I+'iterator_assertion.hpp')]))
P.append(p('P07','Run-time and compile-time versions agree',
 'The library version reported at run time equals the one the program was compiled against when both come from the same release.',['configurations'],'every build of the library','The test covers the one build at hand, and that settles it for that build.',
 [I+'version.hpp','src/u5e/version.cpp'],[('constants',I+'version.hpp')]))
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
