#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the long texts stay readable and reviewable).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=['src/'+f for f in files],mechanism=[dict(name=n,where='src/'+w) for n,w in mech],
           observe_at=list(observe),hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where='src/'+w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p('C01','Reading plus conformance checking accepts exactly the valid IFF files',
 'A byte stream is accepted (read successfully and passed by the conformance check) if and only if it starts with a FORM, CAT or LIST that obeys the IFF-85 grammar: legal chunk IDs and form types, every group size equal to its type field plus its padded children, no chunk running past its enclosing group, no PROP outside a LIST, at most one PROP per form type in a LIST, only data chunks in a PROP, and only FORM/CAT/LIST members in CATs and LISTs whose type equals the contents type unless that is JJJJ. Trailing bytes after the main chunk and a non-zero padding byte are tolerated, and any other deviation is refused by one of the two steps. The tree that reading delivers for an accepted stream has exactly the IDs, types, sizes, order, nesting and data bytes of the stream.',
 ['inputs'],'All byte streams; explored: every chunk-token string and every chunk tree within small bounds, each with every single (thorough: pairs of) structural deviation, plus one-axis-large trees.',
 'The suite reads about 20 fixed files, each with one defect at one place; acceptance must be right for every nesting, order, size and defect position.',
 ['libiff/iff.c','libiff/chunk.c','libiff/group.c','libiff/form.c','libiff/cat.c','libiff/list.c','libiff/prop.c','libiff/id.c'],
 [('IFF_check / IFF_checkChunk dispatch','libiff/iff.c, libiff/chunk.c'),('IFF_checkGroup and IFF_checkGroupSubChunks size accounting','libiff/group.c'),('sub chunk rules per group kind','libiff/form.c, cat.c, list.c, prop.c')],
 observe=['IFF_readFd','IFF_check','chunk structs'])
p('C02','Writing and reading are inverse, and the serialized bytes are exact',
 'For every chunk hierarchy whose sizes are up to date, writing produces exactly the IFF serialization: big-endian headers, type fields, PROPs before members, all data bytes, and one zero padding byte after each odd-sized chunk; reading those bytes back yields an equal hierarchy with every child linked to its parent. For every valid file, reading it and writing the result reproduces the file byte for byte, except that non-zero padding becomes zero and trailing bytes are dropped. This holds alike for named files and for open streams.',
 ['inputs'],'All hierarchies and all valid files; explored: every tree up to a node bound over small ID/type/data-size alphabets, plus one-axis-large data, fan-out, PROP count and depth.',
 'Tests round-trip seven fixed hierarchies, all shallow, small and with at most one odd chunk.',
 ['libiff/chunk.c','libiff/group.c','libiff/list.c','libiff/rawchunk.c','libiff/io.c','libiff/iff.c'],
 [('IFF_writeChunk: header, body, zero fill, padding','libiff/chunk.c'),('IFF_writeGroupSubChunks / writeListPropChunks','libiff/group.c, libiff/list.c'),('padding byte functions','libiff/io.c')],
 observe=['IFF_write','IFF_writeFd','IFF_read','IFF_readFd'])
p('C03','No input bytes can corrupt memory, leak, hang or read undefined data',
 'Whatever bytes it is given, with or without an extension registry, reading terminates after consuming no more than the available input and either fails, having released everything it allocated, or delivers a hierarchy that can be checked, printed, compared, searched, written and freed. Throughout, no memory outside live objects is accessed, no undefined arithmetic happens, no result depends on uninitialized memory, and after freeing no memory remains allocated.',
 ['inputs'],'All byte streams; explored: every token string within bounds, every small tree with every single structural deviation, hostile size fields of all magnitudes, all under address and undefined-behaviour monitors with two different heap fill patterns.',
 'Tests run a few malformed files without any memory monitor, and never print, search or write what they read from them.',
 ['libiff/chunk.c','libiff/group.c','libiff/list.c','libiff/rawchunk.c','libiff/field.c','libiff/form.c','libiff/chunkregistry.c'],
 [('virtual end-of-file test per field','libiff/field.c'),('free-on-failure in readChunkBody','libiff/chunk.c'),('recursive free','libiff/group.c, libiff/list.c')],
 observe=['IFF_readFd','IFF_check','IFF_print','IFF_compare','IFF_searchForms','IFF_writeFd','IFF_free'])
p('C04','Truncated or failing input is always reported, and reads consume exact sizes',
 'If the input ends or fails anywhere before the last byte that the main chunk needs, padding included, reading reports failure and releases everything; it never delivers a partial hierarchy as a success. A successful read of a chunk consumes exactly its header, its body and its padding byte, so that consecutive chunks in a stream can be read one after the other. The result does not depend on how the stream delivers its bytes: short reads, pipes and regular files give the same outcome.',
 ['inputs','fault_sequences'],'Every truncation offset, every read-error position and every short-read pattern from a small menu, for every tree up to a bound, with and without extension chunks.',
 'Tests contain a handful of truncated files, no read errors, no pipes and no short reads.',
 ['libiff/io.c','libiff/chunk.c','libiff/rawchunk.c','libiff/iff.c','libiff/group.c','libiff/list.c'],
 [('result test of every read','libiff/io.c, libiff/rawchunk.c'),('IFF_skipUnknownBytes and IFF_readPaddingByte','libiff/io.c'),('propagation in readChunkBody','libiff/chunk.c')],
 observe=['IFF_readFd','IFF_readFile','IFF_read','IFF_readChunk'])
p('C05','A write that loses any byte is reported as failed',
 'Writing a hierarchy to a file, an open stream or the standard output reports success only if every byte of the serialization has been delivered to the operating system. If the medium refuses bytes at any position, whether while writing, flushing or closing, or if the destination cannot be opened, failure is reported, the hierarchy is unchanged, and no resource stays open. A chunk with a size that cannot be stated is never written as a success.',
 ['fault_sequences'],'Every byte position at which a medium can fill up or fail, for every tree up to a bound, for buffered and unbuffered streams, and failures of opening, flushing and closing.',
 'No test makes a write fail.',
 ['libiff/iff.c','libiff/io.c','libiff/chunk.c','libiff/rawchunk.c','libiff/group.c','libiff/list.c'],
 [('result test of every write','libiff/io.c, libiff/rawchunk.c'),('flush and close tests','libiff/iff.c'),('propagation through group writers','libiff/group.c, libiff/list.c')],
 observe=['IFF_write','IFF_writeFd','IFF_writeFile','IFF_writeChunk'])
p('C06','Running out of memory fails cleanly at every allocation',
 'When any memory allocation fails, the operation in progress reports failure (a null result, a false status or an emitted diagnostic) instead of crashing, everything it had allocated itself is released, and hierarchies that existed before remain intact, usable and freeable. Reading never delivers a partial hierarchy as a success; adding a child either happens completely or not at all; a search or collection then returns only genuine results with a matching count.',
 ['fault_sequences'],'Every single allocation failure, and every suffix of failures from a given allocation on, in every read, build, search, collect and write scenario up to a bound.',
 'No test makes an allocation fail.',
 ['libiff/chunk.c','libiff/group.c','libiff/list.c','libiff/rawchunk.c','libiff/form.c','libiff/io.c'],
 [('null tests in the constructors','libiff/chunk.c, libiff/group.c, libiff/rawchunk.c'),('allocation status of adding children','libiff/group.c, libiff/list.c'),('array growth in searches','libiff/form.c')],
 observe=['all constructors, adders and readers','allocation counter'])
p('C07','Building operations always keep sizes, counts and parent links consistent',
 'After any sequence of creating, adding and setting data in which children are complete when added, the size of each group is its type field plus its padded children (PROPs included), its child order is the order of adding, and every child refers to its parent. After any change to sizes deeper down, one size update starting at the changed chunk repairs the sizes of that chunk and all its ancestors, and leaves data, order and unrelated chunks alone. A hierarchy built from legal parts passes the conformance check. A text whose size no chunk can state, or a child that makes a group larger than a chunk can be, is refused, and refusing changes nothing.',
 ['histories'],'All operation sequences up to a depth over a small set of group kinds, data sizes (even, odd, zero, large) and nesting positions, explored as a state graph against a reference model.',
 'Tests build seven fixed hierarchies and update sizes once; they never interleave building, changing and updating.',
 ['libiff/group.c','libiff/form.c','libiff/cat.c','libiff/list.c','libiff/prop.c','libiff/rawchunk.c'],
 [('IFF_incrementChunkSize','libiff/group.c'),('IFF_addToGroup / IFF_addPropToList','libiff/group.c, libiff/list.c'),('IFF_updateChunkSizes walking to the root','libiff/group.c')],
 state=[('chunkSize','size of a chunk body','libiff/chunk.h'),('parent','enclosing group','libiff/chunk.h'),('chunkLength/propLength','child counters','libiff/group.h, libiff/list.h')],
 observe=['chunk structs','IFF_check'])
p('C08','Property lookup follows the scoping rules of shared properties',
 'Looking up a property in a FORM yields the FORM\'s own first chunk with that ID; otherwise the chunk in the shared PROP for the FORM\'s type from the nearest enclosing LIST that has one containing that ID; otherwise nothing. Enclosing LISTs count at any distance and through any CATs, FORMs and LISTs in between, PROPs of other form types never contribute, and collecting all chunks with an ID yields exactly the FORM\'s own ones in order.',
 ['inputs'],'All hierarchies up to a bound of nesting levels, PROPs per LIST, form types and property IDs, and every FORM and ID in them; also one-axis-large depth and PROP count.',
 'Four lookup tests use one fixed list each, with at most two levels.',
 ['libiff/form.c','libiff/list.c','libiff/prop.c'],
 [('searchProperty / searchList upward walk','libiff/form.c'),('IFF_getPropFromList','libiff/list.c'),('IFF_getDataChunkFromForm','libiff/form.c')],
 observe=['IFF_getChunkFromForm','IFF_getDataChunkFromForm','IFF_getChunksFromForm','IFF_getChunkFromProp','IFF_getPropFromList'])
p('C09','Form search returns exactly the outermost matching forms in document order',
 'Searching a hierarchy for one or more form types returns, in document order and each once, precisely the FORMs of those types that are reachable through FORMs, CATs and LISTs and are not nested inside another match; PROPs and data chunks never match. The reported count equals the array length, zero matches give count zero, and the hierarchy is unchanged.',
 ['inputs'],'All hierarchies up to a node bound over three form types, all subsets and orders of searched types (including none and repeated ones), from every start chunk, plus one-axis-large match counts and depths.',
 'Three search tests each look for one type in one small hierarchy.',
 ['libiff/group.c','libiff/form.c','libiff/cat.c','libiff/list.c'],
 [('IFF_searchFormsFromArray dispatch','libiff/group.c'),('IFF_searchFormsInForm / InGroup','libiff/form.c, libiff/group.c'),('IFF_mergeFormArray','libiff/form.c')],
 observe=['IFF_searchForms','IFF_searchFormsFromArray','IFF_searchFormsIn*'])
p('C10','Comparison is true exactly for structurally equal hierarchies',
 'Comparing two hierarchies yields true if and only if they have the same shape, IDs, sizes, group types, PROPs, order and data bytes, so that equality coincides with identical serialization of well-formed hierarchies. The result is symmetric, independent of memory addresses and of how each hierarchy was obtained, and changes neither of them.',
 ['inputs'],'All ordered pairs of hierarchies from a bounded family, including every tree with each of its single-field mutations and one-axis-large data where only one byte differs.',
 'Tests only compare equal hierarchies; almost no unequal pair is ever compared.',
 ['libiff/chunk.c','libiff/group.c','libiff/list.c','libiff/rawchunk.c','libiff/prop.c','libiff/form.c','libiff/cat.c'],
 [('IFF_compareChunk header test','libiff/chunk.c'),('IFF_compareGroup','libiff/group.c'),('compareListPropChunks','libiff/list.c'),('IFF_compareRawChunk','libiff/rawchunk.c')],
 observe=['IFF_compare'])
p('C11','Every operation handles a chunk with the same, most specific registered type',
 'For each chunk, reading, writing, checking, printing, comparing and freeing all use the handler registered for its ID in the scope of the enclosing form type, else the one inherited through that scope\'s parent nodes, else the global one, else the default one. A chunk with the same ID in another form type is unaffected, nested groups and PROPs are still recognized inside registered scopes, and each handler is invoked exactly once per operation and chunk.',
 ['configurations','inputs'],'All registries up to a bound of form types, IDs, parent nodes, global additions and default handlers, crossed with all hierarchies up to a bound.',
 'Tests use one registry with one form type and two IDs, without parent nodes, global additions or nesting.',
 ['libiff/chunkregistry.c','libiff/chunk.c','libiff/group.c','libiff/list.c','libiff/defaultregistry.c'],
 [('IFF_findChunkType','libiff/chunkregistry.c'),('scope argument passed to each child operation','libiff/group.c, libiff/list.c'),('default registry','libiff/defaultregistry.c')],
 observe=['handler callbacks','IFF_findChunkType'])
p('C12','Extension chunk fields respect the chunk size as a virtual end of file',
 'When an extension chunk is read through the field functions, each field whose bytes lie completely within the chunk size is delivered, the first one that does not ends the field reading with the remaining ones left untouched, surplus bytes are skipped, and reading goes on exactly at the next chunk. When it is written, exactly the declared number of bytes (plus padding) is produced: the fitting fields followed by zeroes. No field access reaches beyond the chunk, for any declared size, and a failing stream is told apart from the end of the chunk.',
 ['inputs','fault_sequences'],'All field layouts up to five fields of all kinds, all declared sizes from 0 to beyond the layout and at large thresholds, all field values from a boundary set, followed by a sibling chunk; every stream failure position.',
 'Tests use two layouts with four declared sizes, all even and at least four.',
 ['libiff/field.c','libiff/io.c','libiff/chunk.c'],
 [('fieldDoesNotFitInChunk','libiff/field.c'),('IFF_skipUnknownBytes / IFF_writeZeroFillerBytes','libiff/io.c'),('readChunkBody / writeChunkBody','libiff/chunk.c')],
 state=[('bytesProcessed','cursor within the chunk body','libiff/field.c')],
 observe=['IFF_read*Field','IFF_write*Field','IFF_readChunk','IFF_writeChunk'])
p('C13','Numbers and IDs are stored big-endian and survive for every value',
 'Writing a byte, word, long or ID emits exactly its 1, 2 or 4 bytes in big-endian two\'s complement order, and reading those bytes returns exactly that value, for every value of the type. A read that cannot get all its bytes and a write that cannot place all its bytes report failure and leave the caller\'s variable untouched. ID text conversion yields the four characters in the same order.',
 ['inputs','fault_sequences'],'Every 8- and 16-bit value; every 32-bit value whose bytes are drawn from a boundary alphabet (thorough: all 2^32); every truncation of each.',
 'Tests touch a handful of values, all non-negative and small.',
 ['libiff/io.c','libiff/id.c'],
 [('byte swapping codecs','libiff/io.c'),('IFF_idToString','libiff/id.c')],
 observe=['IFF_read*','IFF_write*','IFF_idToString'])
p('C14','The textual representation is exact and complete for every hierarchy',
 'Printing a hierarchy writes to the standard output exactly one block per chunk in order, with two spaces of indentation per level, the ID, size and group type, PROPs before members, TEXT data as characters and other data as two-digit hexadecimal bytes, ten per line. Every data byte appears, negative or large values never disturb the layout, and the output depends only on the hierarchy and the starting indentation.',
 ['inputs'],'All hierarchies up to a node bound, all 256 byte values, every data length from 0 beyond several line ends and large ones, several starting indentations.',
 'One test prints one fixed file and ignores the output.',
 ['libiff/chunk.c','libiff/group.c','libiff/list.c','libiff/rawchunk.c','libiff/util.c','libiff/id.c'],
 [('IFF_printChunk','libiff/chunk.c'),('IFF_printRaw / IFF_printText','libiff/rawchunk.c'),('IFF_printIndent','libiff/util.c'),('printListPropChunks','libiff/list.c')],
 observe=['standard output of IFF_print'])
p('C15','iffpp prints exactly the valid files and its exit status tells the truth',
 'iffpp exits with status 0 and prints the textual representation of its input, given by name or on the standard input, if and only if that is readable and either conforms or checking is disabled by option; otherwise it exits non-zero, prints no representation on the standard output and a diagnostic on the standard error. It also exits non-zero, without having crashed, when its output cannot be written or memory runs out, and help, version and unknown options have their documented effect and status.',
 ['inputs','configurations','fault_sequences'],'All combinations of option spellings, input sources (file, pipe, missing, directory) and a family of valid, invalid and truncated inputs, every output byte budget for small inputs, and every allocation refused once or for good.',
 'No test runs iffpp with options, a pipe or an unwritable output; the shell tests use fixed files and look at the exit status only.',
 ['iffpp/main.c','iffpp/pp.c','libiff/iff.c'],
 [('option parsing','iffpp/main.c'),('read, check, print sequence','iffpp/pp.c')],
 observe=['process exit status','stdout','stderr'])
p('C16','ID and form type validity is decided correctly for every 32-bit value',
 'An ID is valid exactly when its four characters are printable ASCII and the first is not a space; a form type is valid exactly when it is a valid ID of upper-case letters, digits and spaces only and not one of the reserved names LIST, FORM, PROP, CAT, JJJJ, LIS1-9, FOR1-9 and CAT1-9. Every refusal emits a diagnostic and every acceptance is silent. Within a hierarchy these rules govern chunk IDs (where four spaces additionally denote a filler chunk), form types and contents types.',
 ['inputs'],'All 2^32 values of the thorough tier (quick: every value whose characters are drawn from a boundary alphabet, and all values one character away from reserved names), and their use at every position of small hierarchies.',
 'Tests try six illegal values.',
 ['libiff/id.c','libiff/form.c','libiff/chunk.c'],
 [('IFF_checkId','libiff/id.c'),('IFF_checkFormType','libiff/form.c'),('filler exception','libiff/chunk.c')],
 observe=['IFF_checkId','IFF_checkFormType','IFF_check'])
p('C17','Operations on independent hierarchies never influence each other',
 'Operations that inspect (check, print, compare, search, look up, write) leave the hierarchy unchanged, and repeating any operation with the same input gives the same result, whatever happened before. Operations on separate hierarchies and streams, and inspections of one shared hierarchy, may be interleaved at any point, also from different threads, and each behaves exactly as if it ran alone.',
 ['schedules','histories'],'All interleavings with at most two preemptions of two threads running pairs of operations, at every function boundary, library call, stream access, allocation, diagnostic and conflicting memory access; all ordered operation sequences up to a depth in one thread.',
 'Every test is a single-threaded process performing one operation once.',
 ['libiff/iff.c','libiff/chunk.c','libiff/group.c','libiff/rawchunk.c','libiff/io.c','libiff/id.c','libiff/error.c','libiff/form.c','libiff/list.c'],
 [('no mutable global state besides the diagnostic callback','libiff/*.c'),('const inspection interfaces','libiff/*.h')],
 state=[('error callback','process-wide diagnostic sink','libiff/error.c')],
 observe=['results, bytes and diagnostics per thread','snapshots of hierarchies'])
p('C18','iffjoin concatenates exactly its inputs, or fails without touching its output',
 'iffjoin writes a valid CAT whose members are exactly the given files\' main chunks in order, to the named output or the standard output, and exits 0; its contents type is the type shared by all inputs, or JJJJ when they differ. If any input is missing, unreadable, truncated or non-conforming, or if the inputs do not fit into one CAT, or memory runs out before the members are joined, it exits non-zero without creating or altering the output, and it also exits non-zero when the output cannot be written or when no inputs or wrong options are given. The same contents type rule holds when members are added to a CAT or LIST through the library.',
 ['inputs','configurations','fault_sequences'],'All input lists up to length four over valid files of several kinds and types and invalid, truncated and missing files, all output modes (absent, existing, equal to an input, unwritable), every output byte budget, every allocation refused once or for good.',
 'No test runs iffjoin at all.',
 ['iffjoin/main.c','iffjoin/join.c','libiff/cat.c','libiff/list.c','libiff/iff.c'],
 [('read and check all before writing','iffjoin/join.c'),('updateContentsType','libiff/cat.c')],
 observe=['process exit status','output file','stdout'])
p('C19','Diagnostics explain every refusal, only go to the sink, and never cry wolf',
 'Every failing read or write and every refused conformance check emits at least one diagnostic, and reading, checking and writing a well-formed hierarchy on a healthy medium emit none. All diagnostics go through the installed callback, by default to the standard error, never to the standard output, and consist of complete text that depends only on the input and not on addresses or earlier operations; tolerated oddities (trailing bytes, non-zero padding, an overrunning group) are announced as warnings, with the true numbers. They name what they concern: the file that cannot be opened, and the ID of the chunk in which the input ends, the output fails, a size is impossible or which is misplaced.',
 ['inputs','histories'],'All token strings, trees and single deviations within bounds, every truncation, write failure and callback installation history up to a depth.',
 'No test looks at a diagnostic.',
 ['libiff/error.c','libiff/io.c','libiff/group.c','libiff/list.c','libiff/id.c','libiff/iff.c','libiff/form.c','libiff/cat.c','libiff/prop.c'],
 [('replaceable callback','libiff/error.c'),('diagnostic before each failing return','libiff/*.c')],
 observe=['installed callback','stderr','stdout'])
p('C20','Every part of a hierarchy means the same on its own as inside it',
 'For every hierarchy, read or built, and every chunk in it: writing that chunk alone gives exactly the bytes of that chunk, which for a FORM, CAT or LIST that conforms is a valid file that is read back equal; checking it gives the verdict of that group as a file of its own, whatever surrounds it; printing it gives its own representation; and comparing it with an independent equal chunk anywhere else is true. Moving a hierarchy into other groups, valid or not, changes none of this, extension chunks keep the handlers of their FORM, and nothing outside the part is changed.',
 ['inputs','histories'],'All hierarchies up to a node bound with every part of each and every pair of parts; every way to move small hierarchies into one and into two other groups out of twelve kinds, with right and wrong sizes; structural deviations; extension chunks in every nesting; large hierarchies.',
 'Tests only write, check and compare whole hierarchies.',
 ['libiff/iff.c','libiff/chunk.c','libiff/group.c','libiff/form.c','libiff/cat.c','libiff/list.c','libiff/prop.c','libiff/chunkregistry.c'],
 [('IFF_writeFd / IFF_check / IFF_print / IFF_compare','libiff/iff.c'),('recursion over chunks with the scope of the enclosing group','libiff/chunk.c'),('IFF_findChunkType','libiff/chunkregistry.c')],
 state=[('parent','link to the enclosing group','libiff/chunk.h')],
 observe=['bytes of IFF_writeFd','IFF_check','IFF_print','IFF_compare','IFF_readFd'])
p('C21','Every inspection depends only on the present state of a hierarchy',
 'Looking up chunks and properties, searching FORMs, comparing, checking, printing and writing give what they give for an equal hierarchy that was built anew. It does not matter which inspections of this or of other hierarchies came before, with which IDs or at which place, nor whether they failed; which chunks, PROPs or groups were added, retyped or changed in between; and whether another hierarchy lived at the same addresses and was freed. Inspecting a hierarchy does not change it, and repeating an inspection repeats its answer.',
 ['histories','inputs'],'All sequences of up to 3 (4) changes out of 25 (additions at every place, texts, types, IDs, sizes, freeing and rebuilding or reading, failing reads, writes and additions) with each of 45 inspections, and all of them, before, between and after; every ordered pair of inspections; every ordered pair of small hierarchies built one after the other in the same memory; hierarchies wrapped into further groups, or freed and rebuilt in other groups, between the same inspections.',
 'Tests ask once, about a hierarchy that is complete, in a process that has not asked before.',
 ['libiff/form.c','libiff/list.c','libiff/prop.c','libiff/group.c','libiff/chunk.c','libiff/iff.c','libiff/util.c'],
 [('IFF_getChunkFromForm / IFF_getDataChunkFromForm / IFF_getChunksFromForm','libiff/form.c'),('IFF_getPropFromList','libiff/list.c'),('IFF_searchForms','libiff/iff.c'),('IFF_check / IFF_compare / IFF_print / IFF_write','libiff/iff.c')],
 state=[('chunk arrays and parent links','the only state of a hierarchy','libiff/group.h')],
 observe=['results of look-ups and searches','IFF_check','IFF_compare','IFF_print','IFF_writeFd'])
p('C22','Every public building block does exactly its own part, for any caller',
 'The functions from which an application composes chunk types of its own do exactly their part when they are called directly. Adding a member size to a size gives header, body and padding byte for all values, or -1 if that exceeds 2^31-1; updating the sizes of one group changes that group only; the reading and writing functions of a kind of chunk take and give exactly its body and count every byte of it, whatever was counted before. Checking, printing, comparing and freeing a group do so for its members, and ask the caller\'s own rules about the type and every member. A group type that an application builds from these functions and registers, globally or for a FORM type, with or without fields in front, is therefore read, written, checked, printed, compared and freed like a FORM at every place, and look-ups work from FORMs inside it.',
 ['inputs','histories'],'All pairs of about a thousand border sizes; every part of all small hierarchies through the functions of its kind, with all refusals by the caller; all small hierarchies in which any FORMs are replaced by two kinds of own groups, registered in two ways, cut, failing and without memory at every point.',
 'Tests use these functions only through whole FORMs, CATs and LISTs, where offsets, types and counts are always the same.',
 ['libiff/group.c','libiff/chunk.c','libiff/form.c','libiff/cat.c','libiff/list.c','libiff/prop.c','libiff/rawchunk.c','libiff/field.c','libiff/id.c'],
 [('IFF_incrementChunkSize / IFF_updateGroupChunkSizes','libiff/group.c'),('IFF_readGroup / IFF_writeGroup / IFF_writeGroupSubChunks','libiff/group.c'),('IFF_checkGroup / IFF_checkGroupSubChunks with callbacks','libiff/group.c'),('read, write, check, print, compare, free functions of each kind','libiff/form.c, cat.c, list.c, prop.c, rawchunk.c')],
 state=[('bytesProcessed','bytes of the body that were handled so far','libiff/group.h')],
 observe=['return values','bytesProcessed','bytes read and written','callbacks'])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
