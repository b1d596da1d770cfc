"""Texts of the properties (source of properties.jsonl and MANIFEST.json; see gen.py)."""
M = []
def m(pid, title, statement, over, text, why, files, mech, note, level='model_checking'):
    M.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, level=level))
NA = []
def na(pid, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason))
G = 'src/gxfile.cpp'; S = 'src/gdlib/gmsstrm.cpp'

m('C01', 'Numeric values survive a write/read cycle bit for bit',
  'Every numeric value written into a parameter, variable, equation or set record, by any of the write interfaces, is returned unchanged bit for bit by every read interface of the same file, for every field of the record and for compressed and uncompressed files. Values with a special meaning (undefined, not available, infinities, eps, NaN, negative zero) come back as the documented special value, and a scalar written without a record reads as the documented default record of its subtype.',
  'inputs', 'every double below the acronym range in every field; every symbol type, writer, reader and compression setting within the stated sizes',
  'the value encoding is a branchy per-byte compression with special value tags; a unit test samples a handful of doubles out of 2^64',
  [G, S], [{'name': 'value tags, DoWrite/DoRead', 'where': G}, {'name': 'double codec', 'where': S}, {'name': 'default records', 'where': G}],
  'write then read through the public API with an arbitrary 64-bit value in every field position')
m('C02', 'Raw integer keys: accepted exactly when increasing, read back exactly',
  'When records are written with integer keys, a record is accepted exactly when its key is lexicographically greater than the last accepted one; every other record is rejected, counted and listed with its key and values, and never reaches the file. Reading returns exactly the accepted keys in order, each with its own values and the correct first changed dimension, for every key range, dimension and key bounds hint.',
  'inputs', 'every sequence of keys (all integers the format can represent) of the stated lengths and dimensions, with and without key bounds',
  'key storage switches between one, two and four byte elements and delta encoding depending on value ranges, and only specific key distances expose an error',
  [G], [{'name': 'DoWrite/DoRead delta encoding', 'where': G}, {'name': 'InitDoWrite element widths', 'where': G}, {'name': 'error list', 'where': G}],
  'reference model of accepted/rejected records against the real writer and reader, keys arbitrary integers')
m('C03', 'Writing by label or user number in any order stores sorted, complete data',
  'Whatever the order in which records are written by label or by registered user number, the file contains exactly one record per distinct key, sorted by key, each with the values first written for it; labels are compared ignoring case and trailing blanks and are numbered in order of first use. Every duplicate is counted and listed with its key and values, every record with an invalid label or unregistered number is refused and counted, and neither changes any other record.',
  'inputs,histories', 'every sequence of write calls of the stated lengths over a set of labels or numbers with respellings, duplicates and invalid keys',
  'the number of orders and duplicate patterns grows exponentially and index ranges switch storage width at 255 and 65535 labels',
  [G, 'src/gdlib/datastorage.hpp', 'src/gdlib/strhash.hpp'], [{'name': 'sort list', 'where': 'src/gdlib/datastorage.hpp'}, {'name': 'label table', 'where': 'src/gdlib/strhash.hpp'}, {'name': 'string and mapped writers', 'where': G}],
  'reference model (stable sort, first record wins) against the real writer and three readers')
m('C04', 'Names, labels and texts survive a write/read cycle',
  'Symbol names, labels, explanatory texts, set element texts, symbol comments, acronym texts, domain names and the producer string read back character for character, with only the documented changes: labels lose trailing blanks, texts have control characters replaced by question marks and mixed quotes replaced by the first quote, and texts beyond 255 characters are cut (explanatory texts with an overflow marker). Names that are not identifiers of at most 63 characters and labels with control characters, mixed quotes or more than 63 characters are refused, reported and not stored; no other text of the file is affected.',
  'inputs', 'every byte content in the free positions of texts at and around the length limits',
  'validity and normalisation depend on every byte value and on lengths at the 63/255 limits; tests use a few ASCII words',
  [G, 'src/gdlib/gmsobj.hpp', 'src/gdlib/strhash.hpp', S], [{'name': 'text normalisation', 'where': G}, {'name': 'string storage', 'where': S}, {'name': 'name, label and text lists', 'where': 'src/gdlib/strhash.hpp'}],
  'symbolic text bytes through the public API, reference normalisation and validity predicates')
m('C05', 'Label registry: unique, stable numbers, user numbers and renames',
  'Labels compare ignoring case and trailing blanks: each distinct label has exactly one number, assigned in order of first registration and never changed, and keeps the user number first given to it (a different, negative or already used number is refused and reported). Look-up by text, by number and by user number always agree with the registrations made so far, a rename succeeds exactly when the old label exists, the new one is valid and not in use and then applies to every record and look-up, and the labels read back from the file are the same in the same order.',
  'inputs,histories', 'every history of registrations, renames and look-ups of the stated length, on files being written and read',
  'the registry is a hash table with separate user mapping and rename logic; interactions depend on the order of operations',
  [G, 'src/gdlib/strhash.hpp'], [{'name': 'label table', 'where': G}, {'name': 'hash list', 'where': 'src/gdlib/strhash.hpp'}, {'name': 'registration and rename calls', 'where': G}],
  'operation sequences against a list model, all look-ups compared after every step')
m('C06', 'Mapped and filtered reading returns exactly the matching records',
  'Reading a symbol by user number with a per-position action (unmapped, strict, expanding or a filter) returns exactly the records every position of which satisfies its action, each once, in increasing order of the returned numbers, with its own values and the correct first changed dimension. Every other record is rejected and the first ones are listed with the key and values in the file; expanding gives new labels the next free numbers in file order, and nothing else about the file or the registry changes. Unknown filters, numbers without label and invalid symbol numbers are refused and leave the handle usable.',
  'inputs,configurations', 'every mapping, filter and combination of actions over small files',
  'the actions are combined per position and interact with registrations; the sort order of the result differs from the file order',
  [G], [{'name': 'PrepareSymbolRead and action codes', 'where': G}, {'name': 'filters', 'where': G}, {'name': 'expansion of the user map', 'where': G}],
  'reference selection and ordering against the real reader')
m('C07', 'Domain checking while writing and domain information round trip',
  'After a domain has been set for a symbol being written, a record is stored exactly when each of its elements belongs to the (one-dimensional set, alias or universe) domain of its position; every violating record is kept out of the file, and every violating element is reported and listed with its position marked. A domain name that is not a known set or alias, or whose elements are not tracked while that is disallowed, is refused with the documented error. Strict and relaxed domain information read back per position exactly as last set, and relaxed information never affects data.',
  'inputs,configurations', 'every combination of domain names, domain set contents and record keys within the stated sizes',
  'acceptance depends on alias chains, bitmaps that grow with element numbers, and on the combination of positions',
  [G, 'src/gdlib/gmsobj.hpp'], [{'name': 'gdxSymbolSetDomain', 'where': G}, {'name': 'domain violation test in DoWrite', 'where': G}, {'name': 'element bitmap', 'where': 'src/gdlib/gmsobj.hpp'}],
  'membership model against the real writer')
m('C08', 'Special values keep their meaning under any encodings in force',
  'Any five pairwise different doubles can be chosen as undefined, not available, plus and minus infinity and eps, and equal ones are refused without effect; a value is classified as the special value whose encoding it equals bit for bit, and reset or opening a file restores the documented defaults. A value written while it is the encoding of a special value reads as the encoding of that special value in force for reading, whatever read encodings were set, and every other value reads unchanged; the file does not depend on the encodings.',
  'inputs,histories', 'every encoding and value (all 64-bit patterns), every history of set, read-set and reset of the stated length',
  'encodings are compared bit for bit with 2^64 possible values each, including NaN payloads, zeros and infinities',
  [G, 'src/gdlib/dblutil.cpp'], [{'name': 'gdxSetSpecialValues, gdxSetReadSpecialValues, gdxMapValue', 'where': G}, {'name': 'value tags in DoWrite/DoRead', 'where': G}],
  'symbolic encodings and values through the public API')
m('C09', 'Acronyms: table, values and renumbering are consistent',
  'Every acronym used in data is in the table of the file with its index, a unique name and text, whether it was added explicitly or by use; additions and namings that conflict with an existing name or index, or address no entry, are refused, reported and have no effect. Values and indices convert into each other without loss and no other value is taken for an acronym. While reading, each acronym value is returned with the number registered for it, else the next automatic number if enabled, else its own number, or as not available when so configured, and the mapping reported matches.',
  'inputs,histories', 'every history of additions, uses, namings and renumberings of the stated length; every index in the stated ranges',
  'the table is built implicitly by data and by three different calls whose interactions depend on order',
  [G, 'src/gxfile.hpp'], [{'name': 'gdxAcronym* functions, AcronymRemap', 'where': G}, {'name': 'TAcronymList', 'where': G}],
  'list model of the acronym table against the real calls')
m('C10', 'Calls out of sequence are refused without effect',
  'Every call that is not allowed in the current state of the handle (no open file, another phase of writing or reading, a registration or filter in progress) is refused with a false result and a reported error, and never crashes. A refused call changes neither the data, labels and symbols already written nor the file being read, and the session can be continued and finished normally. Closing with a write or registration still in progress finishes it, and the file then contains exactly what was accepted.',
  'histories', 'every sequence of calls of the stated length from every mode',
  'the state machine has about twenty modes and over sixty entry points; tests walk the allowed sequences only',
  [G], [{'name': 'CheckMode / MajorCheckMode and mode sets', 'where': G}, {'name': 'gdxClose', 'where': G}],
  'explicit mode model against the real calls, file contents compared afterwards')
S = 'src/gdlib/gmsstrm.cpp'
m('C11', 'A file that was not written completely is never taken for a complete one',
  'Whenever writing a new file stops before gdxClose has finished (the process ends after any number of file writes, or within one), opening that file is refused with an error, as is a complete file that was cut at any length; only after all of its content is in the file does it become readable. When appending stops early, the file is refused, or still is exactly the old file, or already is the complete new one. A refusal never crashes, and the handle can open another file afterwards.',
  'crash_points', 'every crash point of a session (between and inside file writes) and every truncation length',
  'whether a partial file is recognised depends on the order of the buffered writes at every possible stopping point',
  [G, S], [{'name': 'marker and index written last in gdxClose', 'where': G}, {'name': 'section markers checked by gdxOpenReadXX', 'where': G}, {'name': 'buffering and seeking', 'where': S}],
  'write log of the real code, crash image for symbolic position, real reader on the image')
m('C12', 'Write errors are reported',
  'If any file write of a session fails (for example because the disk is full), this is reported at the latest by the result of gdxClose, for new and appended files, compressed or not, with automatic conversion on or off; if gdxClose returns 0, the file can be opened and contains everything that was written, even if individual writes were short. An error while opening a file for reading is reported by the open call, which either fails with an error number or delivers the intact file. The handle remains usable for other files afterwards.',
  'fault_sequences', 'every position of the failing write (error, short, persistent) and of a failing read during open',
  'errors occur in buffer flushes far away from the call that caused them; no test injects them',
  [G, S, 'src/rtl/p3utils.cpp'], [{'name': 'last I/O result', 'where': S}, {'name': 'gdxClose result', 'where': G}, {'name': 'p3FileWrite', 'where': 'src/rtl/p3utils.cpp'}],
  'fault position symbolic in the file model')
m('C13', 'Foreign or damaged files are refused cleanly',
  'Opening for reading or appending anything that is not a GDX file, or one whose byte order header, identification, version, compression flag, index marker or section names are damaged, or a compressed one with a block head that claims more than a block can hold, is refused with an error number and message and never crashes or hangs; a file of a newer version is refused. If such a file is opened nevertheless, the damage did not affect it and everything reads back intact. After a refusal the same handle opens other files normally.',
  'inputs', 'every file content within the stated sizes; every value of the stated header fields',
  'there are astronomically many ill-formed files; tests try a handful',
  [G, S], [{'name': 'gdxOpenReadXX', 'where': G}, {'name': 'TMiBufferedStream::DetermineByteOrder', 'where': S}],
  'symbolic file bytes read by the real code')
m('C14', 'Files follow the GDX layout in both directions',
  'A file written by the library has the established GDX version 7 layout (header, data sections, symbol, text, label, acronym and domain tables with their positions), so that an independent decoder of that layout recovers exactly what was written. Conversely every file in that layout is read exactly, also in versions 5 and 6, with duplicate element texts, with the extra label of early files, in either byte order, and whichever of the alternative encodings of a record was chosen by its writer.',
  'inputs,configurations', 'every value, record pattern, version and byte order within the stated sizes, against an independent codec',
  'writer and reader can change in step and still pass all round-trip tests while being incompatible with every existing file',
  [G, S], [{'name': 'DoWrite, DoRead, gdxClose, gdxOpenReadXX', 'where': G}, {'name': 'byte order handling', 'where': S}],
  'independent encoder and decoder of the layout (h/ref.h)')
m('C15', 'Appending keeps the old content and adds exactly the new',
  'After a file has been opened for append, extended and closed, any number of times, it contains every symbol, record, label, element text, acronym, comment and domain it had before, unchanged and with the same numbers, followed by exactly what was added, and its compression stays as it was. New data may refer to old labels, texts, sets and acronyms, and names already in use are refused. A file that cannot be extended correctly (older version, foreign byte order, duplicate element texts) is refused with an error number and not touched.',
  'histories', 'every sequence of write operations of the stated length split over every choice of append sessions',
  'the tables of the old file are re-read and rewritten behind the new data; numbers in old data must keep their meaning',
  [G], [{'name': 'gdxOpenAppend, gdxOpenReadXX', 'where': G}, {'name': 'gdxClose', 'where': G}], 'operation sequences against a model of the whole file')
m('C16', 'Compression is invisible to the user of a file',
  'A file written with any non-zero compression flag is marked compressed and delivers through every call exactly what the same session delivers from a plain file, whether or not a block became smaller by compression and wherever the block limits fall in records, labels, texts and names. Symbols can be read in any order and repeatedly. The environment variable GDXCOMPRESS decides for gdxOpenWrite exactly as documented.',
  'inputs,configurations', 'every small combination of symbols, every alignment of the block limit, both outcomes of compressing a block',
  'block limits fall at arbitrary bytes; stored and compressed blocks take different code paths that small tests never mix',
  [S, G], [{'name': 'TBufferedFileStream flush and fill', 'where': S}, {'name': 'SetCompression calls', 'where': G}], 'symbolic values through the real stream code with a zlib contract')
m('C17', 'Containers behave like their abstract models',
  'The record store returns all records added, each with its own data, in increasing key order with equal keys in the order added. The label hash lists number entries in order of addition, never store two equal ones (ignoring case, or not, as the class says), find exactly the entries present under their current name and keep text and object of each, however often they grow, are renamed or cleared. Bit sets, integer maps, pointer and string lists, pools, record tables, growing arrays and the batch allocator hold exactly what was put in and not removed, across all of their growth steps.',
  'histories,inputs', 'every sequence of operations of the stated length, starting empty or just below a growth threshold',
  'growth, rehashing and sorting have thresholds of hundreds to thousands of elements that tests do not combine with further operations',
  ['src/gdlib/datastorage.hpp', 'src/gdlib/strhash.hpp', 'src/gdlib/gmsobj.hpp', 'src/gdlib/gmsdata.hpp', 'src/gdlib/batchalloc.hpp', G],
  [{'name': 'TLinkedData radix sort', 'where': 'src/gdlib/datastorage.hpp'}, {'name': 'TXStrHashList', 'where': 'src/gdlib/strhash.hpp'}, {'name': 'lists and bit set', 'where': 'src/gdlib/gmsobj.hpp'}, {'name': 'TIntegerMapping', 'where': G}], 'operation sequences against list models')
m('C19', 'Values written to a stream are the values read back',
  'Bytes, words, integers, 64-bit integers, doubles, strings and the packed integer and number formats written to a buffered stream are read back unchanged, wherever they lie relative to the buffer limits, with and without compression. Text files written plain, packed or protected return exactly their text, again after rewinding, with the password they were written with and never without one, line by line in every reading interface and for gzip files. A byte order mark of UTF-8 is skipped, other encodings are refused.',
  'inputs,configurations', 'every value of every type, every position relative to the buffer limit, passwords and texts of the stated lengths',
  'values cross buffer limits at arbitrary offsets; passwords produce arbitrary bytes',
  [S], [{'name': 'TMiBufferedStream typed reads and writes', 'where': S}, {'name': 'TBinaryTextFileIO', 'where': S}, {'name': 'TXFileStream::ApplyPassWord', 'where': S}, {'name': 'TGZipInputStream', 'where': S}], 'symbolic values through the real stream code')
m('C23', 'All ways of reading a symbol show the same records',
  'Raw reading, reading with labels, the callback readers, the filtered callback, slices, domain elements and label lengths all deliver exactly the records of the symbol, in the same order with the same values, for symbols, aliases and the universe; a callback that asks to stop is not called again. Filters and slices select exactly the records with the given labels, are refused for labels that do not exist, and slice indices translate back to the labels they stand for. Element numbers without label are shown as ?L__n and never lead to other data.',
  'inputs,configurations', 'every subset of records, every filter per position, every symbol type',
  'each reader is a separate loop over the same data; tests use one or two of them per file',
  [G], [{'name': 'gdxDataReadRaw, gdxDataReadStr, gdxDataReadRawFast, gdxDataReadRawFastEx, gdxDataReadRawFastFilt', 'where': G}, {'name': 'gdxDataReadSliceStart, gdxDataReadSlice, gdxDataSliceUELS', 'where': G}, {'name': 'gdxGetDomainElements, gdxSymbIndxMaxLength', 'where': G}], 'reader results against the list of records written')
m('C24', 'The catalogue of a file describes exactly what was written',
  'After any sequence of symbols, aliases, comments, set texts, labels and acronyms, the counts, names, dimensions, types, user info, explanatory texts, record counts, domains, comments, text node numbers and lookups by name (ignoring case) are those of what was written, before closing and after reopening. Refused definitions leave no trace in the catalogue. Numbers and names outside of the catalogue are refused without changing the result variables of others.',
  'histories,inputs', 'every sequence of definitions of the stated length including invalid ones',
  'the catalogue is spread over several tables written at close; tests look at few symbols and few fields',
  [G], [{'name': 'gdxSystemInfo, gdxSymbolInfo, gdxSymbolInfoX, gdxFindSymbol', 'where': G}, {'name': 'gdxAddAlias, gdxSymbolAddComment, gdxAddSetText', 'where': G}, {'name': 'gdxClose (tables), gdxOpenReadXX', 'where': G}], 'definition sequences against a model catalogue')
m('C25', 'Symbols, reads and handles do not influence each other',
  'Two files written at the same time through two handles, in any interleaving of the calls, are byte for byte the files that would be written one after the other. The records returned for a symbol do not depend on what was read before, completely or only in part, with which method, and the records kept and rejected of a symbol being written do not depend on the symbols written before it. Several handles reading the same or different files while another one writes each see their own data and their own errors.',
  'schedules,histories', 'every interleaving of the calls with the stated number of switches, every sequence of reads of the stated length',
  'shared or left-over state shows only for particular orders of calls on several handles or symbols',
  [G, S], [{'name': 'state of TGXFileObj between symbols', 'where': G}, {'name': 'PrepareSymbolRead', 'where': G}, {'name': 'static data', 'where': S}], 'interleavings as solver choices, compared with the sequential result')
m('C26', 'The buffered stream behaves like a flat file',
  'For any sequence of writes, reads and seeks on a stream, of any size relative to the 32 KiB buffer, every read returns exactly the bytes at that place, the position is right after each operation and the file finally holds exactly what was written. Regions written with compression switched on and off, of any size, are read back exactly, in any order and in pieces of any size.',
  'histories,inputs', 'every sequence of operations of the stated length with sizes around the buffer limits',
  'buffer refill and flush logic fails only for particular combinations of sizes, positions and modes',
  [S], [{'name': 'TBufferedFileStream::Read, Write, SetPosition, FlushBuffer', 'where': S}, {'name': 'compressed blocks', 'where': S}], 'operation sequences against a byte array')
m('C21', 'gdxdiff reports exactly the differences of two files',
  'gdxdiff writes to its difference file exactly the records that differ between two GDX files: those present in only one of them, with their values, as ins1 or ins2, and those whose values differ by more than Eps and RelEps, with both values, as dif1 and dif2; equal values, including special values, are never reported and a differing record is never missed. Options restrict the comparison exactly as documented (one field, selected symbols, defaults, domains, set texts, label order). Symbols that cannot be compared or are in one file only are listed with the reason, the difference file names the files compared in FilesCompared, and the exit code is zero exactly if no difference was found.',
  'inputs,configurations', 'every presence and combination of values of the records within the stated sizes, per option',
  'the merge of two sorted sequences has many cases per record pair, type and option; the test compares one pair of files',
  ['src/tools/gdxdiff/gdxdiff.cpp'], [{'name': 'CompareSy, CompareSyOrdered, DoublesEqual', 'where': 'src/tools/gdxdiff/gdxdiff.cpp'}, {'name': 'main', 'where': 'src/tools/gdxdiff/gdxdiff.cpp'}],
  'the real main function of the tool on two symbolic files')
m('C20', 'gdxmerge keeps every record of every file',
  'After gdxmerge, the merged file holds each symbol of the input files (or those selected by ID or Exclude, ignoring case) exactly once, with its name, type, subtype and explanatory text, and exactly the records of all input files with the name of the file as additional first index, with values, element texts and acronyms as they were, in normal mode and for symbols processed as big ones. A symbol that does not match in type, dimension or subtype, or has too many dimensions, is reported and left out for that file only. The list of merged files is complete, files that cannot be read or do not exist are reported, and strict mode ends with an error for them and never replaces existing output.',
  'inputs,configurations', 'every combination of symbols, records and values of the files within the stated sizes, per mode',
  'normal and big mode are different code; tests merge a few fixed files in normal mode',
  ['src/tools/gdxmerge/gdxmerge.cpp'], [{'name': 'SymbolList::AddPGXFile, CollectBigOne, WritePGXFile', 'where': 'src/tools/gdxmerge/gdxmerge.cpp'}, {'name': 'ShareAcronyms, KeepNewAcronyms', 'where': 'src/tools/gdxmerge/gdxmerge.cpp'}],
  'the real main function of the tool on symbolic files')
m('C22', 'gdxdump shows exactly the content of a file',
  'The text written by gdxdump for a file, read as GAMS data statements, contains exactly the acronyms, symbols with type, subtype, name, domains, explanatory text and comments, and the records with labels, values and texts of the file, leaving out only fields that have their default value when filtering is on. The CSV format holds one line per record (or per row with the last index as columns) with all index columns under distinct names, and is read back exactly by a CSV reader whatever quotes and delimiters the labels contain; the lists of symbols, domains, set texts and labels are complete and correct, and elements without label are shown as L__n.',
  'inputs,configurations', 'every subset of records, every listed value, text and option within the stated sizes, through an independent parser',
  'output is free text; tests compare a few fixed dumps and never read one back',
  ['src/tools/gdxdump/gdxdump.cpp', 'src/tools/library/common.cpp'], [{'name': 'WriteSymbol, WriteSymbolCSV', 'where': 'src/tools/gdxdump/gdxdump.cpp'}, {'name': 'WriteAcronyms, WriteSymbolInfo, WriteDomainInfo, WriteSetText', 'where': 'src/tools/gdxdump/gdxdump.cpp'}],
  'the real main function of the tool on symbolic files, output parsed independently')
m('C27', 'Every language interface behaves exactly like the class',
  'A call through any of the exported interfaces (C functions bound by the loader, the C++ wrapper, exported C entry points, short string, string array and Fortran style entry points) returns the same result, output parameters, callbacks, error state and file content as the same call of the class, for every function, every argument and in every state of the handle. Failing calls never read or write memory outside of the arguments. The library accepts exactly the client versions and signatures it is compatible with.',
  'inputs,histories', 'every function, in every state of a handle, with arbitrary arguments within the stated ranges',
  'the generated glue has several hundred small functions, most of which no test calls, and a swapped or dropped argument shows only in one of them',
  ['generated/gdxcclib.cpp', 'generated/gdxcwrap.h', 'generated/gdxcc.c', 'generated/gdxcppwrap.hpp'], [{'name': 'exports', 'where': 'generated/gdxcclib.cpp'}, {'name': 'forwarding functions', 'where': 'generated/gdxcwrap.h'}, {'name': 'loader', 'where': 'generated/gdxcc.c'}, {'name': 'callback styles', 'where': G}],
  'the same symbolic call on two handles, class and interface, results and files compared')
m('C28', 'Nothing stays in use after a handle is freed or closed',
  'However a handle was used (any calls in any state, refused calls, unfinished reads, writes and registrations, refused or damaged files, failing accesses), after gdxClose no file is open, and after the handle is freed, with or without closing it first, all memory it used is released exactly once. A handle that is opened and closed again and again for the same activities needs no more memory than before.',
  'histories,fault_sequences', 'every call in every state, every pair of activities, every damaged header and every failing access within the stated sizes',
  'a leak never fails a test: the program that shows it is one that runs for days',
  [G, S, 'generated/gdxcclib.cpp'], [{'name': 'gdxClose, ~TGXFileObj', 'where': G}, {'name': 'gdxOpenReadXX (refusals)', 'where': G}, {'name': 'TXFileStream, TBufferedFileStream', 'where': S}],
  'the same symbolic session repeated, allocated blocks and open files compared')
