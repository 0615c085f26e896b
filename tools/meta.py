"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one description (for the maintainers; no check runs this)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = 'amazon/ion/'
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, observe=observe, technique=technique, note=note, state=state))


TRUST = 'Random search with a fixed seed: it never establishes absence. Trusts the reference model in /verif/ionpbt. '

prop('C01', 'Binary Ion round trip',
     'Whatever Ion values a program writes as binary Ion, reading the result back gives the same values: the same types, contents, '
     'annotations, nulls, order and repeated field names, exactly. This holds for whole streams and single values, for the byte-string and '
     'the file interfaces, with and without shared symbol table imports, and for writers driven event by event.',
     ['inputs', 'configurations'],
     'every list of Ion values (13 types, all nulls, nesting, annotations, repeated fields, long and boundary-length payloads) x '
     'representations as Python objects x entry points x imported shared tables',
     'The tests round-trip a few dozen hand-picked literals; lengths at which headers change size, mixes of nesting, annotations and '
     'symbol reuse, and precision of numbers and times are sampled at single points.',
     [I + f for f in ('simpleion.py', 'writer_binary.py', 'writer_binary_raw.py', 'writer_binary_raw_fields.py', 'writer_buffer.py',
                      'reader_binary.py', 'reader_managed.py', 'symbols.py', 'core.py')],
     [dict(name='length-prefixed buffering of containers and annotations', where=I + 'writer_buffer.py, writer_binary_raw.py'),
      dict(name='symbol table collection and flush', where=I + 'writer_binary.py'),
      dict(name='type-descriptor dispatch and value parsers', where=I + 'reader_binary.py')],
     ['simpleion.dumps/loads', 'simpleion.dump/load', 'binary_writer, binary_reader, managed_reader'],
     'property-based testing: round trip of generated values against a reference data model',
     TRUST + 'Ints and decimal coefficients stay below 4300 digits.')

prop('C02', 'Text Ion round trip under every writer option',
     'Whatever Ion values a program writes as text Ion, with or without indentation and version marker, reading the text back, as a '
     'string or as UTF-8 octets, gives the same values exactly. Symbols and field names whose text looks like a keyword, a number, a symbol ID, '
     'an operator or a version marker come back as that text.',
     ['inputs', 'configurations'],
     'every list of Ion values x text options (indentation strings, version marker, tuple handling) x str/bytes input x entry points',
     'Tests cover fixed literals and two or three indentations; quoting, escaping and delimiters depend on the neighbouring value and on '
     'every character class.',
     [I + f for f in ('simpleion.py', 'writer_text.py', 'reader_text.py', 'writer.py', 'core.py')],
     [dict(name='symbol quoting rules, escapes, number formatting, indentation', where=I + 'writer_text.py'),
      dict(name='tokenising state machine', where=I + 'reader_text.py')],
     ['simpleion.dumps(binary=False)/loads', 'text_writer, text_reader'],
     'property-based testing: round trip of generated values against a reference data model',
     TRUST + 'Ints and decimal coefficients stay below 4300 digits.')

prop('C03', 'Every legal text spelling is read as the specified value',
     'Any text that the Ion 1.0 specification allows for a value (any whitespace, comments, quoting style, escape sequence, radix, digit '
     'separators, concatenated long strings, symbol IDs, operators in S-expressions) is read as exactly that value.',
     ['inputs'],
     'all values x all legal spellings of them x layout between tokens x str, bytes and file input',
     'The repository carries no ion-tests vectors at this revision and its good-input tests are a table of literals; combinations of a spelling '
     'with the token that precedes or follows it are what goes wrong.',
     [I + 'reader_text.py', I + 'reader_managed.py', I + 'symbols.py'],
     [dict(name='per-token coroutines, escape handling, long string concatenation', where=I + 'reader_text.py')],
     ['simpleion.loads/load', 'text_reader'],
     'property-based testing: an independent renderer produces legal spellings of known values',
     TRUST + 'Spellings the specification leaves open or the documentation lists as unsupported are not generated.')

prop('C04', 'Every legal binary encoding is read as the specified value',
     'Any octets that the Ion 1.0 specification allows for a value (over-long length fields, padded subfields, every length form, NOP pads, '
     'ordered structs, either float width, redundant version markers, symbol tables of any shape) are read as exactly that value.',
     ['inputs'],
     'all values x all legal encodings of them x file and byte-string input',
     'Unit tests feed a table of single encodings; the reader is otherwise only exercised with what this library writes, which uses one '
     'encoding of each value.',
     [I + 'reader_binary.py', I + 'reader_managed.py', I + 'symbols.py'],
     [dict(name='type-descriptor table, VarUInt/VarInt/Int/UInt parsers', where=I + 'reader_binary.py')],
     ['simpleion.loads/load', 'binary_reader'],
     'property-based testing: an independent encoder produces legal encodings of known values',
     TRUST + 'Encodings the specification leaves open are not generated.')

prop('C05', 'Invalid binary data is refused, never misread',
     'Octets that are not valid binary Ion (truncated, lengths that disagree with their container, reserved type codes, illegal nulls, '
     'bad annotations, impossible dates, and so on) make reading fail; they are never silently decoded as some other value. Octets that '
     'are valid despite the damage are read as exactly what they now say.',
     ['inputs', 'fault_sequences'],
     'mutations of valid streams (bit flips, inserts, deletes, splices), truncations at every place, crafted single violations embedded at any '
     'depth, and octets put together at random',
     'The tests list some thirty bad inputs; a corrupt length or type code can occur anywhere in any structure.',
     [I + 'reader_binary.py', I + 'reader_managed.py'],
     [dict(name='length limits of containers, length checks of scalars, type-descriptor table', where=I + 'reader_binary.py')],
     ['simpleion.loads'],
     'mutation and grammar-based fuzzing with a strict reference decoder as differential oracle',
     TRUST + 'Inputs whose meaning the specification leaves open are counted as unsure and not judged; damage within a symbol table is not judged.')

prop('C06', 'Invalid text is refused, never misread',
     'Text that is not valid Ion makes reading fail; it is never silently accepted or turned into some other value. Text that remains '
     'valid after an arbitrary edit is read as exactly what it now says.',
     ['inputs', 'fault_sequences'],
     'edits of valid text (insert, delete, replace, splice, truncate at every place), crafted violations embedded in any context, '
     'and sequences of tokens put together at random',
     'The tests have a table of bad literals, nearly all at the top level and followed by the end of input.',
     [I + 'reader_text.py'],
     [dict(name='illegal-character checks of the token coroutines, field and delimiter state', where=I + 'reader_text.py')],
     ['simpleion.loads'],
     'mutation and grammar-based fuzzing with a strict reference parser as differential oracle',
     TRUST + 'Inputs whose meaning the specification or documentation leaves open are not judged.')

prop('C07', 'Text reading does not depend on how the input arrives',
     'The events a text reader delivers, and whether it refuses the input, depend only on the concatenation of the data it was given: '
     'never on where that data was cut into pieces, nor on when the reader was asked to go on. This includes input that arrives one '
     'character or one octet at a time and short reads of files.',
     ['inputs', 'schedules'],
     'text streams (valid, invalid, mutated) x every way to cut them x non-blocking, blocking and managed readers x str and octets',
     'Tests cut a few literals at fixed places; each state of each token is a place where the input may end.',
     [I + 'reader_text.py', I + 'reader.py', I + 'reader_managed.py', I + 'util.py'],
     [dict(name='buffer queue and resumable coroutines', where=I + 'reader.py, ' + I + 'util.py')],
     ['text_reader with read_data_event', 'blocking_reader', 'simpleion.load'],
     'metamorphic property-based testing: the same input cut in generated ways',
     TRUST + 'Refusals are compared by the fact and by the events before them.')

prop('C08', 'Binary reading does not depend on how the input arrives',
     'The events a binary reader delivers, and whether it refuses the input, depend only on the concatenation of the data it was given: '
     'never on where that data was cut into pieces, nor on when the reader was asked to go on. This includes input that arrives one '
     'octet at a time and short reads of files.',
     ['inputs', 'schedules'],
     'binary streams (valid, invalid, mutated) x every way to cut them x non-blocking, blocking and managed readers',
     'Tests cut a few literals at fixed places; each header, length field and payload is a place where the input may end.',
     [I + 'reader_binary.py', I + 'reader.py', I + 'reader_managed.py', I + 'util.py'],
     [dict(name='buffer queue, incomplete-data transitions', where=I + 'reader_binary.py, ' + I + 'reader.py')],
     ['binary_reader with read_data_event', 'blocking_reader', 'simpleion.load'],
     'metamorphic property-based testing: the same input cut in generated ways',
     TRUST + 'Refusals are compared by the fact and by the events before them.')

prop('C09', 'Skipping lands exactly after the skipped container',
     'A program that walks a stream with any mixture of stepping and skipping sees exactly the events of the full walk minus the skipped '
     'remainders of containers: skipping leads to the end of the innermost open container, and what follows is read unchanged. This '
     'holds in text and binary, at any depth, and however the input is cut into pieces.',
     ['inputs', 'histories', 'schedules'],
     'streams x sequences of next/skip requests x cuts of the input x text/binary, managed or not, blocking or not',
     'Tests skip at a handful of places in small containers that arrive as a whole.',
     [I + 'reader_text.py', I + 'reader_binary.py', I + 'reader.py', I + 'reader_managed.py'],
     [dict(name='container skip', where=I + 'reader_text.py (_skip_container), ' + I + 'reader_binary.py (skip)')],
     ['NEXT/SKIP events sent to readers'],
     'model-based property testing of navigation histories',
     TRUST)

prop('C10', 'Symbol IDs resolve by the symbol tables in force',
     'A symbol ID in a stream denotes what the version markers and local symbol tables before it, and the shared tables they import, say: '
     'tables replace or append, imports resolve exactly, by best match or to placeholders, and IDs without text or beyond the '
     'table are unknown or refused. The same holds in text and in binary, and for field names, annotations and values alike.',
     ['inputs', 'histories', 'configurations'],
     'histories of version markers, local symbol tables (with malformed parts) and values x catalogs x text/binary x load/events',
     'Tests have a dozen fixed tables; the meaning of an ID depends on the whole history and on the catalog.',
     [I + 'reader_managed.py', I + 'symbols.py', I + 'simpleion.py'],
     [dict(name='managed reader context and table construction', where=I + 'reader_managed.py'),
      dict(name='symbol table and catalog resolution', where=I + 'symbols.py')],
     ['simpleion.loads with catalog', 'managed_reader events'],
     'model-based property testing: generated symbol-table histories against a reference resolver',
     TRUST + 'Repeated imports/symbols fields are not generated; max_id of imports stays below 400.')

prop('C11', 'The binary writer only produces valid binary Ion',
     'Everything the binary writer produces is a well-formed Ion 1.0 stream that means the values it was given, as judged by a strict '
     'decoder which is not this library: version marker, symbol tables before use, exact lengths, no reserved encodings.',
     ['inputs', 'configurations'],
     'lists of Ion values and event sequences x imports x entry points',
     'Round-trip tests cannot see a writer error the library\'s own lenient reader shares.',
     [I + f for f in ('writer_binary.py', 'writer_binary_raw.py', 'writer_binary_raw_fields.py', 'writer_buffer.py', 'simpleion.py')],
     [dict(name='raw serialisers and buffer tree', where=I + 'writer_binary_raw.py, ' + I + 'writer_buffer.py')],
     ['simpleion.dumps/dump', 'binary_writer'],
     'differential property-based testing: generated values, strict independent decoder',
     TRUST)

prop('C12', 'The text writer only produces valid text Ion, whatever the options',
     'Everything the text writer produces is well-formed Ion 1.0 text that means the values it was given, as judged by a strict parser '
     'which is not this library. Options only change layout: indentation adds whitespace and line breaks, and the version '
     'marker is present exactly when it was not omitted.',
     ['inputs', 'configurations'],
     'lists of Ion values, symbols of every shape and event sequences x indentation x version marker x entry points',
     'Round-trip tests cannot see a writer error the library\'s own reader shares.',
     [I + 'writer_text.py', I + 'simpleion.py', I + 'writer.py'],
     [dict(name='serialisers and symbol quoting', where=I + 'writer_text.py')],
     ['simpleion.dumps/dump(binary=False)', 'text_writer'],
     'differential property-based testing: generated values, strict independent parser',
     TRUST)

prop('C13', 'Writers accept exactly legal event histories and report completion truthfully',
     'A writer accepts every sequence of events that describes Ion values (with flushes and version markers at the top level) and refuses, with an exception, every '
     'event that cannot come next: values of the wrong type for their Ion type, a missing field name in a struct, ends without a '
     'start, ends of the stream or version markers within containers, absent or incomplete events, and any event while output is '
     'pending. It says COMPLETE only when everything that was sent is in its output as a valid stream, never within a container, '
     'and always after the end of the stream. dump() refuses objects which are not Ion values wherever they are nested, struct keys that are not text, and '
     'indentation that is not made of whitespace.',
     ['inputs', 'histories', 'configurations'],
     'histories of events with one illegal event at any point x binary/text x blocking/non-blocking; unsupported objects at any depth',
     'There are endlessly many prefixes of legal histories in which an illegal event may come.',
     [I + f for f in ('writer.py', 'writer_text.py', 'writer_binary.py', 'writer_binary_raw.py', 'simpleion.py', 'util.py')],
     [dict(name='writer state machines', where=I + 'writer_text.py, ' + I + 'writer_binary_raw.py, ' + I + 'writer_binary.py'),
      dict(name='trampoline and blocking writer', where=I + 'writer.py')],
     ['binary_writer/text_writer/blocking_writer', 'simpleion.dump'],
     'stateful property-based testing: generated event histories with injected illegal events; reference parsers judge the output',
     TRUST)

prop('C14', 'A timestamp keeps what it was made of, and only possible timestamps exist',
     'A Timestamp constructed from fields, from UTC fields with an offset, or read from a text or binary literal has exactly the '
     'local date and time, the offset (or none), the precision and the fractional digits it was given (all of them, beyond '
     'microseconds too), with microsecond being the truncated fraction; datetimes of any kind, with any tzinfo, are written with '
     'their local time, offset (of whole minutes, all that Ion can express) and digits. Fields, offsets and fractions that are out of range or contradict each other are refused.',
     ['inputs', 'configurations'],
     'constructor arguments in every combination, literals of possible and impossible timestamps in both formats, datetimes with several kinds of tzinfo',
     'Calendars, offsets, precisions and digits multiply; tests sample a few dozen.',
     [I + f for f in ('core.py', 'reader_text.py', 'reader_binary.py', 'writer_text.py', 'writer_binary_raw.py')],
     [dict(name='Timestamp construction and conversion from UTC', where=I + 'core.py'),
      dict(name='timestamp parsing and serialisation', where=I + 'reader_text.py, ' + I + 'reader_binary.py, ' + I + 'writer_text.py, ' + I + 'writer_binary_raw.py')],
     ['Timestamp', 'timestamp', 'Timestamp.adjust_from_utc_fields', 'simpleion.loads/dumps'],
     'property-based testing: generated fields against an integer calendar model',
     TRUST + 'Sub-minute offsets, negative zero fractions and years outside 1..9999 in UTC are not judged.')

prop('C15', 'Numbers are exact whatever the ambient decimal context is',
     'Decimals, fractional seconds, ints and floats are read, written, compared and copied exactly, with every digit, exponent and sign, whatever '
     'decimal context (precision, rounding, exponent limits, traps, clamping) the application has set, and that context is left as it was.',
     ['inputs', 'configurations'],
     'numbers of all kinds and timestamps x decimal contexts x formats x entry points',
     'Tests run under the default context, which only bites beyond 28 digits.',
     [I + f for f in ('core.py', 'reader_text.py', 'reader_binary.py', 'writer_text.py', 'writer_binary_raw.py', 'equivalence.py',
                      'simple_types.py')],
     [dict(name='decimal parsing and serialisation', where=I + 'reader_text.py, ' + I + 'reader_binary.py, ' + I + 'writer_binary_raw.py'),
      dict(name='fractional seconds', where=I + 'core.py')],
     ['simpleion.loads/dumps', 'readers and writers', 'ion_equals', 'Timestamp'],
     'property-based testing: generated numbers under generated decimal contexts, reference encoders and decoders',
     TRUST)

prop('C16', 'ion_equals decides equivalence under the Ion data model',
     'ion_equals(a, b) is true exactly when a and b denote equivalent Ion values: same type, same ordered annotations (none when '
     'only one side has an Ion type), numbers equal with precision and sign of zero and not confused between types, '
     'timestamps equal in instant, offset, precision and digits (or only in instant, on request), symbols by text or import '
     'location, sequences elementwise, structs as bags of fields. It is symmetric and reflexive, and values that were written and read are equal '
     'to their originals.',
     ['inputs'],
     'pairs of values which are equal or differ in one small respect x representations (Ion types, plain Python types, mixtures)',
     'Two values can differ in endlessly many small ways at any depth.',
     [I + 'equivalence.py', I + 'simple_types.py', I + 'core.py', I + 'symbols.py'],
     [dict(name='type-directed comparison', where=I + 'equivalence.py')],
     ['equivalence.ion_equals'],
     'property-based testing: pairs related by generated mutations, against equality of an independent data model',
     TRUST)

prop('C17', 'Structs keep every field, including repeated ones, as an ordered multimap',
     'The Python form of a struct keeps every field. Through any history of operations it behaves as a dictionary whose item access gives the '
     'newest value of a name, replaces all values of a name when set and removes them all when deleted; add_item appends, get_all_values '
     'lists the values of a name in order, len and items count every field. Loading fills it with every field of the data and dumping writes every '
     'field it holds, also after it was changed, copied or built from another mapping.',
     ['inputs', 'histories'],
     'histories of mapping operations x names (text, empty, unknown) x structs that are loaded, changed and dumped in both formats',
     'The tests do a handful of single operations; what one operation leaves behind for the next one (an emptied name, order, counts) takes a history.',
     [I + 'core.py', I + 'simple_types.py', I + 'simpleion.py'],
     [dict(name='Multimap and MultimapValue', where=I + 'core.py'), dict(name='filling and iterating structs', where=I + 'simpleion.py')],
     ['core.Multimap', 'simple_types.IonPyDict', 'simpleion.loads/dumps'],
     'model-based property testing: histories of operations against a dictionary of lists, round trips of changed structs',
     TRUST)

prop('C18', 'Symbol tables and catalogs map symbols as specified',
     'A symbol table gives every text the smallest ID it was given and every ID exactly one token, after any history of interning and lookups and '
     'for any imports: system symbols first in local tables, then imports in order, then own symbols, without gaps. Tokens say which table '
     'they come from. Placeholders for missing tables have the requested size and unknown text. A catalog answers with the exact version when its '
     'size fits, else with a table of exactly the requested size made from the best version, or a placeholder.',
     ['inputs', 'histories'],
     'tables (local, shared, substitutes) x imports of imports x repeated and unknown texts x histories of intern/lookup/register/resolve',
     'Tests enumerate small tables with a few parameters; repeated texts across imports, sizes and versions interact.',
     [I + 'symbols.py'],
     [dict(name='SID assignment, interning, lookup', where=I + 'symbols.py SymbolTable'),
      dict(name='best-match resolution', where=I + 'symbols.py SymbolTableCatalog')],
     ['symbols.local_symbol_table, shared_symbol_table, placeholder_symbol_table, substitute_symbol_table', 'SymbolTable', 'SymbolTableCatalog'],
     'model-based property testing: histories of operations against a reference symbol table and catalog',
     TRUST)

prop('C19', 'Copies and pickles of Ion values are equal and independent',
     'copy, deepcopy and pickling (every protocol) of a loaded or constructed Ion value give a value of the same classes, Ion types, annotations, '
     'precision and digits, which ion_equals and dumps cannot tell from the original; changing the copy (its fields or elements in a shallow copy, '
     'anything in a deep one) leaves the original as it was. Timestamps, symbol tokens and shared symbol tables keep all of their properties.',
     ['inputs'],
     'values of every type, loaded and constructed x copy, deepcopy, pickle protocols x changes to the copy',
     'Python reconstructs instances by generic rules that know nothing of what a subclass adds; each class and protocol may lose something else.',
     [I + f for f in ('core.py', 'simple_types.py', 'symbols.py', 'util.py', 'equivalence.py')],
     [dict(name='constructors, reduction and copy support of value classes', where=I + 'core.py, ' + I + 'simple_types.py, ' + I + 'util.py')],
     ['copy.copy, copy.deepcopy, pickle of simple_types, Timestamp, SymbolToken, SymbolTable'],
     'property-based testing: round trip of generated values through copying, metamorphic independence',
     TRUST)

prop('C20', 'Python and Ion types correspond as the documented tables say',
     'dump() writes every supported Python object, its subclasses included, as the Ion type its documentation lists for it, with the '
     'same content, in every position and mixture: tuples as lists or as S-expressions on request, IonPy* values with their Ion type and annotations '
     'or, without Ion type, as their native base. load() delivers each Ion type as the listed class, with Ion type and annotations, and '
     'it behaves like the native type it extends.',
     ['inputs', 'configurations'],
     'values of all types x Python classes that may represent them (native, subclasses with overridden formatting, enums, IonPy* with and without Ion '
     'type) x options x formats',
     'Type dispatch happens per object and per base class order; the tests list one object per type.',
     [I + f for f in ('simpleion.py', 'simple_types.py', 'writer_text.py', 'writer_binary_raw.py')],
     [dict(name='type dispatch', where=I + 'simpleion.py _FROM_TYPE, _ion_type, _dump, _load'), dict(name='value classes', where=I + 'simple_types.py')],
     ['simpleion.dump/dumps/load/loads', 'simple_types'],
     'property-based testing: generated representations of known values, reference decoders',
     TRUST)

prop('C22', 'Files are streams: position, concatenation, single values and sequences',
     'load() reads the values from the current position to the end of any file-like object, in binary or text mode and however few octets a read '
     'returns; with single_value it returns the one value or raises IonException when there are none or several, otherwise the list of all. dump() '
     'appends exactly what dumps() returns at the current position, closes and moves nothing else, writes a sequence as one value or, with '
     'sequence_as_stream, as its elements; streams that were written one after the other are read as one.',
     ['inputs', 'configurations', 'histories'],
     'streams of any number of values x kinds of files and positions x entry points x several writers appending to one file',
     'Tests use BytesIO from position 0 and few streams; every kind of file and every way in which one stream follows another behaves differently.',
     [I + f for f in ('simpleion.py', 'reader.py', 'writer.py', 'reader_managed.py', 'writer_binary.py', 'writer_text.py')],
     [dict(name='format detection, stream termination', where=I + 'simpleion.py load, dump'),
      dict(name='blocking reader and writer', where=I + 'reader.py, ' + I + 'writer.py')],
     ['simpleion.load/loads/dump/dumps', 'blocking_writer'],
     'property-based testing: generated streams through kinds of files, round trip and metamorphic concatenation',
     TRUST)

prop('C23', 'Reading and rewriting in either format keeps the data',
     'Events that a reader delivers can be sent to a writer of either format as they come, whatever wrote the data and with SKIPs in between, '
     'and what is written has exactly the values that were delivered; values that are loaded and dumped again and again, in any sequence of '
     'formats and symbol table imports, never change, and the same values give the same output each time; the events from inside a '
     'container can be written as a stream or container of their own.',
     ['inputs', 'histories'],
     'streams from five kinds of sources x writers of both formats with imports x skips x chains of 1-5 conversions',
     'Readers and writers are tested each on their own; what a reader leaves in an event (depth, field names, SIDs, lazily decoded values) is only seen by the next writer.',
     [I + f for f in ('reader_managed.py', 'reader_binary.py', 'reader_text.py', 'writer_binary.py', 'writer_binary_raw.py', 'writer_text.py', 'simpleion.py', 'core.py')],
     [dict(name='events between readers and writers', where=I + 'core.py IonEvent, ' + I + 'writer_binary.py'),
      dict(name='loading and dumping', where=I + 'simpleion.py')],
     ['binary_reader/text_reader + managed_reader', 'binary_writer', 'text.raw_writer', 'simpleion.loads/dumps'],
     'property-based testing: round trips through chains of generated conversions, reference decoders at each end',
     TRUST)

prop('C24', 'Readers, writers and calls do not influence each other or their arguments',
     'Any number of readers, writers and calls may be active at the same time, with their steps interleaved, in one thread or several, nested in each other (calls made from within '
     'read(), write() or iteration) or after failed ones, and share catalogs and symbol tables: each does exactly what it does on its own. '
     'Calls leave the objects, tables and catalogs they are given unchanged; results share no mutable state with arguments or other results.',
     ['inputs', 'schedules', 'histories'],
     'sets of 2-4 readers and writers x schedules of their steps x calls nested in I/O callbacks x failures x changes to results',
     'Tests run one coroutine at a time to its end; state that is kept in modules, classes or default arguments shows only under interleaving.',
     [I + f for f in ('simpleion.py', 'reader_text.py', 'reader_binary.py', 'reader_managed.py', 'writer_text.py', 'writer_binary.py', 'writer_binary_raw.py', 'writer_buffer.py', 'symbols.py', 'util.py')],
     [dict(name='coroutine state', where=I + 'reader_text.py, ' + I + 'reader_binary.py, ' + I + 'writer_*.py'),
      dict(name='shared tables and catalogs', where=I + 'symbols.py')],
     ['coroutines of readers and writers', 'simpleion.load/loads/dump/dumps'],
     'property-based testing: generated schedules of coroutine steps and nested calls, compared with solitary runs and reference decoders',
     TRUST)

prop('C25', 'Readers deliver what has arrived and signal the end of streams exactly',
     'After any piece of a binary stream the non-blocking reader has delivered every event whose octets have arrived, and then answers STREAM_END '
     'between top-level values and INCOMPLETE within one. Text at whose end NEXT is sent is complete: pending values are delivered, a '
     'text that ends within a value is refused, and the reader goes on with the next text in the same context. Requests that make no sense '
     'at a point (data where none was asked for, NEXT instead of data, SKIP at top level) are refused.',
     ['inputs', 'schedules', 'histories'],
     'streams x divisions into pieces x segments ended by NEXT x prefixes of texts x illegal requests',
     'Tests fix a few divisions and check the final values; which event and which signal follows each piece depends on what the piece ends in.',
     [I + f for f in ('reader.py', 'reader_binary.py', 'reader_text.py', 'reader_managed.py')],
     [dict(name='trampoline and request rules', where=I + 'reader.py reader_trampoline'),
      dict(name='ends of values and streams', where=I + 'reader_text.py, ' + I + 'reader_binary.py')],
     ['binary_reader, text_reader', 'managed_reader', 'blocking_reader'],
     'property-based testing: generated pieces and requests against an outline of the encoding and reference parsers of prefixes',
     TRUST)

prop('C21', 'JSON encoding down-converts every Ion value to valid JSON',
     'json.dumps with IonToJSONEncoder gives valid JSON for every loaded or constructed Ion value, at the top, nested and within Python containers: '
     'nulls of every type, NaN and infinities become null, decimals numbers, S-expressions arrays, timestamps and symbols strings, blobs base64 and clobs '
     'strings with one character per octet; annotations are dropped and repeated fields reduced to the newest value.',
     ['inputs'],
     'values of all types and nestings x loaded from both formats or constructed x positions in Python containers',
     'Its tests hold one or two values per type and do not run on the interpreter available here at all.',
     [I + 'json_encoder.py'],
     [dict(name='type dispatch', where=I + 'json_encoder.py IonToJSONEncoder.default')],
     ['json.dumps(cls=IonToJSONEncoder)'],
     'property-based testing: generated values against a reference down-conversion; the missing base package is replaced by a stand-in',
     TRUST + 'Trusts the stand-ins for sys and for jsonconversion.encoder, which is not installed.')

prop('C26', 'Events, tokens, enumerations and records compare and derive by content',
     'Two events are equal exactly if type, Ion type, value (NaN equals NaN; timestamps also by offset, precision and fraction), field name, annotations '
     'and depth are, lazily computed or not, and != is the opposite; an event derived from another differs in the one attribute named, leaves '
     'the other as it was, and computes no value, which happens on first use and once. Symbol tokens, import locations, enumerations and records '
     'compare, hash and reject by content.',
     ['inputs', 'histories'],
     'pairs of events that differ in at most one or two attributes x lazy and plain x histories of derivations; sets of tokens; generated enumerations and records',
     'Every test of the suite trusts event equality; the tests of equality itself sample a few pairs.',
     [I + f for f in ('core.py', 'symbols.py', 'util.py')],
     [dict(name='IonEvent, IonThunkEvent', where=I + 'core.py'), dict(name='SymbolToken', where=I + 'symbols.py'), dict(name='Enum, record', where=I + 'util.py')],
     ['core.IonEvent, IonThunkEvent', 'symbols.SymbolToken, ImportLocation', 'util.Enum, record'],
     'property-based testing: generated pairs against equality of their specification; model-based histories of derivations',
     TRUST)

#MORE#

def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f, open(os.path.join(HERE, 'MANIFEST.json'), 'w') as m:
        checks = []
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'state': list(p['state']), 'mechanism': p['mechanism'],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
            if not os.path.exists(os.path.join(HERE, 'ionpbt', 'checks', p['id'].lower() + '.py')):
                raise SystemExit('no check for ' + p['id'])
            checks.append({'property': p['id'], 'quick_cmd': 'sh check.sh %s --tier quick' % p['id'],
                           'thorough_cmd': 'sh check.sh %s --tier thorough' % p['id'],
                           'evidence_file': 'evidence/%s.json' % p['id'],
                           'technique': p['technique'], 'level': 'exploration', 'level_note': p['note'].strip()})
        json.dump({'version': 1, 'setup_cmd': 'sh setup.sh', 'checks': checks, 'not_applicable': NA,
                   'notes': 'The checks run under /opt/venv/bin/python (PyPy), the interpreter the repository is built and tested '
                            'with, and import amazon.ion from /repo; nothing is compiled. See DESIGN.md.'}, m, indent=1)
        m.write('\n')


NA = []

if __name__ == '__main__':
    main()
