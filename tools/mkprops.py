#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))

LOAD, SAVE, COPY, FREE = 'src/load.c', 'src/save.c', 'src/copy.c', 'src/free.c'
API = ['return code and outputs of the public calls', "the client's allocation function", 'bytes of the returned data structure']

p('C01', 'A load that fails leaves nothing behind',
  'Whenever loading returns an error, the caller\'s data pointer and entry count are exactly as they were before the call, and every allocation made during the call has been released through the client\'s allocation function. This holds wherever in the document the error is met, however much of the data structure had been built by then. A load that succeeds sets both outputs.',
  ['inputs', 'configurations'], 'every schema, every document and every position at which the document stops satisfying the schema',
  'The tests check one error per test on tiny documents; partial structures are built by arbitrary nesting of pointers, sequences, mappings and defaults before the error.',
  [LOAD, FREE], [('single exit path: free partial data, then outputs only on success', 'cyaml__load, src/load.c'), ('free of partially built values', 'cyaml__free_value, src/free.c')],
  [('partial data', 'structure built so far, reachable from a local root pointer', 'cyaml__load: data, ctx.seq_count')], API)

p('C02', 'Every allocation has exactly one owner and free releases each exactly once',
  'After a successful load or copy, each allocation the library has not released is reachable from the returned data through exactly one pointer, and nothing else is left allocated. Freeing the data with the same schema releases every one of them exactly once, with the client\'s allocation function and context, touching nothing already released and nothing the library does not own.',
  ['inputs', 'configurations', 'histories'], 'every schema shape (pointers, nested fixed and variable sequences, NULL values, defaults, unions of these), every document, every sequence of load, copy and free',
  'Leak checks in the tests cover a few dozen hand-written schemas; ownership is a property of every composition of pointer, sequence and mapping.',
  [FREE, LOAD, COPY], [('schema-directed free', 'cyaml__free_value / cyaml__free_sequence / cyaml__free_mapping, src/free.c'), ('pointer allocation', 'cyaml__data_handle_pointer, src/load.c and src/copy.c')],
  [('heap', 'live blocks obtained from mem_fn', "client's mem_fn")], API)

p('C03', 'Running out of memory is reported and clean, wherever it happens',
  'If the client\'s allocation function refuses any one allocation during a load, copy or save, that call returns the out-of-memory error, its outputs are untouched, and everything it had allocated is released. The data given to a copy or save is unaffected, and the same call succeeds when repeated with memory available.',
  ['fault_sequences', 'inputs'], 'every allocation made by every call, for every schema, document and data structure',
  'The tests inject allocation failures into a handful of fixed documents; the guarantee is about each allocation point in any reachable partial state.',
  [LOAD, COPY, SAVE, 'src/mem.c', 'src/mem.h'], [('allocation wrapper', 'cyaml__realloc, src/mem.h'), ('OOM unwinding', 'cyaml__load, cyaml_copy, cyaml_save_data')], None, API)

p('C04', 'A document is accepted exactly when its structure satisfies the schema',
  'Loading succeeds only if every value has the kind the schema gives it, every mapping has each required field, no non-ignored field twice, and no field the schema does not know (unless configured to ignore those). A document that breaks one of these rules anywhere, at any depth, is rejected with the error documented for that rule, and one that breaks none is not rejected for its structure.',
  ['inputs', 'configurations'], 'every combination of schema and document, every nesting, every order of fields',
  'Each test exercises one rule in one place; the rules interact across nesting, field position and order, optional fields and more than 32 fields.',
  [LOAD], [('load state machine', 'cyaml__load_event, src/load.c'), ('field-set bitfield', 'cyaml__mapping_bitfieid_validate, src/load.c'), ('kind check', 'cyaml__validate_event_type_for_schema, src/load.c')],
  [('state stack', 'where in the schema the next event belongs', 'cyaml_ctx_t.stack')], API)

p('C05', 'Scalar values are stored exactly or rejected',
  'A scalar loaded into an integer, boolean, enumeration, floating point or string value of any storage size is stored as exactly the value its text denotes, or the load fails; it is never truncated, wrapped, sign-changed or partly parsed. Text that is not entirely a number, a value outside the storage size or outside the schema\'s limits, a string of the wrong length, or a name a strict enumeration does not have, is rejected. Non-strict floating point values out of range become the nearest representable value.',
  ['inputs', 'configurations'], 'every text and every (type, storage size, limits, strictness) combination',
  'Tests sample a few values per size; storage sizes 1 to 8 times the boundaries of signed and unsigned 64 bit ranges, bases, signs and overflow are far more.',
  [LOAD, 'src/data.h'], [('range checks', 'cyaml__store_int, cyaml__store_uint, cyaml__store_float, cyaml__store_string, src/load.c'), ('text to number', 'cyaml__read_int, cyaml__read_uint64_t, cyaml__read_float, src/load.c')], None, API)

p('C06', 'Flags and bit fields hold exactly what was listed',
  'A flags value loads as the union of the listed flags\' bits and nothing else, and a bit-field value loads with each listed bit field holding exactly its number, within its own bits. A flag name that is not known (and not, in a non-strict schema, a number that fits), a bit field that is not known, or a number too large for its bits or storage, fails the load. Saving writes exactly the flags and bit fields that are set, so no bit is lost or invented.',
  ['inputs', 'configurations'], 'every flag and bit-field definition, every list, every storage size, strict or not',
  'Tests cover a few definitions; multi-bit flags, 64 bit flags, offsets and widths at the limits of the storage size, and replayed content are not sampled.',
  [LOAD, SAVE], [('flags accumulation', 'cyaml__set_flag, src/load.c'), ('bit values', 'cyaml__set_bitval, src/load.c'), ('emit', 'cyaml__emit_flags_sequence, cyaml__emit_bitfield_mapping, src/save.c')], None, API)

p('C07', 'Values are written only to the bytes the schema gives them',
  'A loaded value occupies exactly the bytes at its field\'s or entry\'s place for its size, in host byte order, and loading one value never changes bytes belonging to another. Bytes of the returned structure that belong to no present value are zero. No load, copy, save or free reads or writes outside the memory the schema describes.',
  ['inputs', 'configurations'], 'every layout (offsets, sizes 1 to 8, packed or padded, nested in place or by pointer), every document',
  'Tests use ordinary C structs and read back only the members; bytes next to a value, packed layouts and odd sizes are not observed.',
  [LOAD, 'src/data.h', COPY], [('sized writes', 'cyaml_data_write, src/data.h'), ('entry addressing', 'cyaml__seq_entry, src/load.c; cyaml__clone_sequence, src/copy.c')], None, API)

p('C08', 'Absent optional fields take their defaults, present ones never do',
  'After a successful load, each optional field the document omits holds a private copy of the schema\'s default value, or zero or NULL when there is none, whatever the field\'s type and position. A field the document gives never takes its default, and a default the field cannot hold fails the load. Changing or freeing the loaded data never affects the schema\'s default.',
  ['inputs', 'configurations'], 'every type (including pointers, mappings, sequences and nested ones) of optional field, every subset of fields present, any order',
  'The tests give each type one default in one small mapping; presence subsets, more than 32 fields, deep defaults and pointer entries are combinatorial.',
  [LOAD, COPY], [('defaults', 'cyaml__field_apply_default, src/load.c'), ('deep defaults', 'cyaml_copy, src/copy.c')], None, API)

p('C09', 'NULL values are accepted exactly where the schema allows them',
  'An empty value loads as NULL exactly for pointer values that allow NULL, and the null words of YAML (~, null, Null, NULL) load as NULL exactly where the schema also allows those; anywhere else such text is an ordinary value of the type. NULL values save as the empty or null form where allowed, are left out of mappings when optional, and otherwise make a save fail, save that a sequence with no entries is simply written as empty.',
  ['inputs', 'configurations'], 'every type as a pointer with each NULL setting, in mappings, sequences and at the top level',
  'The tests cover NULL for a few types as mapping fields or sequence entries; text near the null words and every type are not.',
  [LOAD, SAVE, COPY], [('null words', 'cyaml__string_is_null_ptr, src/load.c'), ('NULL output', 'cyaml__write_value, src/save.c')], None, API)

p('C10', 'An alias loads exactly as if its anchored value were repeated there',
  'A document with anchors and aliases loads with the same result as the document in which every alias is replaced by the value of the nearest preceding completed anchor of that name, wherever the anchor and alias occur, and the values loaded from them are independent copies. An alias with no such anchor is rejected, and with aliases disabled every alias is rejected.',
  ['inputs', 'configurations'], 'every placement of anchors and aliases: keys, values, entries, nested anchors, aliases within anchored values, flags, bit fields, ignored content, re-used names',
  'Tests have a few dozen fixed alias documents; recording while replaying and nesting are a history-dependent state machine.',
  [LOAD], [('event recording', 'cyaml__handle_record, cyaml__record_stack_push/pop, src/load.c'), ('event replay', 'cyaml__handle_alias, cyaml__handle_replay, src/load.c')],
  [('recording', 'completed and in-progress anchors, recorded events', 'cyaml_event_record_t')], API)

p('C11', 'Ignored content is skipped whole and has no effect',
  'The value of an ignored field, or of an unknown field when configured to ignore those, is skipped entirely whatever it contains, may appear any number of times, and has no effect on the data loaded from the rest of the document, except that anchors within it can still be used. Nothing else is ever skipped.',
  ['inputs', 'configurations'], 'every content of the ignored value: scalars, nested mappings and sequences, anchors and aliases, names of other fields; every position',
  'Tests ignore a handful of simple values; skipping must balance any nesting including replayed events.',
  [LOAD], [('skip', 'cyaml__consume_ignored_value, src/load.c'), ('unknown keys', 'cyaml__map_key, src/load.c')], None, API)

p('C12', 'Validation callbacks see every loaded value once and can veto it',
  'For each value the document gives to a schema with a validation callback, the callback is called exactly once, with the client\'s context, that schema and the value (for sequences, its entries and their number) after it was converted and checked, contents before containers. If any callback refuses, the load fails with the invalid-value error; if none does, callbacks have no effect on the result.',
  ['inputs', 'configurations', 'histories'], 'every type and place a callback can be attached, every document, every choice of call to refuse',
  'Tests attach one callback per type to one document; which calls happen, in which order and with which data over nested documents is not observed.',
  [LOAD], [('callbacks', 'cyaml__store_*, cyaml__map_end, cyaml__seq_end, src/load.c')], None, API + ['arguments of the callbacks'])

p('C13', 'Sequences hold as many entries as the document gives, within the schema\'s limits',
  'A loaded sequence has exactly the document\'s entries, in order, and its count member (of any size) holds exactly their number. A sequence shorter or longer than the schema allows, longer than its count member can express, or, when of fixed length, of any other length, fails the load with the matching error; no count is ever truncated.',
  ['inputs', 'configurations'], 'every sequence length, limits, count size 1 to 8, entry type and storage (inline array, allocated, fixed, nested fixed)',
  'Tests use short sequences with counts of ordinary size; lengths around limits and count capacity in all storage forms are not sampled.',
  [LOAD], [('entry handling', 'cyaml__seq_entry, cyaml__seq_end, src/load.c'), ('fixed sequences', 'cyaml__stack_push, src/load.c')], None, API)

p('C14', 'Saving writes exactly the data, and fails on data the schema forbids',
  'A successful save produces one well-formed YAML document holding every field of the data in schema order and nothing else, with each value\'s text denoting exactly the stored value; only ignored fields and NULL optional fields are left out. Data the schema does not allow (a NULL required pointer, a strict enumeration or flags value with no name, a variable sequence inside a sequence) makes the save fail, and then no output is returned.',
  ['inputs', 'configurations'], 'every schema and every data structure for it, including ones built by the client, all sizes and boundary values',
  'Tests compare the text of small examples; exactness for all values and data that never came from a load is not covered.',
  [SAVE], [('save state machine', 'cyaml__save and cyaml__write_*, src/save.c')],
  [('state stack', 'position in the data being written', 'cyaml_ctx_t.stack')], API + ['text produced'])

p('C15', 'Saving and loading again gives back the same data',
  'For every schema and every data structure that loading produced from any document, saving it and loading the result with the same schema and settings succeeds and gives an equal data structure, and saving that gives identical text. This covers every type and size, quoted and multi-line strings, the extremes of the number ranges, NULLs, empty sequences and defaults; only strings that spell null where null words are allowed, and NULL or empty optional values that have a default, are excepted.',
  ['inputs', 'configurations', 'histories'], 'every schema, document and style setting',
  'The example programs round trip two fixed files; the guarantee is universal over values and schemas.',
  [LOAD, SAVE], [('load', 'cyaml__load, src/load.c'), ('save', 'cyaml__save, src/save.c')], None, API + ['text produced'])

p('C16', 'A copy is complete, equal and independent',
  'A successful copy gives a data structure with every described value equal to the source\'s and no allocation in common with it, so that changing or freeing either leaves the other intact; the source is never modified. Absent optional values, NULLs and empty sequences are copied as such, and a copy that cannot be made fails with nothing allocated and the target untouched.',
  ['inputs', 'configurations', 'histories'], 'every schema and data structure (loaded or built by the client), copied any number of times, freed in any order',
  'Tests copy one small structure per type and compare its members; sharing, nested shapes and NULLs are not explored.',
  [COPY], [('clone state machine', 'cyaml__clone_value, cyaml__clone_mapping, cyaml__clone_sequence, src/copy.c')], None, API)

p('C17', 'Names match by exactly the configured case rule',
  'Mapping keys, enumeration names, flag names and bit-field names match exactly when the strings are equal, or, where case insensitivity applies, equal but for the case of ASCII, Latin-1 and Latin Extended letters; letters of other kinds, and different letters, never match. The schema value\'s own setting overrides the configuration, with insensitive winning over sensitive, and the first matching definition is used.',
  ['inputs', 'configurations'], 'every pair of strings, every combination of the configuration and schema settings, every kind of name',
  'Tests compare a few pairs of strings and one combination of settings for each kind.',
  ['src/utf8.c', 'src/util.h', LOAD], [('case folding', 'cyaml_utf8_casecmp, src/utf8.c'), ('precedence', 'cyaml__is_case_sensitive, src/util.h')], None, API)

p('C18', 'Output style settings change presentation only, and are honoured',
  'Block and flow style follow the value\'s own setting, else the configuration\'s, with block winning within a level; scalar styles follow the value\'s setting in the documented order of priority; document markers appear exactly when configured. None of these settings changes the data the output denotes.',
  ['configurations', 'inputs'], 'every combination of style settings on every value and in the configuration, for every data structure',
  'Tests compare the text of one example per setting; precedence between levels and combinations is not sampled.',
  [SAVE], [('style choice', 'cyaml__get_emit_style, cyaml__get_emit_style_scalar, cyaml__emit_doc_delim, src/save.c')], None, ['text produced'])

p('C19', 'Bad parameters are reported before anything else happens',
  'Each public call given a missing or inconsistent parameter (configuration, allocation function, schema, entry count, non-pointer top level, data or a non-empty target) returns the error documented for it, the first in that order when there are several. It then leaves the caller\'s output variables as they were, leaves nothing allocated, calls no callback and reads no data.',
  ['configurations', 'inputs'], 'every combination of missing and inconsistent parameters of every public call',
  'Tests pass one bad parameter at a time to some of the calls.',
  [LOAD, SAVE, COPY, FREE], [('validation', 'cyaml__validate_load_params, cyaml__validate_save_params, cyaml__validate_copy_params, cyaml_free')], None, API)

p('C20', 'Diagnostics respect the log settings and locate the error',
  'Messages go only to the client\'s log function with the client\'s log context and never below the configured level; without a log function nothing is logged, and the log settings never change the outcome of a call. When a load fails inside the document, the backtrace names, innermost first, the mapping fields and the numbers of the sequence entries that enclose the failing value, with its line and column; save and copy failures name their fields and entries likewise.',
  ['inputs', 'configurations'], 'every error at every depth in load, save and copy, every log level',
  'Tests do not look at log output at all.',
  ['src/util.h', LOAD, SAVE, COPY], [('log filter', 'cyaml__log, src/util.h'), ('backtraces', 'cyaml__backtrace in src/load.c, src/save.c, src/copy.c')], None, ["the client's log function"])

p('C21', 'Calls are independent: no hidden state, inputs are read-only',
  'The outcome of a call depends only on its parameters: earlier calls, successful or failed, and calls running at the same time on other threads with their own data never change it. The schema, the configuration, the input text, default values and the data being saved or copied are never modified.',
  ['schedules', 'histories'], 'every interleaving of calls on several threads and every sequence of calls on one',
  'The tests run each call once in isolation on one thread.',
  [LOAD, SAVE, COPY, FREE, 'src/utf8.c', 'src/util.c'], [('all state in per-call contexts', 'cyaml_ctx_t in src/load.c, src/save.c, src/copy.c')], None, API)

p('C22', 'Files and memory buffers are equivalent, and I/O failures are reported',
  'Loading a file gives the same result as loading its bytes from memory, and saving to a file leaves exactly the bytes that saving to memory returns, for content of any size. A file that cannot be opened is reported as such, and a save whose output could not be completely written never reports success.',
  ['inputs', 'fault_sequences'], 'every document and data size, unreadable and unwritable paths, and a device that fills up at any point',
  'Tests cover missing files and one small file; large outputs and write errors are not exercised.',
  [LOAD, SAVE], [('file entry points', 'cyaml_load_file, src/load.c; cyaml_save_file, src/save.c'), ('output buffer', 'cyaml__buffer_handler, src/save.c')], None, ['return codes', 'file content'])

p('C23', 'Depth and size are limited only by memory',
  'Load, copy, save and free handle documents and data of any nesting depth, mappings with any number of fields, sequences with any number of entries and strings and outputs of any length, with the same meaning as small ones.',
  ['inputs'], 'every nesting depth (including recursive schemas), field count, entry count and length that memory allows',
  'Tests stay within the first state-stack allocation, the first word of the field set and the first output buffer.',
  [LOAD, COPY, SAVE, FREE], [('growing state stacks', 'cyaml__stack_ensure in src/load.c, src/save.c, src/copy.c'), ('field-set words', 'cyaml__mapping_bitfieid_create, src/load.c'), ('output buffer', 'cyaml__buffer_handler, src/save.c')], None, API)

p('C24', 'Any input bytes give a clean result from the first document',
  'For any input bytes at all, loading ends with success or an error and no memory error; input that is not well-formed YAML up to the end of its first document is rejected. Only the first document of a stream is loaded, whatever later documents contain, and an empty stream loads as no data.',
  ['inputs'], 'every byte string as input to every schema',
  'Tests use well-formed single documents with a few fixed errors.',
  [LOAD], [('stream handling', 'cyaml__doc_start, cyaml__stream_end, src/load.c'), ('parser errors', 'cyaml_get_next_event, src/load.c')], None, API)

p('C25', "Schemas written with the header's macros describe the client's structures",
  'A schema written with the CYAML_VALUE_*, CYAML_FIELD_* and helper macros for a C structure (members in place or behind pointers, arrays, sequences with a count member of any unsigned type and any name, defaults, limits, flags) means what its arguments say: loading fills exactly the named members, counts land in the count member at its own size, limits and flags are the ones given, and saving, copying and freeing read the same members. The pointer flag follows the macro used, whatever the caller wrote.',
  ['inputs', 'configurations'], 'every C structure that can hold client data, every way the macros can describe it, every document for it',
  'The tests use a few fixed structures with conventional members; offsets, sizes and count sizes that happen to coincide hide wrong expansions.',
  ['include/cyaml/cyaml.h', 'include/cyaml/private.h'], [('field and value macros', 'CYAML_VALUE, CYAML_FIELD, CYAML_FIELD_PTR_COUNT, include/cyaml/cyaml.h'), ('pointer flags and count members', 'CYAML__HANDLE_PTR_*, CYAML__SEQUENCE_COUNT_*, include/cyaml/private.h')], None, API)

p('C26', 'Every failed load is explained, and what is passed over is warned of',
  'With a log function at a level that admits them: a load that fails because of its document logs at least one error message; a call that succeeds logs none. When asked to by CYAML_CFG_IGNORED_KEY_WARNING, a load gives one warning for each key it passes over (unknown keys under CYAML_CFG_IGNORE_UNKNOWN_KEYS, and keys of ignored fields), in document order, naming the key; without it none. Further documents in a stream are warned of whenever they are passed over.',
  ['inputs', 'configurations'], 'every document, outcome, schema and configuration',
  'Tests do not look at log output at all, so a silent failure, a missing warning or an error message on success goes unseen.',
  [LOAD, 'src/util.h'], [('ignored keys', 'cyaml__log_ignored_key, src/load.c'), ('further documents', 'cyaml__doc_start, src/load.c')], None, ["the client's log function"])

p('C27', 'Failures inside libyaml are reported as such and cleaned up',
  'Whenever libyaml fails (it cannot be initialised, cannot give the next event, cannot make or write an output event, or cannot flush), at any point of a load or save, the call returns the error documented for that kind of failure, leaves the caller\'s output variables and all existing data as they were, and leaves nothing allocated, however much had been read or written by then.',
  ['fault_sequences', 'inputs'], 'every call of libyaml that a load or save makes, for every document, data structure and schema',
  'libyaml does not fail in the tests but for malformed documents; its initialisation and output failures are never met.',
  [LOAD, SAVE], [('parser and emitter set-up', 'cyaml_load_data, cyaml_load_file, src/load.c; cyaml_save_data, cyaml_save_file, src/save.c'), ('event failures', 'cyaml_get_next_event, src/load.c; cyaml__emit_event_helper, src/save.c')], None, API)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
