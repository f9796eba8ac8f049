BASE = 'Decided on the LLVM IR of the current tree; trusts clang 18, the extractor in tool/ and the call-target resolution in lib/ir.py. '
prop('M01', 'All library memory goes through the configured hooks',
     'Every block the library allocates, resizes or releases while it saves, loads, copies, compares or frees data goes through the memory hooks that are configured at that moment. '
     'A block obtained from the hooks is never handed to another allocator, a block obtained from another library is never handed to the hooks, and the library itself never changes the hooks.',
     ['inputs', 'configurations', 'programs'], 'every input and type, and every hook configuration a program may install',
     'Tests run with the default hooks or a few failing ones and see only the allocations their inputs trigger; a direct call to the C library on a rare path behaves the same under default hooks.',
     ['src/metaresc.h', 'src/metaresc.c', 'src/mr_message.c', 'src/xml2_load.c'],
     [('MR_CALLOC, MR_REALLOC, MR_FREE', 'src/metaresc.h'), ('default hook implementations', 'src/metaresc.c mr_conf')],
     'who-may-call analysis over resolved calls and address-taken uses, with origin tracking of released blocks',
     BASE + 'Complete for the analysed configuration: every instruction of every library function is examined. Generated scanner and parser skeletons may use their own work buffers.')
prop('M02', 'A failure inside an operation is reported by that operation',
     'When a memory allocation or a call into the XML, YAML or XDR libraries fails at any point of a save, load, copy, sort, collection or value operation, the public operation ends with its documented failure result (failing status, NULL string, empty result). '
     'It never reports success with a truncated or partial result.',
     ['fault_sequences', 'inputs'], 'every single failing call at every point of every operation, for every input; type registration is excluded',
     'The tests inject allocation failures only along the inputs they use and mostly check for crashes; hundreds of error edges are never taken.',
     ['src/mr_save.c', 'src/mr_load.c', 'src/mr_extra.c', 'src/mr_ic.c', 'src/xdr.c', 'src/yaml_save.c', 'src/xml_save.c', 'src/cinit_load.y', 'src/metaresc.h'],
     [('failing results of allocation hooks', 'src/metaresc.c mr_rarray_allocate_element'), ('status returns', 'all operations returning mr_status_t')],
     'interprocedural failure inference plus path-sensitive dataflow from every failing call to the returns',
     BASE + 'Every call that can fail is an obligation. Documented exceptions: lookups whose failing value means "not found", hash and ordering callbacks, printing, registration.')
prop('M03', 'No missing result is ever dereferenced',
     'Neither a failed allocation nor an unsuccessful lookup or absence of a type, field, enumeration value or attribute makes the library read or write through the missing result: every such result is checked before it is used, on every path.',
     ['fault_sequences', 'inputs'], 'every failing allocation and every unsuccessful lookup, at every call site and on every path after it',
     'Most lookups in the tests succeed and allocation failures are injected along few inputs; an unchecked result is invisible until it is NULL.',
     ['src/metaresc.c', 'src/mr_save.c', 'src/mr_load.c', 'src/xdr.c', 'src/mr_extra.c', 'src/mr_value.c'],
     [('null checks after MR_CALLOC and MR_REALLOC', 'all source files'), ('null checks after mr_get_td_by_name, mr_get_fd_by_name, mr_get_enum_by_*', 'all source files')],
     'path-sensitive nullness dataflow with callee dereference summaries',
     BASE + 'Follows the NULL within the calling function and into callees that always dereference the parameter; a NULL stored into a structure and dereferenced elsewhere is left to the failure-reporting property.')
prop('M04', 'Every entry point finds an initialised type registry',
     'Every public entry that depends on the type registry (looking up a type, field or enumeration value, saving, loading, copying, hashing, comparing, validating) initialises the registry itself before it first reads it, so it works as the very first call of a program. '
     'The library is marked initialised only after all registry indexes have been built.',
     ['programs', 'inputs'], 'every public entry as the first library call, on every path through it',
     'A test program makes some other library call first, or the order of its tests hides a missing initialisation; only one entry per process can be the first.',
     ['src/metaresc.c', 'src/mr_save.c', 'src/mr_load.c', 'src/metaresc.h', 'src/mr_ic.c'],
     [('mr_conf_init called by entries', 'src/metaresc.c mr_get_td_by_name'), ('initialized flag', 'src/metaresc.c mr_conf_init')],
     'must-precede analysis of registry reads on the call graph and control-flow graph',
     BASE + 'Every path of every public entry (functions and API macros through witnesses) up to the first registry read. Formatting of diagnostics is outside.')
prop('M05', 'Resources of other libraries are released exactly once',
     'Every parser, emitter, event, document, node, property or dump text, scanner, variadic argument list or backtrace that the library obtains from another library is released exactly once on every path through the function that obtained it, including every error path. '
     'It is never used or released again after its release.',
     ['inputs', 'fault_sequences'], 'every path after every successful acquisition, error paths included',
     'A leaked parser or property text on an error path changes no result; the tests run few error paths and no leak checker.',
     ['src/xml2_load.c', 'src/xml_save.c', 'src/yaml_load.c', 'src/yaml_save.c', 'src/mr_load.c', 'src/mr_save.c', 'src/mr_message.c', 'src/metaresc.c'],
     [('yaml_parser_delete, yaml_event_delete, yaml_emitter_delete', 'src/yaml_load.c, src/yaml_save.c'), ('xmlFree, xmlFreeDoc, xmlFreeNode', 'src/xml2_load.c, src/xml_save.c'), ('lex_destroy', 'loaders')],
     'path-sensitive typestate of acquired objects with helper summaries',
     BASE + 'Acquisitions and releases come from a table of the external interfaces used; helpers are followed through summaries.')
prop('M06', 'Formatted text and diagnostics get the arguments they read',
     'Every printf- or scanf-style call of the library, including every diagnostic expanded through the message template of its identifier, passes exactly as many arguments as its format reads and each with the size the format reads or stores; the format is always a fixed text, never user data. '
     'Narrow values are not sign-extended where they are shown unsigned, and text formatted into a buffer of fixed size fits for every value.',
     ['inputs', 'programs'], 'every formatting, scanning and diagnostic call and every value of its arguments',
     'Most diagnostics sit on error paths that no test reaches, and a wrong size shows only for particular values or when the message is printed by the default handler.',
     ['src/mr_message.c', 'src/mr_protos.h', 'src/mr_stringify.c', 'src/mr_print.c', 'src/yaml_save.c', 'src/xml_save.c', 'src/mr_save.c', 'src/mr_extra.c'],
     [('message templates', 'src/mr_protos.h mr_message_id_t'), ('mr_ra_printf', 'src/mr_message.c'), ('fixed buffers', 'src/yaml_save.c, src/xml_save.c, src/mr_print.c')],
     'format resolution and per-directive argument checking over resolved calls, with bounded expansion of fixed buffers',
     BASE + 'Wrong order of arguments of the same class is not visible. Buffers whose size is computed at run time are outside the fit rule.')
prop('M07', 'Operations keep no hidden shared state',
     'After registration, saving, loading, copying, comparing, hashing, freeing and collection operations write no global or static object and no record of the type registry, so their results do not depend on earlier calls or on operations running in other threads; the opt-in memo of function names is the only exception. '
     'One-time lookup tables are filled from constants only, never cleared, and published after they are complete; registration work runs once.',
     ['histories', 'schedules', 'programs'], 'every write of every function that can run as part of an operation, in any order and on any number of threads',
     'A static buffer or an altered type descriptor works in a test that calls an operation once on one thread; the damage needs a particular history or interleaving.',
     ['src/mr_save.c', 'src/mr_load.c', 'src/mr_value.c', 'src/mr_stringify.c', 'src/metaresc.c', 'src/xml_save.c', 'src/json_load.y', 'src/cinit_load.y', 'src/scm_load.y', 'src/mr_message.c', 'src/yaml_save.c'],
     [('local copies of field descriptors', 'src/mr_load.c mr_load_array, src/mr_save.c mr_save_array'), ('one-time escape tables', 'src/json_load.y, src/cinit_load.y, src/scm_load.y, src/xml_save.c'), ('test-and-set', 'src/metaresc.c mr_conf_init')],
     'who-may-write effect analysis over globals and registry records with callee write summaries',
     BASE + 'Writes through pointers that were themselves loaded from collections are judged by the record type they address.')
prop('M08', 'Operations that only read data never modify it',
     'Saving in any format, hashing, comparing and printing never write to the data they are given or to anything reachable from it, and copying never writes to its source; a handler shared by saving and loading writes into the data only while loading.',
     ['inputs', 'programs'], 'every function that can run while data is only read, every pointer it holds into that data, and every value of it',
     'A value normalised, terminated or widened in place is invisible unless the data holds one of the few values it changes and the test looks at the source afterwards.',
     ['src/mr_save.c', 'src/mr_extra.c', 'src/cinit_save.c', 'src/json_save.c', 'src/scm_save.c', 'src/xml_save.c', 'src/yaml_save.c', 'src/xdr.c', 'src/mr_stringify.c'],
     [('private copies of text and counters', 'src/cinit_save.c cinit_printf_char_array, src/mr_save.c mr_save_array'), ('hash and comparison of nodes', 'src/mr_extra.c'), ('stream direction', 'src/xdr.c')],
     'interprocedural taint analysis of pointers into user data against all stores and writing calls',
     BASE + 'Pointers are followed from the data field of nodes through arithmetic, locals, calls and returns. Encoding calls of the XDR library are taken to only read.')
prop('M09', 'Text of a fixed size is never read past its size',
     'A character array of fixed size in the user\'s data may be filled completely, with no terminator after it. Saving in any format, hashing, comparing, sorting and resolving unions read such text only up to its own declared size, also when it is an element of an array of texts, and use readers that stop only at a terminator on private terminated copies of it.',
     ['inputs'], 'every read of text in place by every operation that reads data, whatever the text and whatever lies behind it',
     'Text shorter than its array, or with a zero somewhere after it, hides an unlimited read; tests rarely fill an array and never guard what follows it.',
     ['src/cinit_save.c', 'src/json_save.c', 'src/scm_save.c', 'src/xml_save.c', 'src/yaml_save.c', 'src/xdr.c', 'src/mr_extra.c', 'src/mr_ic.c', 'src/mr_save.c'],
     [('terminated copies of char arrays', 'src/*_save.c *_char_array'), ('hash and comparison of char arrays', 'src/mr_extra.c node_hash, mr_cmp_structs'), ('sorting', 'src/mr_ic.c mr_basic_types_sort'), ('union discriminators', 'src/mr_save.c mr_union_discriminator_by_type'), ('length of a text in a stream', 'src/xdr.c xdr_char_array_')],
     'interprocedural tracking of in-place text to classified readers, limits proved against the recorded size of the same node',
     BASE + 'The size recorded for a node is taken to be the declared size of its field except for elements of arrays, where the separation of the sizes is checked.')
prop('M10', 'Buffers, tables and blocks are never accessed past their end',
     'Every access of computed position or extent to a local buffer, a lookup table, or a block the same function allocated or reserved stays inside it; a loop that counts through a node list, hash table, field list or enumeration stays below the recorded size; bytes of run-time length stored into a field stay within the field or its new block. '
     'Text copied into such memory is ended before it is read as text, and a growing array never records or hands out more room than it allocated.',
     ['inputs', 'programs'], 'every such access of the hand-written sources, for every value of the sizes, lengths and positions involved',
     'One element or byte too far is silent for almost every size; it takes a text, table or stream of exactly the wrong length, and a checker for memory errors, to see it.',
     ['src/mr_load.c', 'src/yaml_load.c', 'src/metaresc.c', 'src/mr_ic.c', 'src/mr_btree.c', 'src/xdr.c', 'src/mr_save.c', 'src/mr_message.c', 'src/mr_stringify.c', 'src/mr_extra.c', 'src/cinit_save.c', 'src/json_save.c'],
     [('mr_rarray_allocate_element', 'src/metaresc.c'), ('mr_read_xml_doc', 'src/metaresc.c'), ('reference tables', 'src/mr_load.c mr_set_crossrefs, src/yaml_load.c'), ('hash table slots', 'src/mr_ic.c'), ('handler tables', 'src/mr_load.c, src/xdr.c, src/*_save.c')],
     'linear arithmetic over dominating conditions and inferred inductive loop relations, per access',
     BASE + 'Positions read from records (node links, tree links) and paths in trees are taken to be valid. Sizes are compared as mathematical integers, except sizes of blocks computed from untrusted values.')
prop('M11', 'Memory that was moved or released is never used again',
     'Once a growing array of the library (node list, storage of a collection, type dependencies, produced text) may have moved, no pointer into its old place is read, written, passed on or returned; only on the way where the growing call reports failure, or that nothing was added, may such pointers still be used. '
     'After a block was released or moved, neither it nor what is found where its address was recorded is used or released again.',
     ['inputs', 'programs'], 'every pointer into a growing array and every released block in the hand-written sources, on every path, through calls',
     'Growing an array moves it only when its allocation is exhausted, and freed memory usually keeps its contents for a while: a stale pointer works in almost every run.',
     ['src/mr_save.c', 'src/mr_load.c', 'src/metaresc.c', 'src/mr_btree.c', 'src/mr_ic.c', 'src/mr_udo_init.c', 'src/xdr.c', 'src/xml2_load.c', 'src/yaml_load.c', 'src/mr_stringify.c'],
     [('mr_add_ptr_to_list', 'src/metaresc.c'), ('recursive saving into a growing node list', 'src/mr_save.c mr_save_inner, resolve_matched, resolve_void_ptr_and_strings'), ('recursive loading', 'src/xdr.c xdr_load_inner, src/xml2_load.c mr_xml2_load'), ('tree storage', 'src/mr_btree.c mr_tree_add')],
     'forward typestate dataflow over pointers into arrays, with interprocedural growth, release and alias summaries',
     BASE + 'Arrays are named by the chain of record fields that leads to them; blocks of the user\'s data reached through node lists are not followed.')
prop('M12', 'Every block an operation allocates is released or handed over',
     'Every block an operation obtains from the configured allocator, directly or inside a working record of its own, is on every path released, recorded where a later release finds it, or handed to the caller; this includes every path of failure and of malformed input. '
     'What nodes of an intermediate list own, texts and numbers read from input and sets of union choices, is released for every node and every kind of value before the list is given up.',
     ['inputs', 'fault_sequences'], 'every allocation of the hand-written sources and of the API macros, and every path from it',
     'A leak changes no result; it needs a failing allocation or a malformed input at one particular place and an accounting of every block.',
     ['src/mr_load.c', 'src/mr_save.c', 'src/metaresc.h', 'src/metaresc.c', 'src/mr_ic.c', 'src/mr_btree.c', 'src/mr_extra.c', 'src/xdr.c', 'src/yaml_load.c', 'src/yaml_save.c', 'src/mr_message.c', 'src/mr_print.c', 'src/json_save.c', 'src/cinit_load.y'],
     [('mr_free_load_values', 'src/mr_load.c'), ('mr_ud_free', 'src/mr_save.c'), ('mr_set_crossrefs', 'src/mr_load.c'), ('API macros', 'src/metaresc.h MR_LOAD_*, MR_SAVE_*')],
     'path-sensitive ownership typestate with interprocedural fill, keep and release summaries',
     BASE + 'Blocks stored into the user\'s data belong to the user and are not followed further. A block recorded in a long-lived record counts as handed over; that its field has a release is checked per field.')

prop('M13', 'Comparisons are total orders and agree with their hashes',
     'Every comparison the library sorts, searches or indexes with, and every comparison of whole data it offers, is a total preorder over all values: swapping the operands swaps the answer and answers never form a cycle, whatever the operands are (extreme integers, null texts, both zeros and not-a-number included). '
     'Two elements that compare equal have equal hashes under every hash function used together with that comparison.',
     ['inputs', 'histories'], 'all triples of elements a comparison can meet, for each comparison and each kind of value',
     'A cycle needs three particular values; a hash that disagrees loses an element only when two equal but different-looking elements meet in one collection.',
     ['src/mr_ic.c', 'src/mr_extra.c', 'src/metaresc.c', 'src/mr_save.c', 'src/mr_stringify.c', 'src/mr_udo_init.c'],
     [('mr_cmp_structs, node_hash', 'src/mr_extra.c'), ('mr_hashed_string_cmp', 'src/metaresc.c'), ('mr_fd_offset_cmp_sorting', 'src/metaresc.c'), ('keys of sorts', 'src/mr_ic.c mr_type_compar_fn'), ('mr_cmp_ptrdes', 'src/mr_save.c')],
     'abstract interpretation of comparison and hash functions in a finite order domain (decision trees over uninterpreted terms, tabulated)',
     BASE + 'Records, unions, pointers and arrays are hashed through their children; only the comparison of their own node is judged. The few representative positions per quantity are enough for orders built from comparisons of single quantities; comparisons supplied by the program are outside.')

prop('M14', 'Every value is handled in the width and sign of its declared type',
     'Whatever the type of a value (integers of every width and sign, enumerations and bit-fields of any underlying type, floating point and complex numbers, text, pointers), each operation that reaches it reads or writes all of its bytes with exactly that width, signedness and precision, prints it with the matching conversion, and uses a formatter the program installed only for the type it was installed for. '
     'Operations whose behaviour depends on the kind of type treat all widths of one family alike, and the size the library assumes for a kind is the size of its C type.',
     ['inputs', 'programs'], 'every operation that looks at the kind of a value, evaluated for each of the kinds (enumerations and bit-fields once per underlying type)',
     'Tables and case lists per type are long and regular; one swapped or missing entry shows only for values of that type outside the range of its neighbour.',
     ['src/mr_load.c', 'src/mr_save.c', 'src/mr_stringify.c', 'src/mr_print.c', 'src/mr_extra.c', 'src/xdr.c', 'src/metaresc.c', 'src/json_save.c', 'src/cinit_save.c', 'src/scm_save.c', 'src/xml_save.c', 'src/yaml_save.c', 'src/mr_ic.c'],
     [('handler tables per kind', 'src/*_save.c, src/xdr.c, src/mr_load.c'), ('bit-fields', 'src/metaresc.c mr_save_bitfield_value'), ('union discriminators', 'src/mr_save.c mr_union_discriminator_by_type'), ('number output', 'src/mr_stringify.c'), ('comparison per kind', 'src/mr_extra.c mr_cmp_structs')],
     'interprocedural constant propagation of the kind through switches, masks and handler tables, with width and sign checks on every access left',
     BASE + 'A value is followed from its node, field descriptor or sort key; values reached only through user callbacks are outside. What number a text means and how many digits a number needs are not part of this property.')
prop('M15', 'Type descriptors record exactly the types that were declared',
     'The descriptor that a declaration macro produces for a structure, union, enumeration or function type records every member, constant and argument that was declared, completely and in order, each with its name, type, position, size, dimensions, bits, value, note and resource exactly as the compiler laid the type out. '
     'Every such descriptor is handed to registration when the program starts. What registration derives later (resolved types, hashes, sizes of resources) is not part of this property.',
     ['programs'], 'every declaration macro applied to every basic type, qualifier, pointer, array of up to four dimensions, bit-field, anonymous union, function and enumeration, and every type the library describes of itself',
     'The tests declare types they need; a wrong record for a rare combination (a volatile pointer, a fourth dimension, a large constant, an excluded function) is saved and loaded symmetrically and goes unnoticed.',
     ['src/metaresc.h', 'src/mr_protos.h', 'src/mr_pp.sh', 'src/metaresc.c'],
     [('TYPEDEF_STRUCT, TYPEDEF_UNION, TYPEDEF_ENUM, TYPEDEF_FUNC', 'src/metaresc.h'), ('MR_TYPE_DETECT', 'src/metaresc.h'), ('MR_ARRAY_DIMENSIONS', 'src/metaresc.h'), ('own types', 'src/mr_protos.h')],
     'witness declarations; comparison of the descriptor initialisers in the IR with the type graph of the debug information',
     'Trusts clang 18 for both the initialisers and the debug information. Descriptors made by other producers (debugging-information reader, dump of structures) are outside, as is what registration completes at run time.')

prop('M16', 'No result depends on memory that was never given a value',
     'Every local variable, every member of a local structure, every descriptor the library makes while saving or loading, and every block of memory it hands to the user holds a value it was given (or zero) before anything reads it, copies it out or returns it, on every path including failures and rare inputs.',
     ['programs', 'inputs'], 'every local object and scalar of every function, every element taken from a growing array and every allocation that is not zeroed',
     'Fresh stack and heap memory is mostly zero in a test run, so a missing initialisation shows only with particular earlier activity.',
     ['src/'],
     [('mr_add_ptr_to_list', 'src/metaresc.c'), ('mr_load_pointer', 'src/mr_load.c'), ('xdr_load_pointer', 'src/xdr.c'), ('mr_udo_build_ref_graph', 'src/mr_udo_init.c'), ('mr_ic_*_new', 'src/mr_ic.c')],
     'interprocedural bit-level definite-initialisation dataflow on the IR, confirmed path by path',
     'Objects whose address is kept in a longer-living structure are not followed past that point unless they are records; elements of arrays at computed positions count as set once some position is set. Memory that the user provides is the user\'s.')

prop('M17', 'The binary format is read item by item as it was written',
     'For every kind of value and whatever its flags, sizes and dimensions, the items that saving in the binary format puts on the stream for a node (lengths, flags, references, numbers, bytes) are the items that loading takes off it: same order, same widths, same conditions, into the places they were saved from and before any node below. '
     'Reading, writing, skipping and positioning on the stream move the position by exactly what was transferred, only when they succeed and never beyond the data, with one byte order.',
     ['inputs', 'programs'], 'every kind of value with a handler in the binary format, every path of its saving handler against every path of its loading handler',
     'An item written under one condition and read under another one shifts everything that follows, but only for values that separate the two conditions.',
     ['src/xdr.c'],
     [('xdr_save_handler, xdr_load_handler', 'src/xdr.c'), ('xdr_save_pointer, xdr_load_pointer', 'src/xdr.c'), ('xdr_save_array, xdr_load_array', 'src/xdr.c'), ('xdrra_*', 'src/xdr.c')],
     'path languages of wire operations under conditions on the node, compared per kind between the two directions',
     BASE + 'Primitives of the system\'s XDR library are trusted to transfer what their names say. The order in which child nodes are visited, and whether a value is described by the right node, are outside.')

prop('M18', 'Collections count and find exactly what they hold',
     'Whatever sequence of operations a collection goes through, and whichever implementation it uses or changes to, its count of items moves exactly with what it stores (additions that fail, deletions, indexing, growth and freeing included), a key is stored only in a free place and only after a comparison said it is absent, and a lookup reports an element if and only if a comparison called it equal. '
     'Comparisons and hashes always get the collection\'s own context, also after a change of implementation, and every implementation offers all operations, working on its own storage and fully initialised.',
     ['histories', 'inputs', 'fault_sequences'], 'every path of every operation of the six implementations of collections, and every place where their comparison is handed on',
     'A count that drifts or a context that is lost shows only after a particular sequence of growth, deletion and failure, or for keys that look like an empty place.',
     ['src/mr_ic.c', 'src/mr_ic.h', 'src/mr_btree.c'],
     [('virt_func tables', 'src/mr_ic.c'), ('mr_ic_hash_index_add, mr_ic_hash_del', 'src/mr_ic.c'), ('mr_ic_static_array_add', 'src/mr_ic.c'), ('mr_ic_new', 'src/mr_ic.h'), ('mr_ic_tree_index', 'src/mr_ic.c')],
     'path-sensitive relational typestate of count against storage, with table and dispatch checks',
     BASE + 'That the probing of a hash table, the order of a sorted array and the links of a tree lead a lookup to the right place is a matter of run-time values and is not claimed; comparisons and hashes supplied by the program are trusted to agree.')

prop('M19', 'Text formats write values so that they read back the same',
     'Whatever characters a character, character array or string value consists of, each text format writes every one of them as itself where that is safe or as an escape that the reader of that format takes back to exactly this character, whatever character follows; nothing special or unprintable is written bare, no two characters share an escape, and undoing escapes consumes exactly the escape and yields one character. '
     'Integers of up to 64 bits are written by a conversion of their own width and sign, floating point numbers and both parts of complex numbers with enough digits to restore them, and quotes and brackets that open a value are closed by their counterparts.',
     ['inputs', 'programs'], 'every handler of the saving tables of the text formats, for all 255 characters, every such integer and floating point kind, every container kind, and every path of the loops that undo the escapes',
     'Tests use ordinary text and round numbers; an escape that runs into a following digit, a sign extended byte or a lost last digit needs a particular value.',
     ['src/mr_stringify.c', 'src/json_save.c', 'src/cinit_save.c', 'src/scm_save.c', 'src/xml_save.c', 'src/json_load.y', 'src/cinit_load.y', 'src/scm_load.y'],
     [('mr_ra_printf_quote_string', 'src/mr_stringify.c'), ('mr_esc_char_map', 'src/mr_stringify.c'), ('json_printf_char', 'src/json_save.c'), ('xml_ra_printf_quote_char', 'src/xml_save.c'), ('json_unquote_str', 'src/json_load.y'), ('cinit_unquote_str', 'src/cinit_load.y')],
     'constant propagation over the table of all characters through the writers, compared with the escape conventions of the readers',
     BASE + 'The lexers and the arithmetic of the number readers are not part of the claim, nor are names of enumerators and functions, text produced through conversions the program registered, and YAML and XML through their libraries. The C locale decides what is printable.')
