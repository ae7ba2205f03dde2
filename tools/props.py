NOT_APPLICABLE = []

prop("C01", "JSON configuration round trip",
     "Writing any valid configuration as JSON and reading it back against the same mold gives a configuration with the same version, the same elements with the same occurrences in the same order and exactly the same values, and it is valid. The written text is well-formed JSON holding exactly those elements, and writing the configuration read back gives the same text again.",
     ["inputs"], "every mold and every valid configuration of it: all value types, nesting, repetition, version, and any string or number value",
     "the tests round-trip a dozen fixed molds whose values are short ASCII words and small numbers; the statement quantifies over all values and shapes",
     ["lib/fslib/json/json_serialize_config.cc", "lib/fslib/json/json_unserialize_config.cc", "lib/fslib/json/json_serialize.cc", "lib/fslib/json/json_unserialize.cc", "lib/fslib/json.cc"],
     [("JSON writer and reader", "lib/fslib/json")],
     ["disir/fslib/json.h serialize and unserialize of a configuration"],
     "property-based round trip against a reference model, with an independent JSON parser",
     "random molds and configurations (nesting <= 4); the file text is also parsed independently of the library's reader")

prop("C02", "TOML configuration round trip",
     "Writing any valid configuration as TOML and reading it back against the same mold gives a configuration with the same version, the same elements with the same occurrences and exactly the same values, and it is valid.",
     ["inputs"], "every mold and every valid configuration of it that TOML can express",
     "the tests round-trip a few fixed molds; escaping, empty tables, nested arrays of tables and float digits depend on values and shapes they never hold",
     ["lib/fslib/toml.cc", "lib/fslib/toml/toml_serialize.cc", "lib/fslib/toml/toml_unserialize.cc"],
     [("TOML writer and reader", "lib/fslib/toml")],
     ["disir/fslib/toml.h serialize and unserialize of a configuration"],
     "property-based round trip against a reference model",
     "random molds and configurations (nesting <= 4), compared with the generated specification and not only with itself")

prop("C03", "JSON mold round trip",
     "Writing any mold as JSON and reading it back gives the same mold: elements and their order, value types, documentation, versions of introduction and deprecation, defaults per version, and every value and entry restriction. Both molds therefore generate the same configurations and accept the same values.",
     ["inputs"], "every mold: all types, nesting, several defaults and restrictions per element, any versions and texts",
     "the tests write and read a handful of molds and mostly compare statuses",
     ["lib/fslib/json/json_serialize_mold.cc", "lib/fslib/json/json_unserialize_mold.cc", "lib/fslib/json.cc"],
     [("JSON mold writer and reader", "lib/fslib/json")],
     ["disir/fslib/json.h serialize and unserialize of a mold"],
     "property-based round trip against a reference model",
     "random molds (nesting <= 4), every attribute read back through the public API")

prop("C04", "Generated configurations hold exactly what the mold asks for at the version",
     "A configuration generated from a mold at a version is valid, carries that version, and holds exactly the elements the mold requires at that version, each as often as its minimum, with the default in force at that version. When a default does not satisfy the restrictions in force, or the version is above the mold's, generation is refused and nothing is handed out.",
     ["inputs", "configurations"], "every mold and every version, mentioned in the mold or not",
     "the tests generate from a few molds at one or two versions; which default, minimum and deprecation is in force depends on the order of versions in the mold",
     ["lib/generate.c", "lib/context_default.c", "lib/context_restriction.c"],
     [("generation walks the mold and adds the active defaults", "lib/generate.c")],
     ["disir_generate_config_from_mold"],
     "property-based testing against a reference model of the mold at a version",
     "random molds, 1-4 versions each")

prop("C05", "A configuration accepts exactly the values its mold allows at its version",
     "Setting a value of a configuration's element - on the element, by query or as text - succeeds if and only if the value has the element's type and satisfies the restrictions in force at the configuration's version. A refused value leaves the previous value in place.",
     ["inputs", "histories"], "every mold with restrictions that come and go over versions, every configuration version, every value at, next to and away from every boundary",
     "the tests set a few values against restrictions introduced once; boundaries, several alternatives and versions of introduction and deprecation multiply",
     ["lib/context_value.c", "lib/context_restriction.c", "lib/validate.c", "lib/disir_config_query.c"],
     [("exclusive restrictions are evaluated at the configuration's version", "lib/context_restriction.c")],
     ["dc_set_value*, disir_config_set_keyval_*"],
     "stateful property-based testing against a reference model",
     "1-12 sets per case, values drawn around each boundary")

prop("C06", "Entry limits are enforced over every history of additions and removals",
     "An addition to a configuration is refused if and only if it would exceed the maximum entries in force at the configuration's version, or lacks what it needs; after any history of additions and removals the configuration holds exactly what was accepted and not removed. It is valid if and only if every element occurs at least its minimum and at most its maximum.",
     ["histories"], "every sequence of additions (also several under way at once) and removals of keyvals and sections, at any level, with limits that change over versions",
     "the tests add up to a limit once; interleavings of pending additions, removals and re-additions are histories",
     ["lib/context.c", "lib/context_config.c", "lib/context_section.c", "lib/context_keyval.c", "lib/element_storage.c", "lib/validate.c", "lib/context_restriction.c"],
     [("entries counted against the restriction in force when an element is named and finalized", "lib/context_util.c")],
     ["dc_begin/dc_finalize/dc_destroy, disir_config_valid"],
     "stateful model-based testing",
     "1-16 operations per history; validity compared after each step")

prop("C07", "Validity is decided exactly and every offending element is named",
     "A configuration is reported valid if and only if it meets its mold at its version: every element known, of the right type, within its restrictions, and present as often as asked. When it is not, the report holds each offending element and no other, whether the configuration was built through the interface or read from JSON or TOML.",
     ["inputs"], "every mold and every configuration text or object, valid or broken in any number of places",
     "the tests break one thing in one mold; combinations of faults at several levels are never validated",
     ["lib/validate.c", "lib/disir_config.c", "lib/fslib/json.cc", "lib/fslib/toml.cc"],
     [("recursive validation and collection of invalid contexts", "lib/validate.c")],
     ["disir_config_valid and the invalid elements it reports"],
     "property-based testing against a reference model, differential between the three ways to build a configuration",
     "0-5 faults per configuration")

prop("C08", "A refused call changes nothing",
     "A call on an object, a mold or a configuration that is refused (any status but OK) leaves every finished mold and configuration, and everything under construction, exactly as it was, as far as any query can tell. What is still under construction, or already invalid, may take what is wrong with it and then says that it is invalid; generating a whole configuration stops where it fails.",
     ["histories"], "every sequence of calls of the public context interface, sensible or not, on objects in every state",
     "the tests check the status of a few refused calls and rarely what they left behind",
     ["lib/context.c", "lib/context_keyval.c", "lib/context_section.c", "lib/context_default.c", "lib/context_restriction.c", "lib/context_value.c", "lib/context_documentation.c", "lib/disir_config_query.c"],
     [("state checks before each mutation", "lib/context.c"), ("additions roll back", "lib/context_default.c")],
     ["every public dc_* call; the whole of every tree is read before and after"],
     "stateful property-based testing with an invariant over the history",
     "up to 25 calls per history")

prop("C09", "A query finds exactly the element it names",
     "A query path from the root or from any ancestor returns the element that the names and occurrence numbers in it designate, and the resolved name of an element is a query that leads back to it. A query for something absent, through a value, or malformed is refused with the documented status and never returns another element.",
     ["inputs"], "every configuration and every query text: existing, absent, malformed, very long, with any index",
     "the tests query fixed short paths in one configuration",
     ["lib/query.c", "lib/disir_config_query.c", "lib/context_util.c"],
     [("query text is parsed into name and index, each looked up among the elements of that name", "lib/query.c")],
     ["dc_query_resolve_context, disir_config_get_keyval_*, dc_resolve_root_name"],
     "property-based testing against a reference model",
     "1-10 queries per configuration, nesting up to 60")

prop("C10", "Setting by query creates exactly the missing elements or changes nothing",
     "Setting a value by query path sets the element the path names, after creating it and the missing ancestors the mold knows when the path names the next occurrence of each. When any part cannot be created or the value is not allowed, the call is refused and the configuration is as it was before.",
     ["inputs", "histories"], "every configuration and every sequence of sets by query with present, next and absent occurrences, unknown names, wrong types and forbidden values",
     "the tests set a few existing or once-missing paths; the roll-back of half-created ancestors depends on where in the path the refusal happens",
     ["lib/query.c", "lib/disir_config_query.c"],
     [("ancestors are created while resolving and destroyed on failure", "lib/query.c")],
     ["disir_config_set_keyval_*"],
     "stateful model-based testing",
     "1-12 sets per history, whole configuration compared after each")

prop("C11", "Updating keeps what the user set and asks exactly about the rest",
     "Updating a configuration to a later version of its mold gives a valid configuration at that version holding exactly the mold's elements there: a value the user left at the old default becomes the new default, a value the user set stays when nothing newer contradicts it, repeated and nested elements are kept, and exactly the remaining values are handed out to be resolved. Until the update is finished without open questions the old configuration is unchanged.",
     ["inputs", "histories"], "every mold, every pair of versions, every configuration valid at the first, every way of answering",
     "the tests update two small flat molds; which of three values wins depends on versions of several defaults, limits and deprecations at every level",
     ["lib/update.c", "lib/generate.c", "lib/compare.c"],
     [("walk over the target configuration, comparing with the old one and with both defaults", "lib/update.c")],
     ["disir_update_config, disir_update_conflict, disir_update_resolve, disir_update_finished"],
     "stateful model-based testing",
     "0-all conflicts answered, in any way, updates abandoned half-way; nesting <= 4")

prop("C12", "Comparing tells exactly whether two objects differ",
     "Comparing two configurations, sections, keyvals or molds says they differ if and only if their elements, values, and for molds types, documentation, defaults or restrictions differ; the report is empty if and only if they are equal, and swapping the two gives the same verdict.",
     ["inputs"], "every pair of objects, equal, built in another order, or differing in any one or several places",
     "the tests compare a few pairs differing in one value",
     ["lib/compare.c", "lib/context_value.c"],
     [("recursive comparison by name and occurrence", "lib/compare.c")],
     ["dc_compare"],
     "metamorphic property-based testing: a copy, a permutation or a mutation of a generated object",
     "one mutation out of every attribute of a mold; any number in configurations")

prop("C13", "Children keep their order and a walk over them survives changes",
     "The children of an object are returned in the order they were added, as a whole and by name, after any history of additions and removals. A walk that is under way while elements are removed returns every remaining element exactly once, in order, and never a removed one.",
     ["histories"], "every interleaving of additions, removals and any number of walks, over molds, configurations and sections, finished or under construction",
     "the tests walk fixed collections and remove one element",
     ["lib/collection.c", "lib/element_storage.c", "lib/disir_config_query.c"],
     [("collections skip destroyed elements lazily", "lib/collection.c")],
     ["dc_get_elements, dc_find_elements, dc_find_element, dc_collection_*"],
     "stateful model-based testing",
     "up to 40 operations per history")

prop("C14", "Objects live as long as they are held and are then freed",
     "An object that is held stays readable: after its parent, its configuration or its mold is destroyed every call on it returns DESTROYED_CONTEXT and nothing else, and a missing object is INVALID_ARGUMENT. No sequence of calls reads or writes freed or foreign memory or aborts, and when everything is given back all memory is free again.",
     ["histories"], "every sequence of calls of the public context interface (begin, add, set, get, find, destroy, finalize, generate, compare, update, query, collections, reading and writing) in every state, handles given back in any order",
     "the tests destroy a few objects in one order and are not run under a leak or address checker",
     ["lib/context.c", "lib/context_keyval.c", "lib/context_section.c", "lib/context_default.c", "lib/context_restriction.c", "lib/context_documentation.c", "lib/context_config.c", "lib/context_mold.c", "lib/element_storage.c", "lib/collection.c"],
     [("references are counted", "lib/context.c"), ("destroying marks the descendants", "lib/context.c")],
     ["every public dc_* call; dc_context_valid; AddressSanitizer; bytes in use after repeating the case"],
     "stateful fuzzing under AddressSanitizer and UBSan with a model of what is alive",
     "up to 60 calls and 40 handles per history; a third of the cases work on molds and configurations of some size: built, generated, compared, updated, queried, written, damaged, read back and destroyed")

prop("C15", "Versions are totally ordered and their text denotes exactly one version",
     "Versions compare by major, then minor, over their whole range; the text of any version reads back as that version, and text that is no version, or a number that does not fit, is refused. The defaults of an element are kept in the order of their versions and a mold's version is the highest in it.",
     ["inputs"], "every pair of 32-bit components and every text",
     "the tests compare and convert a handful of small versions; wrap-around needs components far apart or beyond 32 bits",
     ["lib/util.c", "lib/context_default.c", "lib/disir_mold.c", "lib/context_util.c"],
     [("version comparison and conversion", "lib/util.c")],
     ["dc_version_compare, dc_version_string, dc_version_convert, dc_get_version, dc_get_default_contexts"],
     "property-based testing against a reference model",
     "components at every power of two; up to 6 defaults")

prop("C27", "Text outputs stay within the buffer and carry the whole truth",
     "Writing a value, a default or the last error message into a caller's buffer never writes outside it, always terminates it, writes the longest prefix that fits and tells the length of the whole text; a version is written in full or refused. The message last set on an instance or object is the one returned, entire.",
     ["inputs", "histories"], "every value of every type, every message, every buffer size, every sequence of messages",
     "the tests use one large buffer and short texts",
     ["lib/util.c", "lib/context_value.c", "lib/context_default.c", "lib/error.c", "lib/log.c"],
     [("values are stringified with the buffer's size", "lib/util.c")],
     ["dc_get_value, dc_get_default, dc_version_string, disir_error_copy, disir_error, dc_fatal_error, dc_context_error"],
     "property-based testing with sanitizers against a reference model",
     "buffers up to the text's length + 8, messages up to 2000 bytes")

prop("C17", "Reading a JSON configuration tells the truth about whatever the file holds",
     "Whatever the text holds, reading it as a configuration of a mold returns OK if and only if the text is JSON that spells a valid configuration of that mold. What cannot be read is refused without a configuration; what is read but not valid comes with a configuration and INVALID_CONTEXT, and its elements and the list of what is invalid are exactly those of the text. Nothing is lost, made up, leaked, or left open, and what was accepted is written and read again unchanged.",
     ["inputs"], "every mold and every text: JSON documents of every shape and spelling, and bytes that are no JSON",
     "the tests read a few hand-written broken files; what a reader accepts by mistake depends on kinds of values, places and bytes nobody wrote down",
     ["lib/fslib/json/json_unserialize_config.cc", "lib/fslib/json/json_unserialize.cc", "lib/fslib/json/jsonIO.cc", "lib/validate.c", "lib/context_value.c"],
     [("elements are built from the members of the document", "lib/fslib/json/json_unserialize_config.cc"), ("validity is judged when finalized", "lib/validate.c")],
     ["dio_json_unserialize_config, dio_json_serialize_config, disir_config_valid, elements, bytes in use, open descriptors"],
     "structure-aware fuzzing of documents against a strict JSON parser and a model of validity",
     "up to 4 changes of a generated document of <= 600 nodes; text that is no JSON has to be refused unless what is wrong are comments, numbers like 01 or 1., control characters in texts, bytes that are no UTF-8, or a comma after a member without a name: then it is only required not to crash, leak or lie about its validity; likewise with two members of one name; nesting to 100000")

prop("C18", "Reading a TOML configuration tells the truth about whatever the file holds",
     "Whatever the text holds, reading it as a configuration of a mold returns OK if and only if it is TOML that spells a valid configuration of that mold. What cannot be read is refused without a configuration; what is read but not valid comes with a configuration and INVALID_CONTEXT, and its elements and the list of what is invalid are exactly those of the text. Nothing is lost, made up, leaked, or left open, and what was accepted is written and read again unchanged.",
     ["inputs"], "every mold and every text: TOML documents of every shape and spelling, with table headers or inline tables, and bytes that are no TOML",
     "the tests read a few hand-written files",
     ["lib/fslib/toml/toml_unserialize.cc", "3rdparty/tinytoml/toml.h", "lib/validate.c", "lib/context_value.c"],
     [("elements are built from tables and arrays", "lib/fslib/toml/toml_unserialize.cc"), ("the parser", "3rdparty/tinytoml/toml.h")],
     ["dio_toml_unserialize_config, dio_toml_serialize_config, disir_config_valid, elements, bytes in use, open descriptors"],
     "structure-aware fuzzing of documents against the document itself and a model of validity",
     "up to 4 changes of a generated document of <= 600 nodes; 72 kinds of values and 27 kinds of lines that are no TOML have to be refused wherever they stand; mutated bytes, and two keys of one name, are only required not to crash, leak or lie about their validity; left open: 007, 1., 01.5, -.5, \', tables defined twice, a newline escaped in a text of one line; nesting to 100000")

prop("C19", "Reading a JSON mold tells the truth about whatever the file holds",
     "Whatever the text holds, reading it as a mold returns OK if and only if the text is JSON that spells a valid mold; the mold then has exactly the elements, defaults, restrictions, documentation and versions of the text. Anything else is refused, or comes as an invalid mold with INVALID_CONTEXT and is never taken for a valid one. Nothing is leaked or left open.",
     ["inputs"], "every text: JSON documents of every shape, and bytes that are no JSON",
     "the tests read a few hand-written molds; what a reader accepts or drops by mistake depends on kinds of values and places nobody wrote down",
     ["lib/fslib/json/json_unserialize_mold.cc", "lib/fslib/json/json_unserialize.cc", "lib/fslib/json/jsonIO.cc", "lib/context_mold.c", "lib/context_restriction.c", "lib/context_default.c"],
     [("elements are built from the members of the document", "lib/fslib/json/json_unserialize_mold.cc")],
     ["dio_json_unserialize_mold, disir_mold_valid, elements, bytes in use, open descriptors"],
     "structure-aware fuzzing of documents against a strict JSON parser and a model of molds",
     "up to 4 changes of a generated mold document, also spelled in any way JSON allows or with one thing in it that is no JSON; text no lenient reader takes has to be refused, text only a strict reader refuses (comments, numbers like 01, control characters in texts) is only required not to crash, leak or lie about its validity")

prop("C20", "A mold override changes exactly the defaults it names",
     "A mold read together with an override file is the namespace's mold in which each overridden element has the override's value as default from the version the override is synchronised to, and nothing else differs. An override that cannot be applied (unknown element or version, a value of the wrong type, a version beyond the mold, a malformed file) makes the mold refused or invalid; it is never ignored in part or in whole.",
     ["inputs"], "every mold and every override file for it",
     "the tests apply a handful of hand-written overrides to one mold",
     ["lib/fslib/json/json_mold_namespace_override.cc", "lib/fslib/json/json_unserialize_mold.cc", "lib/fslib/json/json_unserialize.cc"],
     [("override entries are collected, synchronised and applied", "lib/fslib/json/json_mold_namespace_override.cc")],
     ["dio_json_unserialize_mold_filepath, disir_mold_valid, defaults, bytes in use, open descriptors"],
     "structure-aware fuzzing of documents against a reference model",
     "1-4 synchronised versions, up to 4 elements with up to 3 values, up to 3 changes, also spelled in any way JSON allows; text no lenient reader takes has to be refused; values older than the newest default change nothing (as documented)")

prop("C21", "A JSON store holds exactly what was written, whatever happens on the way",
     "After any history of writes, removals and listings a configuration read from the store is the one last written under that name and not removed, a listing names exactly the stored entries covered by a mold, and nothing else in the file system changes. An operation that returns OK has done its work in full; one that fails, is refused, runs out of room or is cut short by a crash leaves every stored entry with its old content or, for the entry being written, its complete new content.",
     ["histories", "crash points", "faults"], "every history of operations, every name, every point of failure within a write",
     "the tests write and read one entry at a time on a healthy disk",
     ["lib/fslib/write.c", "lib/fslib/read.c", "lib/fslib/query.cc", "lib/fslib/filepath.c", "lib/fslib/mkdir.c", "lib/fslib/json.cc", "lib/fslib/json/json_serialize.cc", "lib/disir_config.c"],
     [("an entry is a file below the base directory", "lib/fslib/filepath.c"), ("entries are replaced as a whole", "lib/fslib/write.c")],
     ["disir_config_write/read/remove/query/entries, disir_mold_write; the files below the base directories"],
     "stateful model-based testing with fault and crash injection",
     "4-18 operations on up to 2 molds and 21 names, up to four directories deep; a full disk is a file size limit, a crash is the end of the process before its n-th call that changes a file (not a power failure)")

prop("C22", "A TOML store holds exactly what was written, whatever happens on the way",
     "After any history of writes, removals and listings a configuration read from a store of TOML files is the one last written under that name and not removed, a listing names exactly the stored entries covered by a mold, and nothing else in the file system changes. An operation that returns OK has done its work in full; one that fails, is refused, runs out of room or is cut short by a crash leaves every stored entry with its old content or, for the entry being written, its complete new content.",
     ["histories", "crash points", "faults"], "every history of operations, every name, every point of failure within a write",
     "the tests write and read one entry at a time on a healthy disk",
     ["lib/fslib/toml.cc", "lib/fslib/toml/toml_serialize.cc", "lib/fslib/write.c", "lib/fslib/read.c", "lib/fslib/query.cc", "lib/disir_config.c"],
     [("an entry is a file below the base directory", "lib/fslib/filepath.c"), ("entries are replaced as a whole", "lib/fslib/write.c")],
     ["disir_config_write/read/remove/query/entries, disir_mold_write; the files below the base directories"],
     "stateful model-based testing with fault and crash injection",
     "as C21, with TOML configurations and JSON molds")

prop("C23", "Every entry has the mold of its own file, else of its namespace",
     "For any tree of mold files, a name is an entry exactly if it has a mold file of its own or one of its namespace beside it; querying, listing, reading and resolving the path of a file agree on it. The mold read is the one of that file with the entry's override applied if there is one, and of no other file. Names that are ill-formed or too long are refused.",
     ["inputs"], "every tree of molds, namespace molds, overrides and other files, and every name",
     "the tests resolve a few names in one fixed tree",
     ["lib/fslib/query.cc", "lib/fslib/filepath.c", "lib/fslib/read.c", "lib/fslib/json.cc", "lib/disir_mold.c", "lib/disir_entry.c"],
     [("an entry is resolved to its own mold file or that of its namespace", "lib/fslib/query.cc"), ("listings are merged", "lib/disir_mold.c")],
     ["disir_mold_query/entries/read, fslib_mold_resolve_entry_filepath"],
     "random trees of files against a model of resolution",
     "up to 8 files in 4 directories; one plugin; names of up to PATH_MAX bytes")

prop("C28", "Operations on a group reach the plugin that holds the entry",
     "For every set of registered plugins: an entry is read from the first plugin of the group that holds it; a query says it exists, and describes it, exactly if some plugin of the group holds it; a listing is the union of what the plugins list, the first plugin superseding later ones, each name once; what is written or removed goes to the first plugin of the group. Nothing reaches a plugin of another group, what a plugin answers is returned as it is, and what it cannot do is refused. Registered plugins keep what they registered until they are told once to finish.",
     ["inputs", "histories"], "every set and order of plugins, groups, implemented callbacks and answers, every history of operations",
     "the tests use one or two plugins that implement everything and never fail",
     ["lib/disir_config.c", "lib/disir_mold.c", "lib/disir_plugin.c", "lib/disir_entry.c", "lib/disir.c", "lib/include/mqueue.h"],
     [("the plugin of a group is selected in order of registration", "lib/disir_config.c"), ("listings are merged", "lib/disir_config.c"), ("plugins are registered", "lib/disir_plugin.c")],
     ["disir_config_read/write/remove/query/entries, disir_mold_read/write/query/entries, disir_plugin_registered, calls that reach recording plugins, bytes in use"],
     "model-based histories over recording plugins",
     "0-6 plugins in 4 groups, 6 names, up to 14 operations; the status of a query no plugin answers with EXISTS may be any of theirs")
prop("C24", "An archive holds what was appended to it and is written completely or not at all",
     "For every sequence of exports: an archive holds exactly the entries that were appended to it, each as its configuration was when it was appended, with its version; importing it into a system that has the molds restores every one of them. Extending an archive keeps what it holds. An entry that is missing or invalid, that is in the archive already, or that belongs to an unknown group is refused and changes nothing of the archive. An archive on disk is replaced by a complete one or not at all, also if writing fails or the process ends in between (the one it replaces is there or beside it as its backup); a place that cannot be written is refused and the archive may be written elsewhere. Exporting changes nothing else and leaves neither temporary files, descriptors nor memory behind.",
     ["inputs", "histories", "faults", "crash points"], "every set of groups, entries and configurations, every sequence of begin, append and finalize, every failing or last file operation",
     "the tests export five fixed entries of one group, without failures",
     ["lib/disir_archive.cc", "lib/disir_archive_util.cc", "lib/disir_export.cc", "lib/disir_import.c"],
     [("an archive is begun, extended and finalized", "lib/disir_archive.cc"), ("entries are written into the archive", "lib/disir_export.cc"), ("the archive is moved to its place", "lib/disir_archive_util.cc")],
     ["disir_archive_export_begin/append_entry/append_group/finalize, the archive's members as libarchive reads them, disir_archive_import and disir_config_read on another system, the directory tree, /tmp, bytes and descriptors in use"],
     "model-based histories with injected faults and crash points",
     "1-3 groups of 1-4 entries, two archives, up to 14 operations; configurations of up to 40000 bytes; names of groups have no '/' and entries are those of a JSON store; after a failed file operation temporary files may stay",
     state=("crash", "fault"))
prop("C25", "Importing an archive changes exactly what was resolved",
     "For every archive and every system: each entry of the archive is told to be importable, in conflict with what the system has, of another version, not importable (no group, another backend, no mold, newer than its mold) or invalid, as it is. An entry may only be resolved as its state allows: an entry that cannot be imported not at all, one that conflicts not without force or update, a resolved one only to be discarded; an update gives what updating the archived configuration to the version of its mold gives, keeping its values, and is refused if it violates a restriction unless violations are to be discarded. Nothing on the system changes before the import is finalized; then exactly the resolved entries are there, with exactly their values, the report names every entry with what became of it, and all else is unchanged. What cannot be written is reported and keeps what the system had. Nothing is left behind in memory, /tmp or descriptors.",
     ["inputs", "histories", "faults"], "every archive, every state of the importing system, every sequence of resolutions",
     "the tests import one archive into prepared states, one resolution each",
     ["lib/disir_import.c", "lib/disir_archive.cc", "lib/update.c"],
     [("what importing an entry means is determined", "lib/disir_import.c"), ("entries are resolved and written", "lib/disir_import.c")],
     ["disir_archive_import, disir_import_entry_status/resolve_entry/finalize, disir_import_report_destroy, disir_config_read, the system's files, /tmp, bytes and descriptors in use"],
     "model-based histories",
     "1-5 entries in 1-2 groups, up to 12 resolutions; what an update gives is taken from the update interface, which C11 checks; if the entry on the system is unreadable or invalid, NO_CAN_DO and CONFIG_INVALID are both accepted")
prop("C26", "A hostile or damaged archive does no harm",
     "For every file given as an archive (members named to climb out of it or absolute, links and what is written through them, devices and directories, members left out or doubled, contents and bytes changed or cut): importing and extending it ends with a status, without undefined behaviour; nothing outside is written, removed or changed; importing alone changes nothing; whatever is resolved and written is a valid configuration of an entry that has a mold, at its place; temporary files, descriptors and memory are given back. If it can be extended, the result is an archive that holds what the first one listed and what was added.",
     ["inputs"], "every byte string as an archive, every member name, type, mode and content",
     "the tests have four broken archives",
     ["lib/disir_archive.cc", "lib/disir_archive_util.cc", "lib/disir_export.cc", "lib/disir_import.c"],
     [("archives are extracted and validated", "lib/disir_archive_util.cc"), ("an archive is opened to be extended", "lib/disir_export.cc")],
     ["disir_archive_import, disir_import_*, disir_archive_export_begin/append_entry/finalize, the directory tree around the archive, /tmp, bytes and descriptors in use"],
     "structure-aware fuzzing of archives under sanitizers with invariants on files and results",
     "archives of up to 10 members with up to 4 changes and 3 changed bytes; run as an unprivileged user of its own in a scratch directory, victims lie there")
prop("C30", "An instance is made from its configuration, completely or not at all",
     "For every libdisir configuration, read from a file, given as an object or built in: if it can be loaded, the instance has exactly the plugins it names, in its order, each in its group and with exactly its base identifiers, however long; their entries can be read; when the instance is destroyed each plugin is told once to finish and is unloaded. A file that is missing, unparsable or no valid libdisir configuration, a plugin without path, group or name, a library that is missing, is none, has no registration or refuses it: creation fails with a status that tells which, no instance is there, plugins loaded before are told to finish and unloaded, a configuration the user gave stays the user's and unchanged, nothing is left behind. A given configuration takes precedence over a file.",
     ["inputs", "faults"], "every libdisir configuration and every state of the libraries it names",
     "the tests create instances from two prepared configurations",
     ["lib/disir.c", "lib/disir_plugin.c", "lib/instance_mold.c", "plugins/json/main.cc", "plugins/toml/main.cc"],
     [("plugins are loaded from the configuration", "lib/disir.c"), ("plugins are registered", "lib/disir_plugin.c"), ("the libdisir mold and its file", "lib/instance_mold.c")],
     ["disir_instance_create/destroy, disir_plugin_registered, disir_config_read, what a recording plugin is told, the libraries loaded in the process, bytes and descriptors in use"],
     "generated configurations against a model of loading",
     "up to 5 plugins, strings of up to about 1000 bytes; a given configuration object that misses or repeats elements may be refused or loaded, but nothing in between")
prop("C29", "Each command of the program does what it says, and nothing else",
     "For every store and every sequence of commands with their options and answers: list, verify, dump, import --inspect and --dry-run, import that is not accepted, and every command that is refused or mistyped change nothing; list names exactly the entries, verify tells of each entry whether it is valid and of invalid ones every element that is wrong, dump prints every value in full. generate writes valid default configurations of exactly the entries named (or of all that are missing) and replaces what is there only with --force; remove removes exactly the entry; export and export --append put exactly the entries asked for into the archive; import writes exactly what --force, --soft, --system or the answers given resolve, asks for each entry once, tells the effects before and what became of every entry after. A command ends with status 0 exactly if it did what was asked, ends whatever its input is, and leaves nothing in /tmp.",
     ["inputs", "histories"], "every store, every sequence of commands, options and answers",
     "no test runs the program",
     ["cli/cli.cc", "cli/command_export.cc", "cli/command_generate.cc", "cli/command_import.cc", "cli/command_list.cc", "cli/command_remove.cc", "cli/command_verify.cc"],
     [("options are mapped to import resolutions, questions are asked", "cli/command_import.cc"), ("existing entries are protected", "cli/command_generate.cc"), ("entries to export are chosen", "cli/command_export.cc")],
     ["standard output and exit status of the program, all files of the store, the archives it writes, /tmp"],
     "model-based histories of commands",
     "1-2 groups, JSON stores, 6 entries, up to 7 commands; what an update gives and which elements are invalid is taken from the library, which C07 and C11 check; verify ends with 0 also for invalid entries; memory at exit is not judged")
prop("C16", "A mold holds what was put in, ill-formed parts are refused or named",
     "For every mold, built part by part in any order and by any of the calls that add a part, before or after it is finalized: the mold holds exactly what was put in, and its version is the highest one named in it. A call that makes no sense where it is made (a part of another context, a value of another type, a second part where one is allowed or at the same version, a second name or type or end of what is finished, no text or version) is refused with a status that tells why and changes nothing. An element without name, type or default, with a name that is none or with two defaults or limits of a version is refused below a finished element and leaves it as it was; below one under construction it stays, the mold is told to be invalid, and disir_mold_valid names exactly these elements until they are removed.",
     ["inputs", "histories"], "every mold, every order and way of building it, every mistake in between",
     "the tests build prepared molds, one mistake at a time",
     ["lib/disir_mold.c", "lib/context_mold.c", "lib/context_default.c", "lib/context_restriction.c", "lib/context_keyval.c", "lib/context_section.c", "lib/context_documentation.c", "lib/context.c", "lib/validate.c"],
     [("parts are added and finished", "lib/context.c"), ("what is ill-formed is found", "lib/validate.c")],
     ["dc_mold_begin/finalize, dc_begin/finalize, every dc_add_* and dc_set_* for molds, disir_mold_valid, dc_mold_get_version, the parts of the mold as the collection and getter calls tell them"],
     "generated histories of building against a model",
     "molds of up to 3 levels with up to 4 elements each, two elements of a mold never have the same name")
