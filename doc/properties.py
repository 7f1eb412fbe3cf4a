HOOK_COMMITS = ["a31b27c", "35c4210", "e2645a0", "632322a", "d446f03", "8c83bb4", "6667417"]
PROPERTIES = [
{"id": "C01", "title": "Type casts preserve the value and never touch anything else",
 "statement": "Casting a scalar of any supported type and size to any other writes exactly the converted value into the destination and nothing else, never modifies the source, and casting to a wider type of the same kind and back gives the original value. A cast that is not supported is refused with an error and leaves the destination alone.",
 "for_all": "every pair of source and destination type and size among bool, int, uint, float and blob, every source value; strings up to the bound of the stand-in",
 "why": "Tests cast a handful of values for a few type pairs; there are 54 type/size pairs and up to 2^64 values for each.",
 "files": ["src/dlite-type-cast.c", "src/dlite-type-cast.h"],
 "mech": [("dlite_type_copy_cast", "src/dlite-type-cast.c")], "observe": ["dlite_type_copy_cast"],
 "note": "Proved for all values of all numeric and blob type pairs (destination content, frame, source unchanged). Strings and pointer types: bounded native contract execution. Trusted: the error-reporting stub, strtold/snprintf of libc."},
{"id": "A01", "title": "Array views address exactly the elements they denote",
 "statement": "Indexing, iterating, transposing, slicing and reshaping an array yield a view whose element at each index is the element of the original array that the operation denotes; iteration visits every element exactly once in C order and then stops. A shape that does not fit, a zero step and a non-contiguous reshape are refused, and an array is reported contiguous only if its elements lie one after another in memory.",
 "for_all": "every rank, shape, element size, memory order, slice bounds and steps (negative ones included) and every sequence of view operations", "over": ["inputs", "histories"],
 "why": "Tests use two small fixed arrays; the space of shapes, strides and operation sequences is unbounded.",
 "files": ["src/dlite-arrays.c", "src/dlite-arrays.h"],
 "mech": [("strides computed in dlite_array_create, composed in dlite_array_slice and dlite_array_transpose", "src/dlite-arrays.c"), ("odometer in dlite_array_iter_next", "src/dlite-arrays.c")],
 "observe": ["dlite_array_index", "dlite_array_iter_next", "dlite_array_slice", "dlite_array_transpose", "dlite_array_reshape"], "hook": "loop annotations (DLITE_VERIFY)",
 "note": "Proved with loop contracts for any rank: contiguity test, transpose, iterator step. Bounded proofs: indexing for ranks 1-4, slicing for one dimension. The composition of views is a bounded native stand-in. dlite_array_create is assumed by contract in two units."},
{"id": "R01", "title": "Rounding to powers of two is exact",
 "statement": "Rounding an unsigned number up (down) to a power of two gives the smallest (largest) power of two that is not below (above) it, and zero when there is none.",
 "for_all": "every 64-bit argument",
 "why": "Tests evaluate a few small arguments; the property is about all 2^64.",
 "files": ["src/utils/clp2.c"], "mech": [("clp2, flp2", "src/utils/clp2.c")], "observe": ["clp2", "flp2"],
 "note": "Proved for all 64-bit arguments, no assumptions."},
{"id": "A02", "title": "Array data are converted element by element, whatever the memory layouts",
 "statement": "Copying an n-dimensional array into another, with any strides, element types and element sizes on either side, puts the cast of the k-th source element (C order) into the k-th destination element for every k, leaves every other byte of the destination and the whole source alone, and copies strings rather than sharing them. Arrays with different numbers of elements are refused without touching the destination, and a failing element cast is reported.",
 "for_all": "every rank, shape, pair of strides, pair of element types and sizes",
 "why": "Tests copy a few two-dimensional arrays of fixed shape; the combinations of rank, shape, strides and types are unbounded.",
 "files": ["src/dlite-type.c", "src/dlite-entity.c"],
 "mech": [("dlite_type_ndcast: odometers over both index spaces and a bulk-copy shortcut", "src/dlite-type.c")],
 "observe": ["dlite_type_ndcast"],
 "note": "Bounded proofs of the real function against a contract that names the memory cell of every element (ranks 1 and 2, up to 3 elements a side, any strides within +-20, any pair of the types); ranks up to 3 and string arrays in the native stand-in. The element cast itself is property C01. Allocation is assumed to succeed."},
{"id": "T01", "title": "Type names and types correspond one to one",
 "statement": "Every data type and size has a name, and parsing that name gives back exactly this type and size. A text (up to its first character other than letters, digits and underscore) that is not the name of a type is refused and leaves the result as it was. A name is never written beyond the buffer given for it.",
 "for_all": "every type and size, every text, every buffer size",
 "why": "Tests look up a list of names; near misses, sizes and buffer lengths are unbounded.",
 "files": ["src/dlite-type.c"],
 "mech": [("type table lookup and number parsing in dlite_type_set_dtype_and_size", "src/dlite-type.c"), ("dlite_type_set_typename", "src/dlite-type.c")],
 "observe": ["dlite_type_set_dtype_and_size", "dlite_type_set_typename", "dlite_type_get_dtype", "dlite_type_get_dtypename"],
 "note": "Names of types: proved for all types; parser proved for all texts up to 12 characters; metadata references (an URI as type) are assumed by contract and exercised natively."},
{"id": "L01", "title": "Instance memory layout has no overlap, correct alignment and enough room",
 "statement": "The memory layout computed for a metadata places the header, the dimensions, every property, the relations and the property-dimension tables at aligned, mutually disjoint offsets inside the allocated instance with no more padding than the alignment demands, exactly as the C compiler would lay out the corresponding struct; types and sizes without a known layout are refused.",
 "for_all": "every metadata: any number, order, type and size of properties and dimensions",
 "why": "Tests build a handful of entities; an overlap or a missing pad byte shows only for particular sequences of types.",
 "files": ["src/dlite-type.c", "src/dlite-entity.c"],
 "mech": [("alignment table and padding: dlite_type_get_alignment, dlite_type_padding_at, dlite_type_get_member_offset", "src/dlite-type.c"), ("dlite_meta_init, dlite_instance_size", "src/dlite-entity.c")],
 "observe": ["dlite_type_get_alignment", "dlite_type_padding_at", "dlite_type_get_member_offset", "dlite_meta_init", "dlite_instance_size"],
 "note": "Alignment, padding and member offsets: proved for all types, sizes and offsets. dlite_meta_init: proved for metadata with 1 to 4 properties of any types (bounded). Instance size: proved. Whole instances of random metadata natively."},
{"id": "I01", "title": "A frozen instance cannot be changed",
 "statement": "Once an instance is frozen, every operation that would change its property values, its dimension sizes or its parent is refused with an error and changes nothing; freezing changes nothing but the flag, and copies of a frozen instance are independent and mutable.",
 "for_all": "every instance, every sequence of operations after freezing", "over": ["inputs", "histories"],
 "why": "Tests try one setter; the guarantee is about every entry point and every instance.",
 "files": ["src/dlite-entity.c", "src/dlite-entity.h"],
 "mech": [("check of _flags & dliteImmutable in every mutator", "src/dlite-entity.c")],
 "observe": ["dlite_instance_set_property_by_index", "dlite_instance_set_dimension_sizes", "dlite_instance_set_parent", "dlite_instance_snapshot", "dlite_instance_assign_casted_property_by_index", "dlite_instance_scan_property_by_index"],
 "note": "Proved for every instance: each mutator has the contract 'immutable => error and assigns nothing'. The set of mutators is enumerated by hand; the by-name wrappers, copies and sequences are exercised natively."},
{"id": "I02", "title": "Transactions keep exact earlier states and detect any tampering",
 "statement": "Taking a snapshot keeps an exact, frozen copy of the state as parent, snapshot n of an instance is its n-th ancestor, setting a parent records its uuid and hash and moves exactly one reference, and verifying an instance succeeds if and only if its own hash (when given) and, along the chain, the recorded hash of every ancestor match: a change of any byte of a value, dimension, metadata uri, recorded parent uuid or recorded parent hash of an ancestor is detected. A refused parent changes nothing.",
 "for_all": "every instance, chain of snapshots and change of an ancestor", "over": ["inputs", "histories"],
 "why": "Tests verify one short chain; a byte the hash does not cover is only noticed when exactly that byte is changed.",
 "files": ["src/dlite-entity.c", "src/dlite-type.c"],
 "mech": [("dlite_instance_get_hash and dlite_type_update_sha3 feed every byte to the hash", "src/dlite-entity.c"), ("dlite_instance_verify_hash walks the parents", "src/dlite-entity.c"), ("dlite_instance_set_parent, dlite_instance_snapshot", "src/dlite-entity.c")],
 "observe": ["dlite_instance_get_hash", "dlite_instance_verify_hash", "dlite_instance_set_parent", "dlite_instance_get_snapshot", "dlite_instance_snapshot"],
 "note": "Proved: set_parent, verify_hash (induction over the chain through its own contract). Bounded proofs: the byte stream that is hashed (each position of it), get_snapshot. Assumed: sha3 is collision free (its conformance is property H01); get_hash by contract in verify_hash. The stream has no boundaries between neighbouring strings: recorded as a known finding."},
{"id": "I03", "title": "References are counted exactly and instances live as long as they are referenced",
 "statement": "An instance exists in the instance store exactly as long as someone holds a reference: creating, looking up, copying, referring to it from a property and releasing it change its reference count by exactly one, it is freed exactly when the last reference is released, lookups return the very instance, and failed operations leave all counts and the store as they were. Creating an instance of an already existing id returns the existing one or fails.",
 "for_all": "every sequence of creations, lookups, copies, property assignments and releases", "over": ["histories"],
 "why": "Tests create and free a few instances; leaks and premature frees depend on the sequence of operations.",
 "files": ["src/dlite-entity.c", "src/dlite-type.c"],
 "mech": [("dlite_instance_incref, dlite_instance_decref, instance store", "src/dlite-entity.c"), ("reference properties in dlite_type_copy and dlite_type_clear", "src/dlite-type.c")],
 "observe": ["dlite_instance_incref", "dlite_instance_decref", "dlite_instance_get", "dlite_instance_has", "dlite_instance_create"],
 "note": "incref/decref proved for every count. Histories over the store are executed natively against a model (bounded)."},
{"id": "D01", "title": "Resizing keeps what fits, zeroes what is new and touches nothing else",
 "statement": "Changing dimension sizes of an instance gives every array property the shape its dimension expressions evaluate to with the new sizes; elements that still fit (in memory order) keep their values, new ones are zero or unset, elements that go away are released once, arrays without elements have no storage, properties and dimensions not concerned keep their values. A refused resize (unknown dimension, negative or invalid size expression) changes nothing.",
 "for_all": "every metadata, every sequence of resizes", "over": ["inputs", "histories"],
 "why": "Tests resize one instance once; the behaviour depends on old and new sizes of every array.",
 "files": ["src/dlite-entity.c"],
 "mech": [("dlite_instance_set_dimension_sizes, _instance_propdims_eval", "src/dlite-entity.c")],
 "observe": ["dlite_instance_set_dimension_sizes", "dlite_instance_set_dimension_size", "dlite_instance_set_dimension_size_by_index"],
 "note": "Bounded proofs of resizing (three properties, up to 2 elements along a dimension), of the evaluation of dimension expressions and of the single-dimension entry point; random metadata and sequences natively. Allocation is assumed to succeed."},
{"id": "E01", "title": "Integer expressions are evaluated exactly, everything else is refused",
 "statement": "A well-formed integer expression (numbers in C notation, known variables, parentheses and the twelve documented binary operators) evaluates to the value given by operator precedence and evaluation from the left among equals, as long as every intermediate value is an int. Malformed text, unknown variables, numbers that are no int, unbalanced parentheses and division by zero are refused with INT_MIN and a message of at most the given length; nothing crashes. An expression is reported to depend on a variable exactly if that variable occurs in it as a whole identifier.",
 "for_all": "every text, every list of variables, every size of the message buffer",
 "why": "Tests evaluate a list of expressions; nesting, precedence pairs and malformed texts are unbounded. The shapes of all arrays depend on it.",
 "files": ["src/utils/infixcalc.c"], "mech": [("shunting-yard loop in infixcalc, eval, binary_eval, parse_token, get_variable", "src/utils/infixcalc.c")],
 "observe": ["infixcalc", "infixcalc_depend"],
 "note": "Proved: each operator on all operands, the evaluation step on stacks of any height, pushing. Bounded proofs: variable lookup, precedence and associativity of every pair of operators with all values. Whole texts: bounded native comparison with an independent evaluator."},
{"id": "P01", "title": "Percent and hex encodings round trip and stay within their buffers",
 "statement": "Percent-encoding leaves exactly the unreserved characters of RFC 3986 as they are and writes every other byte as %XX; decoding the result gives back the bytes. Decoding arbitrary text replaces valid escapes and copies everything else, in place if wanted. The size announced for a missing destination is exactly the number of bytes written before the terminating NUL. Hex encoding writes two lower-case digits per byte, only whole bytes if the buffer is short, always terminated and never beyond the buffer; hex decoding accepts both cases, refuses an odd length and non-digits, and gives back the bytes.",
 "for_all": "every byte string, every text, every buffer size",
 "why": "Tests encode a few strings; particular bytes, truncation points and malformed escapes are not sampled.",
 "files": ["src/utils/uri_encode.c", "src/utils/strutils.c"], "mech": [("uri_encode, uri_decode and their tables", "src/utils/uri_encode.c"), ("strhex_encode, strhex_decode", "src/utils/strutils.c")],
 "observe": ["uri_encode", "uri_decode", "strhex_encode", "strhex_decode"], "hook": "loop annotations (DLITE_VERIFY)",
 "note": "Encoding and decoding of encoded text: proved with loop invariants for strings up to 32 bytes (the bound only sizes the buffers). Decoding of any text up to 6 bytes and hex up to 4 bytes: bounded proofs. Longer ones natively."},
{"id": "U01", "title": "The UUID of an instance is a function of its id alone",
 "statement": "An id that is a UUID, or a URL that ends in one (after more than nine characters), denotes that UUID in lower case; any other id of any length denotes the version 5 UUID in the DNS namespace of the id itself or, for an id that is no URL while namespaced ids are enabled, of the id prefixed with http://onto-ns.com/data/; no id (NULL, empty) gives a fresh random version 4 UUID. The type of id reported tells which; the text an id is embedded in does not matter. Converting a UUID to text and back gives it back, text that is not of the form 8-4-4-4-12 hexadecimal digits is refused, and comparing UUIDs is the order of their texts.",
 "for_all": "every id of any length and content, either setting of namespaced ids",
 "why": "Tests look up a handful of ids; all storages rely on the same id giving the same UUID for every id, length and case.",
 "files": ["src/dlite-misc.c", "src/utils/uuid.c", "src/utils/uuid4.c"],
 "mech": [("_dlite_get_uuidn", "src/dlite-misc.c"), ("uuid_create_sha1_from_name, uuid_as_string, uuid_from_string, isuuid", "src/utils/uuid.c"), ("uuid4_generate", "src/utils/uuid4.c")],
 "observe": ["dlite_get_uuid", "dlite_get_uuidn", "dlite_idtype", "dlite_isuuid", "uuid_from_string", "uuid_as_string", "uuid_compare"],
 "note": "Proved for all inputs: recognition, text form in both directions, comparison, version and variant bits, random UUIDs. Bounded proofs: which UUID an id gives, for ids of ten lengths (all contents) covering each branch; hashing of names up to 24 bytes. Trusted: models of printf/scanf; SHA-1 is property H01, URL recognition W01. Whole computation with an independent SHA-1 natively."},
{"id": "W01", "title": "URLs and metadata URIs are recognised, split and joined by their grammar",
 "statement": "A text is taken for a URL exactly if it follows the RFC 3986 grammar (scheme, optional authority, path, query, fragment, with only the characters allowed in each), Windows drives excepted and depending only on the given number of characters; its components are exactly the parts of the text, and joining the components of a URL gives it back, never writing beyond the buffer. Percent-encoding and decoding are inverse and malformed escapes are refused. A metadata URI splits into namespace, version and name at its last two slashes, joining them gives it back, and a text with fewer parts is refused.",
 "for_all": "every text and every length considered",
 "why": "Tests split a few URLs; the grammar has unbounded texts, and ids embedded in larger texts are not tested.",
 "files": ["src/utils/urlsplit.c", "src/utils/strutils.c", "src/dlite-misc.c"],
 "mech": [("urlsplitn and the character categories", "src/utils/urlsplit.c"), ("strcategory", "src/utils/strutils.c"), ("dlite_split_meta_uri, dlite_join_meta_uri", "src/dlite-misc.c")],
 "observe": ["isurl", "isurln", "urlsplit", "urlsplitn", "urljoin", "pct_encode", "pct_decode", "dlite_split_meta_uri", "dlite_join_meta_uri"],
 "note": "Character categories: proved for every int. Bounded proofs: segments (6 characters), percent-encoding (3), splitting (every text of 4 and 6 characters: the parts make up the text). Longer texts, joining and metadata URIs natively against POSIX regular expressions. An empty first path segment is refused although RFC 3986 allows it; joining is not claimed for IP literals, percent escapes and empty parts."},
{"id": "F01", "title": "UTF-8 is encoded exactly and never cut inside a code point",
 "statement": "Encoding a code point gives its shortest UTF-8 form and decoding gives it back; values out of range and malformed or cut off sequences are refused, and decoding never reads behind the end of a text. Copying a text to a buffer of any size writes the longest prefix of whole code points that fits, always terminated, never beyond the buffer, and reports the full length. Writing to a growing buffer gives exactly the text at the position asked for.",
 "for_all": "every code point, every text, every buffer size",
 "why": "Tests use a few texts; truncation points inside multi-byte characters are not sampled.",
 "files": ["src/utils/unicode.c", "src/utils/strutils.c"], "mech": [("utf8encode, utf8decode", "src/utils/unicode.c"), ("strsetc, strsets, strsetn", "src/utils/strutils.c")],
 "observe": ["utf8encode", "utf8decode", "strsetc", "strsets", "strsetn", "strput", "strnput", "strnput_escape"],
 "note": "Encoding, decoding and writing one byte: proved for all values, bytes and buffer sizes. Copying: bounded proof (texts up to 5 bytes). Longer texts and growing buffers natively."},
{"id": "H01", "title": "SHA-3, SHA-1 and MD5 digests are the standard ones however the data arrives",
 "statement": "sha3_* gives the FIPS 202 digest of 256, 384 or 512 bits (or, with the Keccak flag, the one with the original padding), SHA1* the FIPS 180-4 digest and MD5* the RFC 1321 digest of all bytes given since initialisation, in order, whatever the sizes of the pieces they are given in, including empty ones. sha3_HashBuffer writes no more than the digest and no more than the size given; other digest sizes are refused.",
 "for_all": "every message and every way to cut it into pieces", "over": ["inputs", "histories"],
 "why": "Tests hash a few messages in one piece; the buffering depends on message length modulo the block size and on where the pieces are cut.",
 "files": ["src/utils/sha3.c", "src/utils/sha1.c", "src/utils/md5.c"],
 "mech": [("keccakf, sha3_Update, sha3_Finalize", "src/utils/sha3.c"), ("SHA1Transform, SHA1Update, SHA1Final", "src/utils/sha1.c"), ("body, MD5Update, MD5Final", "src/utils/md5.c")],
 "observe": ["sha3_Init", "sha3_Update", "sha3_Finalize", "sha3_HashBuffer", "SHA1Update", "SHA1Final", "SHA1", "MD5Update", "MD5Final"], "hook": "ghost cut points (DLITE_VERIFY)",
 "note": "Proved for all inputs: the compression functions (each round against the standard), initial values, padding and digest. Bounded proofs: how pieces are buffered (positions and sizes around every word and block boundary, all contents and states). Whole messages in random pieces natively."},
{"id": "J01", "title": "JSON keeps instances and metadata exactly",
 "statement": "Writing an instance to JSON and reading it back gives an instance with the same UUID, URI, metadata, dimensions and values: integers and booleans exactly, floating point numbers bit for bit, text byte for byte whatever characters it contains (quotes, backslashes, control and non-ASCII characters), NULL distinct from the empty text, arrays of every rank element by element. Metadata come back with all properties, dimensions, units, descriptions and shapes. Several instances in one document are all found, each under its own UUID, and appending an instance leaves the others as they were. Quoting a text and unquoting the result give the text, nothing is written beyond the given buffer, the full length is reported, and a text that is cut off is refused.",
 "for_all": "every instance and metadata of supported types, every text, every buffer size", "over": ["inputs", "histories"],
 "why": "Tests write a few instances with plain ASCII names and round numbers; escapes, NULLs, digits and appended documents were not sampled (four defects were found).",
 "files": ["src/dlite-json.c", "src/dlite-type.c", "src/dlite-entity.c", "src/utils/strutils.c", "src/utils/jsmnx.c", "src/utils/jstore.c"],
 "mech": [("strnquote, strnunquote, strnput_unquote", "src/utils/strutils.c"), ("dlite_type_print, dlite_type_scan", "src/dlite-type.c"), ("dlite_property_print, dlite_property_scan", "src/dlite-entity.c"), ("dlite_json_sprint, dlite_json_append, dlite_json_sscan", "src/dlite-json.c")],
 "observe": ["dlite_json_sprint", "dlite_json_sscan", "dlite_json_append", "dlite_json_printfile", "strquote", "strunquote", "dlite_type_print", "dlite_type_scan"],
 "note": "Proved for all values: printing and reading one integer (every width), float32, float64, boolean. Bounded proofs: text (quoting: up to 3 characters, every character and buffer size), blobs, arrays of numbers. Whole documents natively. Assumed: decimal conversion of libc is exact at DECIMAL_DIG digits. Long doubles, inf and nan, and names with quotes are not claimed."},
{"id": "V01", "title": "Version numbers are recognised and ordered as semantic versions",
 "statement": "A text is accepted as a version exactly if its whole (or the given number of its bytes, and depending on these only) follows the grammar of semantic versioning 2.0.0; its length is returned, otherwise -1. Versions are compared numerically by major, minor and patch number of any length, then by pre-release identifiers: numeric ones numerically and before alphanumeric ones, alphanumeric ones in ASCII order, more identifiers after fewer; build metadata do not count. The comparison is antisymmetric and transitive. (A release is ordered before its own pre-releases, as the existing tests demand.)",
 "for_all": "every text and length, every pair of versions",
 "why": "Tests compare a dozen versions; deprecation and behaviour switches depend on the order of any two.",
 "files": ["src/utils/strutils.c", "src/dlite-misc.c", "src/dlite-behavior.c"], "mech": [("strnchk_semver, strncmp_semver", "src/utils/strutils.c")],
 "observe": ["strchk_semver", "strnchk_semver", "strcmp_semver", "strncmp_semver"],
 "note": "Bounded proofs: recognition of every text up to 11 bytes (14 with a fixed core), order of every two versions of up to 9 characters (pre-releases up to 6). Longer ones and transitivity natively. The order of releases and their pre-releases deviates from the standard; recorded as a known finding."},
{"id": "K01", "title": "A collection is a set of relations and a map from labels to instances it holds",
 "statement": "After any sequence of operations a collection contains exactly the relations and labelled instances added and not removed. Adding under a label that is taken is refused and changes nothing; a label stands for the instance it was added for, with its uuid and metadata. The collection holds exactly one reference for every label: adding takes one (or takes over the caller's), removing and freeing the collection release it, looking up and iterating leave all counts unchanged (or, where documented, return one new reference). Relations are found and removed exactly where they match the pattern, and the number removed is returned. The hash depends on every relation and on the hash of every instance, not on the order they were added in. The relations read as a property and loaded again (directly, from JSON, or from a storage together with the instances that are not in memory) give the same collection.",
 "for_all": "every collection and sequence of operations", "over": ["inputs", "histories"],
 "why": "Tests build one or two collections; reference counts, hashes and reloading were not checked for others (four defects were found).",
 "files": ["src/dlite-collection.c", "src/triplestore-redland.c", "src/triple.c"],
 "mech": [("dlite_collection_add_new, dlite_collection_remove, dlite_collection_deinit", "src/dlite-collection.c"), ("dlite_collection_gethash", "src/dlite-collection.c"), ("dlite_collection_loadprop, dlite_collection_saveprop, dlite_collection_load", "src/dlite-collection.c")],
 "observe": ["dlite_collection_add", "dlite_collection_remove", "dlite_collection_get", "dlite_collection_next", "dlite_collection_count", "dlite_collection_find", "dlite_collection_remove_relations", "dlite_instance_get_hash", "dlite_collection_load", "dlite_collection_save"],
 "note": "Bounded proofs over a contract of the triplestore: every function in every state with two labels, two instances and one more relation, in several orders. The real triplestore (librdf), longer histories, JSON and storages natively. Not claimed: collections loaded while one of their instances can not be found at all."},
{"id": "B01", "title": "An instance or metadata written as BSON is read back the same",
 "statement": "For every instance the BSON document has exactly the size that is reported with no buffer or one that is too small; nothing is written past a buffer, and a buffer that is too small for an element is left alone by it. Read again, when the instance is no longer in memory, the document gives the same uuid, uri, metadata, dimensions, values of all properties (NULL in an array of strings becomes the empty text), references to the same instances (one reference each), relations and parent; an instance that is in memory is returned as a new reference instead. Metadata come back with name, version, namespace, description and every field of their dimensions and properties. In any document elements are found in the order they were appended, with their type, name, size and data; an element asked for by name and type is the first of that name, and another type or a missing element is reported, never misread.",
 "for_all": "every instance, metadata, buffer size and sequence of elements",
 "why": "Tests write and read two fixed instances; relations, references, unsigned integers, strings that are NULL and metadata did not survive (14 defects were found).",
 "files": ["src/dlite-bson.c", "src/utils/bson.c"],
 "mech": [("bson_append, bson_parse, bson_begin_subdoc, bson_end_subdoc, bson_begin_binary, bson_end_binary", "src/utils/bson.c"), ("dlite_bson_append_instance, append_property", "src/dlite-bson.c"), ("dlite_bson_load_instance, set_scalar_property, set_array_property", "src/dlite-bson.c")],
 "observe": ["dlite_bson_from_instance", "dlite_bson_append_instance", "dlite_bson_load_instance", "bson_append", "bson_parse", "bson_scan", "bson_nelements"],
 "note": "Bounded proofs: an element of any type appended to any earlier content and parsed again (names of 2, data of up to 11 bytes), every value of every property type written and read, arrays of 2, whole small instances and metadata. Larger instances and documents natively. Documents that were damaged are outside the property."},
# ---------------------------------------------------------------- not applicable
{"id": "Z01", "title": "Instances survive a round trip through every storage backend",
 "statement": "Saving an instance to any storage (HDF5, YAML, RDF, CSV, MongoDB and other Python plugins) and loading it again gives an equal instance.",
 "for_all": "every instance, every storage plugin", "over": ["inputs", "configurations"],
 "why": "Tests store a few fixed instances.", "files": ["storages/", "src/dlite-storage.c"], "mech": [("storage plugins", "storages/")],
 "na": "The property lives in the composition of the C core with libhdf5, librdf and Python libraries (h5py, yaml, rdflib) whose behaviour no contract in reach can state; contracts assumed on those libraries would be the property itself."},
{"id": "Z02", "title": "Python bindings and the C library agree on every instance",
 "statement": "Every property, dimension and metadata value seen from Python equals the one seen from C, and reference counts stay balanced across the boundary.",
 "for_all": "every program using the bindings", "over": ["programs", "histories"],
 "why": "Tests run fixed scripts.", "files": ["bindings/python/", "src/pyembed/"], "mech": [("SWIG typemaps", "bindings/python/dlite-typemaps.i")],
 "na": "The deciding code is SWIG-generated and CPython API calls; no deductive verifier here takes SWIG typemaps or CPython's reference-count protocol, and contracts for the CPython API would all be assumptions."},
{"id": "Z03", "title": "Concurrent use of separate storages does not interfere",
 "statement": "Threads that work on different instances and storages do not observe each other's state.",
 "for_all": "every schedule", "over": ["schedules"], "why": "Tests are single threaded.",
 "files": ["src/utils/session.c", "src/dlite-misc.c"], "mech": [("session/global state", "src/utils/session.c")],
 "na": "Contract-based deductive verification as available here (CBMC contracts) has no concurrency model; the library documents no thread-safety guarantee for its global instance store."},
{"id": "Z04", "title": "Triplestore queries return exactly the stored triples",
 "statement": "After any sequence of additions and removals a search returns exactly the triples added and not removed that match the pattern.",
 "for_all": "every sequence of operations", "over": ["histories"], "why": "Tests use a few triples.",
 "files": ["src/triplestore-redland.c"], "mech": [("librdf model", "src/triplestore-redland.c")],
 "na": "The configured build uses the Redland back end: the set semantics is librdf's, an external library; the C code here only converts nodes and would verify against assumed contracts that state the property."},
{"id": "Z05", "title": "Generated code compiles and describes the entity it came from",
 "statement": "Code generated from a metadata template compiles and its structure layout equals that of the instances it is used with.",
 "for_all": "every metadata and template", "over": ["programs"], "why": "Tests generate code for a few entities.",
 "files": ["src/dlite-codegen.c", "tools/templates/"], "mech": [("template expansion", "src/utils/tgen.c")],
 "na": "The oracle is a C/Python/Fortran compiler applied to generated text; there is no contract on functions in /repo that expresses it."},
{"id": "Z06", "title": "Mappings find the cheapest conversion path",
 "statement": "Mapping instances to a target metadata applies a chain of mapping plugins of least total cost, or fails when none exists.",
 "for_all": "every set of plugins and inputs", "over": ["configurations"], "why": "Tests load a couple of plugins.",
 "files": ["src/dlite-mapping.c"], "mech": [("mapping_create_rec", "src/dlite-mapping.c")],
 "na": "The search runs over dynamically loaded plugins through function pointers and recursive heap structures (maps of maps); CBMC contracts have no recursive heap predicates able to state path optimality, and a bounded run would test plugins rather than prove the search."},
]
