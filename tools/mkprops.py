#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as code so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Writing a Value as YAML and reading it back yields the same Value",
 "For every Value built from nulls, booleans, numbers, strings, sequences, mappings (with keys of any of these kinds) and tagged values (no tag directly inside a tag, tag names of word characters) within the nesting limit, to_string succeeds and from_str of the text gives an equal Value, with mapping entries in the same order and numbers of the same kind (integer stays integer, float stays float, including NaN and the infinities). Inside a stream of several documents written by one Serializer the same holds document by document.",
 ["inputs"], "all Values: every nesting of every kind, every string, every finite/special number, block positions as document, element, key and value",
 "The tests round-trip a few dozen literal values; whether style, indentation, delayed mapping start and tag emission are right depends on combinations of kind, position and content.",
 ["src/ser.rs", "src/de.rs", "src/value/ser.rs", "src/value/de.rs", "src/value/tagged.rs", "src/libyaml/emitter.rs"],
 [("serializer state machine (tag detection, delayed mapping start)", "src/ser.rs State, take_tag, flush_mapping_start, serialize_map, collect_str"),
  ("untyped deserialization", "src/de.rs deserialize_any, visit_untagged_scalar; src/value/de.rs ValueVisitor"),
  ("scalar style inference", "src/ser.rs serialize_str InferScalarStyle")],
 observe=["to_string", "from_str::<Value>"])

prop("C02", "to_string and to_value represent any serializable data identically",
 "For every well-formed sequence of serde calls (any nesting of the data model: scalars, options, units, newtypes, sequences, tuples, maps with keys of any kind, structs, and enum variants of all four kinds without an enum payload directly inside an enum payload; length hints, where given, right), to_string and to_value both succeed and parsing the text gives exactly the Value that to_value gives (an f32 compared as f32). The result is the documented representation: newtypes and Some are transparent, unit and None are null, a unit variant is its name, every other variant is its payload under the tag of its name, structs are mappings in field order. Data the format cannot represent in text (bytes, an enum payload directly inside an enum payload) is refused with an error and never written wrongly; 128-bit integers outside the 64-bit range become strings in to_value.",
 ["inputs", "histories"], "all finite trees of serde data-model calls, in particular every kind of value in the position of the only key of a map",
 "The serializer is a mutable state machine whose correctness depends on call histories (single-entry maps, nested tags, variants as keys); tests exercise some 40 fixed trees.",
 ["src/ser.rs", "src/value/ser.rs", "src/value/tagged.rs"],
 [("streaming serializer states", "src/ser.rs enum State and all serialize_* methods"), ("tree serializer", "src/value/ser.rs Serializer, SerializeMap::{CheckForTag,Tagged,Untagged}"),
  ("tag key detection", "src/value/tagged.rs check_for_tag")],
 state=[("state", "pending mapping start / found tag / already tagged", "src/ser.rs Serializer.state"), ("depth", "open collections, document end at 0", "src/ser.rs Serializer.depth")],
 observe=["to_string", "to_value", "from_str::<Value>"])

prop("C03", "A string is always written so that it reads back as that same string",
 "For every Unicode string, wherever it occurs (document, element, key, value, tagged, struct field value, char, unit variant name), the text written by to_string is valid YAML that reads back as exactly that string, both untyped (Value::String, never null, a boolean or a number) and as String. In particular text that plain YAML would resolve to something else, digit strings with leading zeros, empty strings, and strings with leading, trailing or only white space, line breaks, control characters, quotes or indicators all survive byte for byte.",
 ["inputs"], "all Unicode strings in all syntactic positions",
 "Quoting is decided by the interplay of the resolver, the style inference and the emitter; tests cover about fifteen strings.",
 ["src/ser.rs", "src/de.rs", "src/libyaml/emitter.rs"],
 [("style inference through the resolver", "src/ser.rs serialize_str"), ("number-like strings", "src/de.rs digits_but_not_number"), ("literal style for multi-line strings", "src/ser.rs serialize_str")],
 observe=["to_string", "from_str::<Value>", "from_str::<String>"])

prop("C04", "Untyped scalars resolve by the documented YAML 1.2 style rules",
 "Read as a Value, a plain scalar is null exactly for the empty scalar and ~, null, Null, NULL; a boolean exactly for true/True/TRUE/false/False/FALSE; an integer exactly for an optional sign followed by decimal digits without a superfluous leading zero, or by 0x, 0o or 0b and digits of that radix (one sign, before the prefix); a float exactly for a finite decimal float literal that is not one of those digit strings, or for .inf/.nan in the three documented capitalizations (signed for .inf); and otherwise a string with that exact content. A quoted or block scalar is always a string, whatever its content. The core tags !!null, !!bool, !!int, !!float and !!str force their type or fail with an error, and a local tag yields that tag around the untagged resolution.",
 ["inputs"], "all scalar texts, all scalar styles, all core and local tags; integer literals outside [i64::MIN, u64::MAX] that fit 128 bits are refused with an error rather than rounded, decimal ones beyond 128 bits are floats",
 "The resolution rules are a case analysis over all strings; tests sample around sixty.",
 ["src/de.rs"],
 [("untagged resolution", "src/de.rs visit_untagged_scalar, parse_null, parse_bool, visit_int, parse_f64, digits_but_not_number"), ("core tags", "src/de.rs visit_scalar")],
 observe=["from_str::<Value>"])

prop("C05", "Integers and floats are read exactly or refused, and written reversibly",
 "Reading a scalar as an integer type of any width (8 to 128 bits, signed or unsigned) yields exactly the mathematical value of the decimal, hexadecimal, octal or binary literal when it is in range of the type and an error otherwise, never a wrapped, truncated or rounded number. Every integer and every float written by to_string, or by to_value when a Value holds it (64-bit integers and floats), reads back with the same value, floats with the same bits (up to the payload and sign of NaN) and always as a float. Reading an integer or float literal as an f64 gives the nearest float.",
 ["inputs"], "all literals around all type bounds and radices, all 128-bit integers, all floats",
 "Overflow and sign handling has a separate path per width, radix and sign; tests check a handful of limits.",
 ["src/de.rs", "src/ser.rs", "src/number.rs", "src/value/de.rs", "src/value/ser.rs"],
 [("radix and sign parsing", "src/de.rs parse_unsigned_int, parse_signed_int, parse_negative_int"), ("typed integers", "src/de.rs deserialize_i8..u128"), ("float formatting", "src/ser.rs serialize_f64, serialize_f32")],
 observe=["from_str::<iN/uN/f32/f64/Value>", "to_string", "to_value"])

prop("C06", "An alias always stands for the node last given that anchor in its document",
 "Reading a document with anchors and aliases gives the same result, or an error in both cases, as reading the document in which every alias is textually replaced by the node that most recently carried that anchor name before it in the same document. This holds for scalars, sequences, mappings, keys and tagged nodes, for anchors redefined any number of times and nested in each other, for untyped and typed targets, for skipped (ignored) parts, and with positions after the alias unaffected. An alias to a name not yet anchored in the same document is an error, also when an earlier document of the stream defines the name.",
 ["inputs", "histories"], "all documents over all placements, redefinitions and nestings of anchors and aliases within the repetition limits",
 "Correctness depends on the order of definitions, redefinitions and uses; tests use each anchor once.",
 ["src/loader.rs", "src/de.rs"],
 [("anchor table per document", "src/loader.rs next_document anchors/aliases"), ("jump to an aliased node", "src/de.rs DeserializerFromEvents::jump"), ("skipping", "src/de.rs ignore_any")],
 state=[("anchors", "anchor name to node id", "src/loader.rs"), ("aliases", "node id to first event", "src/loader.rs Document.aliases"), ("pos", "cursor", "src/de.rs DeserializerFromEvents.pos")],
 observe=["from_str::<Value>", "from_str::<T>"])

prop("C07", "A stream is read as exactly its documents, each independent of the others",
 "Iterating a Deserializer over a stream yields one item per document, in order, each deserializing to what that document alone would give, whatever type each is read as and whether or not earlier items were deserialized, dropped or failed with a type error or an unknown anchor. An empty stream is one null document. The single-document functions succeed only for streams of exactly one document and otherwise report more than one document, or an error in any part of the text, and never silently ignore trailing content.",
 ["inputs", "histories"], "all streams of documents (valid, empty, with unknown anchors, ill-typed, syntactically broken) and all orders of consuming, dropping and failing",
 "Stream behaviour depends on the history of iterator calls; tests iterate two or three good documents.",
 ["src/de.rs", "src/loader.rs"],
 [("iterator", "src/de.rs impl Iterator for Deserializer"), ("single document check", "src/de.rs Deserializer::de"), ("document boundaries", "src/loader.rs next_document")],
 state=[("document_count", "documents loaded so far", "src/loader.rs Loader"), ("progress", "which input form is being consumed", "src/de.rs Progress")],
 observe=["Deserializer::{from_str,from_slice,from_reader}", "Iterator::next", "from_str"])

prop("C08", "Strings, byte slices and readers give the same result; read faults surface",
 "Reading the same bytes through from_str, from_slice and from_reader (and the corresponding Deserializer constructors) gives the same values and the same errors at the same locations, however the reader splits the bytes into chunks and however often it is interrupted. If the reader fails at any point, the call reports that I/O error and no value is returned. Bytes that are not valid UTF-8 are refused with an error.",
 ["inputs", "schedules", "fault_sequences"], "all texts, all chunkings and interruptions, a failure at every read",
 "Tests read from one in-memory cursor; chunk boundaries and faults are never exercised.",
 ["src/de.rs", "src/loader.rs", "src/libyaml/parser.rs"],
 [("input collection", "src/loader.rs Loader::new"), ("parser input handling", "src/libyaml/parser.rs Parser::new")],
 observe=["from_str", "from_slice", "from_reader", "Error::location"])

prop("C09", "Output is complete and identical for any writer; write faults surface",
 "For any sequence of values serialized through one Serializer (or to_writer), the bytes delivered to the writer are exactly the bytes to_string produces for them, with a document marker between documents (and a closing ... where the last document is open-ended), however the writer splits, shortens or interrupts writes. When flush, into_inner or to_writer returns successfully everything was delivered, and flush has flushed the writer; if a write fails, the call in which it happens or the call finishing the document reports the I/O error, what was delivered is a prefix of the correct output, and nothing panics (the serializer is not used further after an error).",
 ["schedules", "fault_sequences", "histories"], "all document sequences, all short-write and interruption schedules, a failure at every write call",
 "Tests only write into a Vec; no test uses a failing or partial writer.",
 ["src/ser.rs", "src/libyaml/emitter.rs"],
 [("write handler", "src/libyaml/emitter.rs write_handler, Emitter::emit"), ("document end and flush", "src/ser.rs value_end, Serializer::flush, into_inner")],
 state=[("write error", "first I/O error kept for the caller", "src/libyaml/emitter.rs EmitterPinned.write_error"), ("depth", "open collections", "src/ser.rs Serializer.depth")],
 observe=["to_writer", "Serializer::{new,flush,into_inner}", "io::Write calls"])

prop("C10", "Nesting and alias expansion are bounded exactly as designed",
 "A document nested at most 128 collections deep is read and one nested deeper (or whose aliases nest deeper, or refer to an enclosing node) is refused with the recursion limit error; the limit counts depth (newtype wrappers of the target included), not the number of collections. Reading a document whose aliases are followed at most 100 times as often as it has parser events succeeds, while going beyond that is refused with the repetition limit error, so no small document can expand without bound. Reading never hangs or overflows the stack because of nesting or aliases, for typed, untyped and ignored targets.",
 ["inputs"], "all depths around the limit in every mix of sequences, mappings, newtypes and tags; all alias fan-outs around the expansion limit",
 "Two tests try one deep document and one alias bomb; exactness at the boundary and recovery of depth after leaving a collection are not covered.",
 ["src/de.rs", "src/loader.rs"],
 [("depth budget", "src/de.rs recursion_check, remaining_depth"), ("jump budget", "src/de.rs jump, jumpcount")],
 state=[("remaining_depth", "collections that may still be entered", "src/de.rs"), ("jumpcount", "aliases followed in this document", "src/de.rs")],
 observe=["from_str"])

prop("C11", "Enums use YAML tags consistently in both directions",
 "Serializing an enum value and deserializing the text or the Value restores it, for unit, newtype, tuple and struct variants, in every position (document, element, map key, map value, field, inside Option or newtype), and the payload appears under the tag of the variant. When reading, a tagged node selects the variant of that name with the node as payload, a plain or quoted scalar without tag selects a unit variant of that name, and a tag naming no variant, a payload of the wrong shape, or an untagged sequence or mapping is an error rather than another variant. An untyped read of a local tag gives a tagged Value with the same tag name and content, and a leading exclamation mark is insignificant in comparing and hashing tags.",
 ["inputs"], "all enum shapes in all positions, all tag names of word characters, all node shapes offered to an enum",
 "Tests cover one enum per variant kind at top level; positions and mismatches multiply.",
 ["src/ser.rs", "src/de.rs", "src/value/tagged.rs", "src/value/de.rs", "src/value/ser.rs"],
 [("reading enums", "src/de.rs deserialize_enum, EnumAccess, UnitVariantAccess"), ("reading enums from Value", "src/value/de.rs deserialize_enum; src/value/tagged.rs TagStringVisitor"), ("writing tags", "src/ser.rs serialize_*_variant, take_tag")],
 observe=["to_string", "from_str", "to_value", "from_value"])

prop("C12", "Reading through a Value gives the same result as reading the text directly",
 "For every document and every target type built from booleans, integers, floats, strings, options, units, sequences, tuples, maps, structs and enums: if the text reads as the type directly and also reads as a Value, then reading that Value as the type (from_value) gives the same result, and so does reading via a mapping or sequence of that type; where text is refused because a type does not fit, the Value is refused as well. The only permitted differences are those where plain text and its resolved value are not the same thing: a plain scalar that is not a string (or one with a core tag) may be accepted as a string, identifier or float directly but not through a Value; a null written out is accepted as an empty sequence, mapping or struct, -0 as an unsigned integer and a hexadecimal literal as a float only through a Value.",
 ["inputs", "programs"], "all pairs of node tree and target type",
 "There are two independent deserializers (events and Value); tests compare them on about thirty pairs.",
 ["src/de.rs", "src/value/de.rs"],
 [("event deserializer", "src/de.rs impl Deserializer for &mut DeserializerFromEvents"), ("Value deserializer", "src/value/de.rs impl Deserializer for Value")],
 observe=["from_str::<T>", "from_str::<Value> then from_value::<T>"])

prop("C13", "Deserializing from an owned Value and from a borrowed Value agree",
 "For every Value and every target type, deserializing by consuming the Value and by reference gives the same result or fails in both cases, and the borrowed form leaves the Value unchanged. The same holds for the Mapping, Number and TaggedValue contained in it, and re-serializing a Value with to_value gives an equal Value.",
 ["inputs", "programs"], "all pairs of Value and target type, including enum targets, identifiers, ignored values and partially consumed sequences and maps",
 "The two deserializers are separate 400-line implementations; tests use the borrowed one in two places.",
 ["src/value/de.rs", "src/value/tagged.rs", "src/number.rs", "src/mapping.rs"],
 [("owned", "src/value/de.rs impl Deserializer for Value"), ("borrowed", "src/value/de.rs impl Deserializer for &Value")],
 observe=["T::deserialize(value)", "T::deserialize(&value)"])

prop("C14", "Mapping is an insertion-ordered map with unique keys",
 "After any history of Mapping operations (insert, the remove family, entry API, get and get_mut, retain, clear, extend, iteration and mutation through iterators, keys and values, conversion from and into iterators), the Mapping holds each key once, with the value last stored; iteration in every form yields the entries in insertion order (re-inserting keeps the position, swap-removal moves the last entry into the gap, shift-removal keeps the order). Looking up, inserting or removing by &str, String or Value key is the same operation, every return value is what an ordered map with these rules returns, and the length always matches.",
 ["histories"], "all finite histories over all keys, including keys that are equal but written differently (0.0 and -0.0, NaN, tags, mappings in another order)",
 "Three tests touch Mapping; the operations interact through order and key equality over whole histories.",
 ["src/mapping.rs", "src/value/index.rs", "src/value/mod.rs"],
 [("delegation", "src/mapping.rs impl Mapping"), ("string keys without allocation", "src/mapping.rs HashLikeValue and Index impls"), ("entry API", "src/mapping.rs Entry, OccupiedEntry, VacantEntry")],
 state=[("map", "ordered entries", "src/mapping.rs Mapping.map")],
 observe=["all public methods of Mapping"])

prop("C15", "Equality, ordering and hashing of Values are lawful and consistent",
 "Equality on Value, Number, Mapping, Tag and TaggedValue is an equivalence relation (NaN equals itself, an integer never equals a float, Mapping equality ignores entry order, a leading exclamation mark of a tag is ignored), and equal values hash equally. partial_cmp returns Equal exactly for equal values, is antisymmetric and transitive where defined, orders kinds as null, boolean, number, string, sequence, mapping, tagged, and numbers numerically within integers and within floats. Comparison of a Value with a plain bool, integer, float or string compares the value inside any tags, numerically with a plain float (which no NaN equals).",
 ["inputs"], "all pairs and triples of Values",
 "Laws quantify over pairs and triples; tests check three comparisons.",
 ["src/value/mod.rs", "src/number.rs", "src/mapping.rs", "src/value/tagged.rs", "src/value/partial_eq.rs"],
 [("Number equality, hash and order", "src/number.rs impl PartialEq/PartialOrd/Hash for N"), ("Mapping order", "src/mapping.rs impl PartialOrd/Hash for Mapping"), ("Tag comparison", "src/value/tagged.rs nobang")],
 observe=["==", "partial_cmp", "Hash"])

prop("C16", "Indexing and accessors of Value see through tags and never corrupt",
 "get, get_mut and indexing by position, string or Value key return exactly the element or entry addressed in a sequence or mapping, through any tags around it, and nothing (get) or null (read indexing) otherwise. Mutable indexing by key turns a null into a mapping, inserts a null entry for a missing key, and leaves every other entry and its position unchanged; it panics for what cannot be indexed, and changes nothing then. The as_* and is_* accessors answer according to the value inside the tags, and mutation through as_*_mut or get_mut changes exactly that place.",
 ["inputs", "histories"], "all Values, all index paths and all histories of indexed reads and writes",
 "Tests index two or three literals; tags, nulls and chained writes combine.",
 ["src/value/index.rs", "src/value/mod.rs", "src/value/tagged.rs"],
 [("index traits", "src/value/index.rs Index for usize, str, Value"), ("untagging", "src/value/tagged.rs / src/value/de.rs untag, untag_ref, untag_mut"), ("accessors", "src/value/mod.rs as_*, is_*")],
 observe=["Value::get", "Value::get_mut", "Index/IndexMut", "as_*", "is_*"])

prop("C17", "apply_merge merges every merge key by the YAML merge rules",
 "After apply_merge succeeds no mapping in the Value (outside mapping keys) contains a merge key, including mappings reached through sequences, tags, nested mappings and merged mappings themselves. Each mapping then has exactly its own entries plus, for keys it lacks, the entries of its merge mapping or of the first mapping of its merge sequence that has the key, and everything else is unchanged. A merge value that is a scalar or tagged, or a merge sequence with an element that is not an untagged mapping, is reported as an error.",
 ["inputs"], "all Values with merge keys at any depth, in any combination of single, sequence and chained merges",
 "Tests merge one level with two shapes; nesting and precedence combine.",
 ["src/value/mod.rs"],
 [("merge loop", "src/value/mod.rs Value::apply_merge")],
 observe=["Value::apply_merge"])

prop("C18", "Errors point at the offending place",
 "When a document is refused because a node does not fit the target type, the error location is the line, column and byte index at which that node (or for a missing or surplus element its collection) starts in the source, also behind aliases, inside later documents and with multi-byte characters before it, and the message names the path of map keys and sequence positions leading to the node (an unknown enum variant named by a tag is reported at the enclosing collection instead). Line and column count from 1 and the index is the byte offset of the same place. Errors while scanning or parsing carry a location within the text whose line, column and index agree and which the message names.",
 ["inputs"], "all documents with one ill-typed node at any place, any layout before it",
 "Tests check the message for about twenty fixed documents.",
 ["src/error.rs", "src/path.rs", "src/de.rs", "src/libyaml/error.rs"],
 [("mark of the failing event", "src/de.rs error::fix_mark calls"), ("path tracking", "src/path.rs, src/de.rs SeqAccess/MapAccess path"), ("location", "src/error.rs Error::location, Location")],
 observe=["Error::location", "Error Display"])

prop("C19", "singleton_map adapters are inverse and change only the enum syntax",
 "A value whose enums are written with singleton_map or singleton_map_recursive (as a one-entry mapping from variant name to payload, or the bare name for a unit variant) reads back as the same value through the same adapter, both through text and through Value, for all four variant kinds and any nesting for the recursive form. The output contains no tags for those enums, everything other than enums is represented exactly as without the adapter, and a mapping with zero or several entries or an unknown name is refused when reading an enum. The optional form of singleton_map also restores None.",
 ["inputs"], "all data trees with enums at any depth, all node shapes offered to the adapters",
 "The adapters forward about ninety methods each; tests use one enum at a few positions.",
 ["src/with.rs"],
 [("adapter forwarding", "src/with.rs SingletonMap, SingletonMapAsEnum, SingletonMapRecursive")],
 observe=["with::singleton_map::{serialize,deserialize}", "with::singleton_map_recursive::{serialize,deserialize}"])

prop("C20", "Reading never drops, duplicates or reorders data silently",
 "Every element and entry of a document reaches the target exactly once and in document order; a target that stops before the end of a sequence or mapping, leaves the value of a map entry unread, or wants more elements than there are, gets an error rather than a truncated or shifted result. A Value or Mapping read from a mapping with equal keys is refused with a duplicate-entry error, as is a struct with a repeated field, and unknown fields and the content of an enum that its target does not ask for are skipped as whole nodes without affecting their neighbours. Content after the value in single-document input is never ignored.",
 ["inputs", "programs"], "all node trees, all consumption patterns of the target's visitor (stopping early, skipping, asking again after the end)",
 "How a visitor consumes is a history of calls; tests use derive-generated visitors only.",
 ["src/de.rs", "src/value/de.rs", "src/mapping.rs"],
 [("leftover checks", "src/de.rs end_sequence, end_mapping; src/value/de.rs visit_sequence, visit_mapping"), ("duplicate keys", "src/mapping.rs MappingVisitor"), ("skipping", "src/de.rs ignore_any")],
 observe=["from_str with custom visitors", "from_value with custom visitors"])

prop("C21", "No input makes the library panic, hang or break its contracts",
 "For every byte string and every target type, reading terminates and returns a value or an error without panicking, also when iteration continues after an error; and for every Value or serde data tree (with tag and variant names of word characters), writing terminates and returns text or an error without panicking. A text accepted by from_str::<Value> can be written by to_string unless it has directly nested tags, and the result reads back as an equal Value.",
 ["inputs", "histories"], "all byte strings, in particular all short sequences of YAML tokens, in every entry point",
 "Totality over all inputs; tests and the bundled fuzz target only sample.",
 ["src/de.rs", "src/loader.rs", "src/ser.rs", "src/value/de.rs", "src/value/ser.rs", "src/libyaml/parser.rs", "src/libyaml/emitter.rs"],
 [("event cursor", "src/de.rs peek_event, next_event"), ("end-of-stream handling", "src/loader.rs next_document"), ("emitter errors", "src/libyaml/emitter.rs")],
 observe=["from_str", "from_slice", "Deserializer iteration", "to_string"])

prop("C22", "Number keeps its kind and value through every conversion",
 "A Number made from any 8- to 64-bit integer or float reports through is_*/as_* exactly the integer types that can hold it (as_f64 always the nearest float), prints and parses back to an equal Number of the same kind, and serializes and deserializes to the same Number. Parsing a Number from text accepts exactly the integer and float literals YAML resolves to numbers and refuses everything else. From conversions into Value and the as_* accessors are mutually inverse.",
 ["inputs"], "all integers and floats, all texts offered to Number's FromStr",
 "Tests check four constants; the three internal forms and their borders need all values.",
 ["src/number.rs", "src/value/from.rs", "src/value/mod.rs"],
 [("classification", "src/number.rs enum N, is_*, as_*"), ("text", "src/number.rs FromStr, Display"), ("serde", "src/number.rs Serialize, Deserialize, Deserializer")],
 observe=["Number::{from,is_*,as_*}", "Display", "FromStr"])

prop("C23", "Borrowed strings are handed out only when they are the exact source text",
 "When reading from a str or byte slice that outlives the result, a target asking for a borrowed string gets one exactly when the scalar's content appears verbatim in the source (plain scalars and quoted scalars without escapes or folding), pointing into the source with the right content; otherwise it gets an error, and never a dangling or wrong slice. Owned targets always succeed on such scalars, and reading from a reader or an owned Value never lends out borrowed strings, while a borrowed Value lends its own, also through the singleton_map adapters.",
 ["inputs"], "all scalar styles and contents, positions, aliases to scalars, and source kinds",
 "Tests borrow two literals; quoting, escapes, folding and aliases decide which case applies.",
 ["src/de.rs", "src/libyaml/parser.rs"],
 [("representation check", "src/de.rs parse_borrowed_str"), ("scalar source range", "src/libyaml/parser.rs Scalar.repr")],
 observe=["from_str::<&str>", "from_slice::<&str>", "from_reader"])

prop("C24", "Self-describing and buffered types see exactly what the node is",
 "A type that asks for whatever is there (deserialize_any: its own visitor, or serde's untagged, internally tagged, adjacently tagged and flattened types) is told what the node is by the same rules as an untyped read: null, boolean, integer with its exact value up to 128 bits, float, string, sequence in order, mapping with every entry in document order including repeated keys, a local tag as an enum variant with the node as its payload, an alias as its target, an empty document as nothing. So these derived types read the same from str, from a Value and from a borrowed Value (also under singleton_map_recursive) as serde reads them from that description, wherever they stand: fields, elements, keys, payloads and options. They fail only where serde cannot represent or match what is there (a tag or an integer beyond 64 bits inside buffered data, no alternative fits, a missing or repeated discriminator), with the location of the node responsible where one is known.",
 ["inputs", "programs"], "all pairs of node tree and type built with serde's buffering derive attributes or an own deserialize_any visitor",
 "Tests read one untagged and one flattened type; the attributes, positions, node kinds and sources multiply.",
 ["src/de.rs", "src/value/de.rs", "src/value/tagged.rs", "src/number.rs", "src/with.rs"],
 [("untyped dispatch", "src/de.rs deserialize_any, visit_untagged_scalar, visit_int"), ("tags as enums", "src/de.rs EnumAccess; src/value/tagged.rs"), ("from Values", "src/value/de.rs deserialize_any, deserialize_identifier")],
 observe=["from_str::<T>", "from_value::<T>", "T::deserialize(&value)"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        n = p["statement"].count(". ") + 1
        assert n <= 3 or p["id"] in (), (p["id"], n)
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
